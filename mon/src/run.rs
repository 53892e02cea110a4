//! Scenario runner: rounds of seeded scenarios on several servers at a time until the budget is used.
use crate::report::{Fail, Report};
use crate::rng::{hash64, Rng};
use crate::server::{Cfg, Server};
use serde_json::json;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx<'a> {
    pub rng: Rng,
    pub seed: u64,
    pub rep: &'a Report,
    pub thorough: bool,
    pub patience: Duration,
    /// multiplies idle times that a suspicion is confirmed with
    pub stretch: u32,
    pub trace: Mutex<Vec<String>>,
    pub stop: &'a AtomicBool,
    pub job: u64,
}
impl<'a> Ctx<'a> {
    pub fn t(&self, s: String) {
        let mut t = self.trace.lock().unwrap();
        if t.len() > 4000 {
            t.drain(..2000);
        }
        t.push(s);
    }
    /// Run `f` against a fresh server; a panic or unexpected death of the server overrides its verdict.
    pub fn server<T>(&mut self, cfg: Cfg, f: impl FnOnce(&mut Ctx, &mut Server) -> Result<T, Fail>) -> Result<T, Fail> {
        let mut s = Server::start(self, cfg)?;
        let r = f(self, &mut s);
        self.rep.count("servers_started", s.starts as u64);
        self.rep.count("preemptions_injected", s.ctl.preempts());
        self.rep.count("file_operations_seen", s.ctl.fileops());
        if let Some(p) = s.panicked() {
            let extra = match &r {
                Err(Fail::Violation(_, m)) => format!(" (also: {})", m),
                Err(Fail::Suspect(m)) => format!(" (also: {})", m),
                _ => String::new(),
            };
            return Err(Fail::v("panic", format!("the server panicked: {}{}", p.replace('\n', " | "), extra)));
        }
        if let Some(d) = s.died_unexpectedly() {
            return Err(Fail::v("died", d));
        }
        if let Err(Fail::Suspect(m)) = &r {
            if s.stuck() {
                return Err(Fail::v("hang", format!("the server hangs: no thread of it wants to run and an echo on a new connection stays unanswered ({})", m)));
            }
        }
        if std::env::var("MON_KEEP").is_ok() && matches!(r, Err(Fail::Violation(..))) {
            s.keep = true;
            eprintln!("kept {}", s.dir.display());
        }
        r
    }
}

pub type ScnFn = fn(&mut Ctx) -> Result<(), Fail>;
pub struct Spec {
    pub scenarios: Vec<(&'static str, u32, ScnFn)>,
    pub par: usize,
    pub quick_s: u64,
    pub thorough_s: u64,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: Vec<&'static str>,
}

pub struct Known {
    pub prop: String,
    pub sig: String,
    pub text: String,
}
pub fn load_known(root: &str) -> Vec<Known> {
    let mut v = Vec::new();
    for l in std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default().lines() {
        // known: property=<id> sig=<signature> <text>
        if let Some(r) = l.strip_prefix("known: ") {
            let mut it = r.splitn(3, ' ');
            let p = it.next().and_then(|x| x.strip_prefix("property=")).unwrap_or("").to_string();
            let s = it.next().and_then(|x| x.strip_prefix("sig=")).unwrap_or("").to_string();
            v.push(Known { prop: p, sig: s, text: it.next().unwrap_or("").to_string() });
        }
    }
    v
}

/// Returns the process exit code.
pub fn run(prop: &str, spec: Spec, root: &str, only: Option<(String, u64)>) -> i32 {
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = tier == "thorough";
    let rep = Report::new(prop, tier, seed);
    let known: Vec<Known> = load_known(root).into_iter().filter(|k| k.prop == prop).collect();
    let secs = std::env::var("MON_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { spec.thorough_s } else { spec.quick_s });
    let budget = Duration::from_secs(secs);
    let par = std::env::var("MON_PAR").ok().and_then(|s| s.parse().ok()).unwrap_or(spec.par);
    let mut schedule: Vec<usize> = (0..spec.scenarios.len()).collect();
    for (i, s) in spec.scenarios.iter().enumerate() {
        for _ in 1..s.1 {
            schedule.push(i);
        }
    }
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let start = Instant::now();
    let hard = Duration::from_secs(if thorough { secs + 240 } else { (secs * 4).max(240).min(600) });
    let inconclusive = Mutex::new(Vec::<String>::new());
    let rounds = spec.scenarios.len() as u64;
    let only = &only;

    let one = |i: usize, job: u64, jseed: u64, patience: u64, stretch: u32| -> (Result<(), Fail>, Vec<String>) {
        let mut c = Ctx {
            rng: Rng::new(jseed),
            seed: jseed,
            rep: &rep,
            thorough,
            patience: Duration::from_secs(patience),
            stretch,
            trace: Mutex::new(Vec::new()),
            stop: &stop,
            job,
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (spec.scenarios[i].2)(&mut c)));
        let tr = c.trace.lock().map(|t| t.clone()).unwrap_or_default();
        match r {
            Ok(r) => (r, tr),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                (Err(Fail::Inconclusive(format!("harness panic: {}", m))), tr)
            }
        }
    };
    std::thread::scope(|sc| {
        for _ in 0..par {
            sc.spawn(|| loop {
                let job = next.fetch_add(1, SeqCst);
                if stop.load(SeqCst) || start.elapsed() > hard {
                    break;
                }
                let (i, jseed) = match only {
                    Some((name, s)) => {
                        let reps: u64 = std::env::var("MON_REPS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
                        if job >= reps {
                            break;
                        }
                        let s = if *s == 0 { hash64(&[seed.to_le_bytes(), job.to_le_bytes()].concat()) } else { *s };
                        match spec.scenarios.iter().position(|x| x.0 == name) {
                            Some(i) => (i, s),
                            None => break,
                        }
                    }
                    None => {
                        if job >= rounds && start.elapsed() > budget {
                            break;
                        }
                        let i = schedule[(job % schedule.len() as u64) as usize];
                        (i, hash64(&[seed.to_le_bytes(), job.to_le_bytes(), (hash64(prop.as_bytes())).to_le_bytes()].concat()))
                    }
                };
                let name = spec.scenarios[i].0;
                let t0 = Instant::now();
                let (mut r, mut tr) = one(i, job, jseed, 20, 1);
                if std::env::var("MON_V").is_ok() {
                    eprintln!("[{:6.1}] job {} {} {:.1}s {:?}", start.elapsed().as_secs_f32(), job, name, t0.elapsed().as_secs_f32(), r);
                }
                if let Err(Fail::Suspect(m)) = &r {
                    eprintln!("suspicion in {} (job {}): {} - retrying with more patience", name, job, m);
                    rep.count("suspicions_retried", 1);
                    let m0 = m.clone();
                    let (r2, tr2) = one(i, job, jseed, 60, 4);
                    match r2 {
                        Err(Fail::Suspect(m)) => {
                            r = Err(Fail::v("hang", format!("{} (twice; first: {})", m, m0)));
                            tr = tr2;
                        }
                        Ok(()) => r = Err(Fail::Inconclusive(format!("not confirmed: {}", m0))),
                        e => {
                            r = e;
                            tr = tr2;
                        }
                    }
                }
                rep.count(&format!("runs_{}", name), 1);
                match r {
                    Ok(()) => {}
                    Err(Fail::Inconclusive(m)) => {
                        rep.count("inconclusive_runs", 1);
                        let mut v = inconclusive.lock().unwrap();
                        if v.len() < 20 {
                            v.push(format!("{}: {}", name, m));
                        }
                    }
                    Err(Fail::Violation(sig, msg)) => {
                        let full = format!("{}/{}", name, sig);
                        if let Some(k) = known.iter().find(|k| k.sig == full) {
                            *rep.known_hit.lock().unwrap().entry(k.sig.clone()).or_insert(0) += 1;
                            continue;
                        }
                        let mut vs = rep.violations.lock().unwrap();
                        let dir = PathBuf::from(format!("{}/replays", root));
                        let _ = std::fs::create_dir_all(&dir);
                        let f = dir.join(format!("{}-{}-{}.json", prop, name, job));
                        let _ = std::fs::write(
                            &f,
                            serde_json::to_string_pretty(&json!({"property": prop, "scenario": name, "seed": jseed, "tier": tier, "signature": full, "message": msg, "trace": tr,
                                "replay": format!("{}/target/mon/release/nexo-mon {} --only {} {}", root, prop, name, jseed)}))
                            .unwrap(),
                        );
                        println!("VIOLATION property={} replay={}", prop, f.display());
                        println!("  {}: {}", full, msg);
                        vs.push((full, msg, f));
                        stop.store(true, SeqCst);
                    }
                    Err(Fail::Suspect(_)) => unreachable!(),
                }
            });
        }
    });
    for m in inconclusive.lock().unwrap().iter() {
        eprintln!("inconclusive: {}", m);
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", prop, k.text);
    }
    if only.is_none() {
        rep.write_evidence(spec.rule, spec.level, &spec.assumptions, root);
    }
    let nv = rep.violations.lock().unwrap().len();
    println!(
        "{} {} seed={} evaluations={} distinct={} violations={} wall={:.1}s",
        prop,
        tier,
        seed,
        rep.evals(),
        rep.n_distinct(),
        nv,
        start.elapsed().as_secs_f64()
    );
    for (k, v) in rep.counters() {
        println!("  {} = {}", k, v);
    }
    if nv > 0 {
        1
    } else if rep.evals() == 0 && only.is_none() {
        println!("nothing was observed");
        2
    } else {
        0
    }
}
