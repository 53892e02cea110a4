//! C14 (stream crash recovery).
use super::stream::{body, contiguous, groups, num, read_all};
use crate::client::*;
use crate::proto::*;
use crate::report::Fail;
use crate::rng::{hash64, Rng};
use crate::run::{Ctx, Spec};
use crate::server::{Cfg, Server};
use crate::{ensure, viol};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn spec_crash() -> Spec {
    Spec {
        scenarios: vec![("crash", 6, crash_scn), ("moved", 1, moved_scn)],
        par: 6,
        quick_s: 50,
        thorough_s: 500,
        level: "fault_enumeration",
        rule: "Concurrent publishers and group consumers on several topics (tiny to huge segments, 1..256 file handles, records from bytes to megabytes); the process is killed at a random instant, exactly at the N-th file operation, or in the middle of a write (a fraction of the bytes reaches the file), possibly again while recovering; it is restarted and judged, and the next life continues on the recovered data, several times. The recovered log must be positions 1..n with the bytes and timestamps that were published under them, n covering the last completed flush; floors lie between the last saved one and what acknowledgements made possible, and never beyond the log; publishing continues at n+1 and a new member gets exactly floor+1.. in order. (moved) the data directory is moved between lives. One evaluation = one recovered topic or group; distinct by crash kind, configuration and recovered shape.",
        assumptions: vec!["crash = SIGKILL of the process, at a system call or inside a write; the page cache survives", "what was flushed is judged at quiescent points, after two flush intervals of virtual time"],
    }
}

#[derive(Clone, PartialEq, Debug)]
struct Ent {
    n: u64,
    ts: Option<u64>,
}
#[derive(Default)]
struct Top {
    name: String,
    /// positions 1.. as known (answered publishes)
    log: BTreeMap<u64, Ent>,
    durable: u64,
    out: BTreeSet<u64>,
    grp: BTreeMap<String, Gr>,
}
#[derive(Default, Clone, Debug)]
struct Gr {
    base: u64,
    acked: BTreeSet<u64>,
    saved: Option<u64>,
}
impl Gr {
    fn ub(&self) -> u64 {
        let mut f = self.base;
        while self.acked.contains(&(f + 1)) {
            f += 1;
        }
        f
    }
}

/// Publishers and consumers until they are told to stop or the server is gone.
fn work(ctx: &mut Ctx, srv: &mut Server, tops: &[Mutex<Top>], uniq: &AtomicU64, hashes: &Mutex<HashMap<u64, u64>>, ops: u64, big: usize, strict: bool, crash: Option<(i64, u64, u64)>) -> Result<String, Fail> {
    let np = ctx.rng.range(1, 3) as usize;
    let nc = ctx.rng.range(0, 2) as usize;
    let mut conns = vec![];
    for _ in 0..np + nc {
        conns.push(srv.conn()?);
    }
    if ctx.rng.chance(400) {
        srv.ctl.preempt(ctx.rng.range(100, 600), ctx.rng.range(200, 2000));
    }
    if let Some((n, torn, _)) = crash {
        if n >= 0 {
            srv.ctl.crash_after(n, torn);
        }
    }
    let stop = AtomicBool::new(false);
    let left = AtomicU64::new((np + nc) as u64);
    let errs: Mutex<Vec<Fail>> = Mutex::new(vec![]);
    let mut rngs: Vec<Rng> = (0..np + nc + 1).map(|_| ctx.rng.fork()).collect();
    let mut verdict = String::new();
    let publishing = AtomicU64::new(np as u64);
    std::thread::scope(|sc| {
        for k in 0..np + nc {
            let mut r = rngs.remove(0);
            let c = conns[k].clone();
            let (stop, left, errs, publishing) = (&stop, &left, &errs, &publishing);
            sc.spawn(move || {
                let mut run = || -> Result<(), Fail> {
                    if k < np {
                        for _ in 0..ops {
                            if stop.load(SeqCst) {
                                break;
                            }
                            let t = r.below(tops.len() as u64) as usize;
                            let burst = if r.chance(200) { r.range(2, 20) } else { 1 };
                            let mut ids = vec![];
                            for _ in 0..burst {
                                let n = uniq.fetch_add(1, SeqCst);
                                let p = body(&mut r, n, big);
                                hashes.lock().unwrap().insert(n, hash64(&p));
                                let name = {
                                    let mut g = tops[t].lock().unwrap();
                                    g.out.insert(n);
                                    g.name.clone()
                                };
                                ids.push((n, c.send(S_PUB, &W::new().s(&name).raw(&p).0)));
                            }
                            for (n, id) in ids {
                                let q = as_seq(c.wait(id)?)?;
                                let mut g = tops[t].lock().unwrap();
                                g.out.remove(&n);
                                if let Some(o) = g.log.insert(q, Ent { n, ts: None }) {
                                    viol!("reused", "{:?}: position {} was given to message {} though it holds message {}", g.name, q, n, o.n);
                                }
                            }
                        }
                        return Ok(());
                    }
                    let mut js: HashMap<(usize, String), (Joined, Vec<u64>)> = HashMap::new();
                    for _ in 0..ops * 2 {
                        if stop.load(SeqCst) || publishing.load(SeqCst) == 0 && r.chance(100) {
                            break;
                        }
                        let t = r.below(tops.len() as u64) as usize;
                        let gn = format!("g{}", r.below(2));
                        let name = tops[t].lock().unwrap().name.clone();
                        if !js.contains_key(&(t, gn.clone())) {
                            let j = c.s_join(&name, &gn)?;
                            tops[t].lock().unwrap().grp.entry(gn.clone()).or_default();
                            js.insert((t, gn.clone()), (j, vec![]));
                        }
                        let (j, held) = js.get_mut(&(t, gn.clone())).unwrap();
                        let v = match c.s_fetch(&name, &gn, j, r.range(1, 30) as u32, 0)? {
                            Ok(v) => v,
                            Err(e) => viol!("fetch", "fetch by a member failed: {}", e),
                        };
                        held.extend(v.iter().map(|m| m.seq));
                        while !held.is_empty() && r.chance(900) {
                            let i = if r.chance(900) { 0 } else { r.below(held.len() as u64) as usize };
                            let q = held.remove(i);
                            tops[t].lock().unwrap().grp.get_mut(&gn).unwrap().acked.insert(q);
                            if let Err(e) = c.s_ack(&name, &gn, j, q)? {
                                viol!("ack", "ack by the holder failed: {}", e);
                            }
                        }
                    }
                    Ok(())
                };
                match run() {
                    Ok(()) => {}
                    Err(Fail::Suspect(_)) if c.closed() && !strict => {}
                    Err(e) => errs.lock().unwrap().push(e),
                }
                if k < np {
                    publishing.fetch_sub(1, SeqCst);
                }
                left.fetch_sub(1, SeqCst);
            });
        }
        // time moves while they work; the crash comes by itself (armed) or after a delay
        let mut r = rngs.remove(0);
        let t0 = Instant::now();
        while left.load(SeqCst) > 0 {
            srv.adv(r.range(5, 80));
            std::thread::sleep(Duration::from_millis(r.range(1, 5)));
            match crash {
                None => {}
                Some((n, torn, after)) => {
                    if n < 0 && t0.elapsed() > Duration::from_millis(after) {
                        verdict = "kill".into();
                        break;
                    }
                    if n >= 0 && !srv.alive() {
                        verdict = format!("at file operation {} kind {} torn {}", n, srv.ctl.crashed_kind_peek(), torn);
                        break;
                    }
                }
            }
        }
        if crash.is_some() {
            if verdict.is_empty() {
                // all operations done: give the armed point a chance through the flush timers, then kill
                if crash.unwrap().0 >= 0 {
                    for _ in 0..r.below(8) {
                        srv.adv(60);
                        std::thread::sleep(Duration::from_millis(4));
                    }
                    srv.wait_dead(Duration::from_millis(10));
                }
                verdict = if srv.alive() { "kill when idle".into() } else { format!("late at kind {}", srv.ctl.crashed_kind_peek()) };
            }
            if srv.alive() {
                srv.kill();
            }
            stop.store(true, SeqCst);
        }
    });
    if let Some(e) = errs.into_inner().unwrap().into_iter().next() {
        return Err(e);
    }
    Ok(verdict)
}

fn crash_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let seg = *ctx.rng.pick(&[1u64, 150, 1000, 10000, 1 << 30]);
    let ram = *ctx.rng.pick(&[0u64, 5, 1000]);
    let files = *ctx.rng.pick(&[1u64, 2, 256]);
    let cfg = Cfg::frozen()
        .set("STREAM_MAX_SEGMENT_SIZE", seg)
        .set("STREAM_RAM_SOFT_LIMIT", ram)
        .set("STREAM_MAX_OPEN_FILES", files)
        .set("STREAM_ACK_WAIT_MS", 1_000_000_000u64)
        .set("STREAM_MAX_DELIVERIES", 100_000);
    ctx.t(format!("segment {} ram {} files {}", seg, ram, files));
    let lives = if ctx.thorough { ctx.rng.range(3, 14) } else { ctx.rng.range(3, 7) };
    ctx.server(cfg, |ctx, srv| {
        let nt = ctx.rng.range(1, 2) as usize;
        let tops: Vec<Mutex<Top>> = (0..nt).map(|i| Mutex::new(Top { name: format!("cr{}", i), ..Default::default() })).collect();
        let c = srv.conn()?;
        for t in &tops {
            ensure!(c.s_create(&t.lock().unwrap().name, "{\"retention\":{\"maxAgeMs\":0,\"maxBytes\":0}}")? == Resp::Ok, "reply", "create failed");
        }
        let uniq = AtomicU64::new(1);
        let hashes: Mutex<HashMap<u64, u64>> = Mutex::new(HashMap::new());
        for life in 0..lives {
            let big = *ctx.rng.pick(&[40usize, 400, 9000, 30000]);
            if ctx.rng.chance(600) {
                let mut sought = false;
                if ctx.rng.chance(250) {
                    let c = srv.conn()?;
                    for t in &tops {
                        let mut t = t.lock().unwrap();
                        let end = ctx.rng.chance(500);
                        let last = t.log.len() as u64;
                        let name = t.name.clone();
                        ensure!(c.s_seek(&name, "g0", end)?.is_ok(), "seek", "seek failed");
                        let g = t.grp.entry("g0".into()).or_default();
                        g.base = if end { last } else { 0 };
                        g.acked.clear();
                        sought = true;
                    }
                }
                let n = ctx.rng.range(1, 25);
                work(ctx, srv, &tops, &uniq, &hashes, n, big, true, None)?;
                if sought || ctx.rng.chance(750) {
                    srv.flushed(500)?;
                    for t in &tops {
                        let mut t = t.lock().unwrap();
                        t.durable = t.log.len() as u64;
                        let (last, gm) = groups(srv, &t.name)?;
                        ensure!(last == t.durable, "last", "{:?} reports last position {} after {} publishes", t.name, last, t.durable);
                        let name = t.name.clone();
                        for (gn, g) in t.grp.iter_mut() {
                            let f = gm.get(gn).map(|x| x.0);
                            ensure!(f == Some(g.ub()), "floor", "group {:?} of {:?} reports floor {:?}, acknowledged is exactly up to {}", gn, name, f, g.ub());
                            g.saved = f;
                        }
                    }
                }
                srv.ctl.calm();
            }
            // one very large record now and then: it is written in several pieces
            if ctx.rng.chance(60) {
                let c = srv.conn()?;
                let n = uniq.fetch_add(1, SeqCst);
                let mut p = vec![0u8];
                p.extend_from_slice(&n.to_be_bytes());
                let k = ctx.rng.range(2_000_000, 5_000_000) as usize;
                p.extend(ctx.rng.bytes(k));
                hashes.lock().unwrap().insert(n, hash64(&p));
                let mut t = tops[0].lock().unwrap();
                let q = c.s_pub(&t.name, &p)?;
                t.log.insert(q, Ent { n, ts: None });
            }
            let crash = if ctx.rng.chance(750) {
                let k = *ctx.rng.pick(&[3u64, 10, 40, 120]);
                (ctx.rng.below(k) as i64, *ctx.rng.pick(&[0u64, 0, 1, 300, 500, 900, 999]), 0)
            } else {
                (-1, 0, ctx.rng.range(0, 60))
            };
            let n = ctx.rng.range(2, 40);
            let how = if ctx.rng.chance(200) {
                fresh_ack(ctx, srv, &tops, &uniq, &hashes)?
            } else {
                work(ctx, srv, &tops, &uniq, &hashes, n, big, false, Some(crash))?
            };
            ctx.t(format!("life {}: {:?} -> {}", life, crash, how));
            if ctx.rng.chance(200) {
                srv.ctl.calm();
                srv.ctl.crashed_kind();
                srv.ctl.crash_after(ctx.rng.range(0, 4) as i64, *ctx.rng.pick(&[0u64, 500]));
                match srv.reboot() {
                    Ok(()) => {
                        // let the first timers run with the crash point armed
                        srv.adv(60);
                        srv.settle();
                        srv.adv(600);
                        srv.settle();
                        srv.kill();
                    }
                    Err(Fail::Inconclusive(_)) => ctx.rep.count("crashes_during_recovery", 1),
                    Err(e) => return Err(e),
                }
            }
            srv.restart()?;
            ctx.rep.count("crashes", 1);
            let c = srv.conn()?;
            for t in &tops {
                let mut t = t.lock().unwrap();
                judge_topic(ctx, srv, &mut t, &hashes.lock().unwrap(), life, &how)?;
                let n = t.log.len() as u64;
                ctx.rep.distinct(hash64(format!("{} {} {} {} {}", how.split(' ').take(6).collect::<Vec<_>>().join(" "), seg, files, n.min(200), t.durable.min(200)).as_bytes()));
                // life goes on: next position, new members
                let m = uniq.fetch_add(1, SeqCst);
                let p = body(&mut ctx.rng, m, 100);
                hashes.lock().unwrap().insert(m, hash64(&p));
                let q = c.s_pub(&t.name, &p)?;
                ensure!(q == n + 1, "position", "life {} ({}): {:?} recovered {} messages and gave the next publish position {}", life, how, t.name, n, q);
                t.log.insert(q, Ent { n: m, ts: None });
                let name = t.name.clone();
                for (gn, g) in t.grp.iter_mut() {
                    let j = c.s_join(&name, gn)?;
                    ensure!(j.floor == g.base, "floor", "group {:?} of {:?} lists floor {} but a joining member is told {}", gn, name, g.base, j.floor);
                    let mut at = g.base + 1;
                    loop {
                        let v = match c.s_fetch(&name, gn, &j, *ctx.rng.pick(&[1u32, 10, 100]), 0)? {
                            Ok(v) => v,
                            Err(e) => viol!("fetch", "fetch after recovery failed: {}", e),
                        };
                        if v.is_empty() {
                            break;
                        }
                        contiguous(&name, "a fetch after recovery", &v, at)?;
                        for m in &v {
                            ensure!(hashes.lock().unwrap().get(&num(&m.payload).unwrap_or(0)) == Some(&hash64(&m.payload)), "content", "{:?} position {}: fetched bytes were never published", name, m.seq);
                        }
                        at += v.len() as u64;
                    }
                    ensure!(at == n + 2, "skipped", "life {} ({}): group {:?} of {:?} at floor {} was delivered messages up to {} of {}", life, how, gn, name, g.base, at - 1, n + 1);
                    ensure!(c.s_leave(&name, gn, &j)?.is_ok(), "leave", "leave failed");
                    ctx.rep.eval(1);
                }
                ctx.rep.sample(json!({"life": life, "crash": how, "segment": seg, "files": files, "recovered": n, "durable": t.durable, "groups": t.grp.iter().map(|(k, g)| (k.clone(), json!([g.saved, g.base]))).collect::<BTreeMap<_, _>>()}));
            }
        }
        Ok(())
    })
}

/// Messages acknowledged before they are flushed; the crash comes while the flush and the saving of the groups are due at once.
fn fresh_ack(ctx: &mut Ctx, srv: &mut Server, tops: &[Mutex<Top>], uniq: &AtomicU64, hashes: &Mutex<HashMap<u64, u64>>) -> Result<String, Fail> {
    srv.flushed(500)?;
    let c = srv.conn()?;
    for t in tops {
        let mut t = t.lock().unwrap();
        t.durable = t.log.len() as u64;
        let name = t.name.clone();
        for _ in 0..ctx.rng.range(1, 6) {
            let n = uniq.fetch_add(1, SeqCst);
            let p = body(&mut ctx.rng, n, 200);
            hashes.lock().unwrap().insert(n, hash64(&p));
            let q = c.s_pub(&name, &p)?;
            if let Some(o) = t.log.insert(q, Ent { n, ts: None }) {
                viol!("reused", "{:?}: position {} was given to message {} though it holds message {}", name, q, n, o.n);
            }
        }
        let j = c.s_join(&name, "g0")?;
        let g = t.grp.entry("g0".into()).or_default();
        loop {
            let v = match c.s_fetch(&name, "g0", &j, 50, 0)? {
                Ok(v) => v,
                Err(e) => viol!("fetch", "fetch by a member failed: {}", e),
            };
            if v.is_empty() {
                break;
            }
            for m in v {
                g.acked.insert(m.seq);
                if let Err(e) = c.s_ack(&name, "g0", &j, m.seq)? {
                    viol!("ack", "ack by the holder failed: {}", e);
                }
            }
        }
    }
    let n = ctx.rng.below(12) as i64;
    srv.ctl.crash_after(n, 0);
    srv.adv(500);
    for _ in 0..10 {
        srv.settle();
        if !srv.alive() {
            break;
        }
    }
    let how = if srv.alive() { "unflushed acks, killed".into() } else { format!("unflushed acks, at file operation {} kind {}", n, srv.ctl.crashed_kind_peek()) };
    if srv.alive() {
        srv.kill();
    }
    Ok(how)
}

/// Compare a recovered topic with what was published and make the recovered state the new reference.
fn judge_topic(ctx: &Ctx, srv: &Server, t: &mut Top, hashes: &HashMap<u64, u64>, life: u64, how: &str) -> Result<(), Fail> {
    let (last, v) = read_all(srv, &t.name, 1, 500)?;
    contiguous(&t.name, "a full read after recovery", &v, 1)?;
    ensure!(v.len() as u64 == last, "gap", "life {} ({}): {:?} says its last position is {} but {} messages are readable", life, how, t.name, last, v.len());
    ensure!(last >= t.durable, "lost", "life {} ({}): {:?} recovered {} messages, {} had been flushed", life, how, t.name, last, t.durable);
    let mut log = BTreeMap::new();
    let mut used = BTreeSet::new();
    for m in &v {
        let n = num(&m.payload).unwrap_or(0);
        ensure!(hashes.get(&n) == Some(&hash64(&m.payload)), "content", "life {} ({}): {:?} position {} has bytes that were never published: {}", life, how, t.name, m.seq, preview(&m.payload));
        match t.log.get(&m.seq) {
            Some(e) => {
                ensure!(e.n == n, "content", "life {} ({}): {:?} position {} held message {} and now holds message {}", life, how, t.name, m.seq, e.n, n);
                ensure!(e.ts.map_or(true, |x| x == m.ts), "timestamp", "life {} ({}): {:?} position {}: timestamp {:?} became {}", life, how, t.name, m.seq, e.ts, m.ts);
            }
            None => ensure!(t.out.contains(&n), "content", "life {} ({}): {:?} position {} holds message {} which had another position or was lost before", life, how, t.name, m.seq, n),
        }
        ensure!(used.insert(n), "duplicate", "life {} ({}): message {} is in {:?} twice", life, how, n, t.name);
        log.insert(m.seq, Ent { n, ts: Some(m.ts) });
    }
    t.log = log;
    t.out.clear();
    t.durable = last; // what recovery shows is on disk
    ctx.rep.eval(1);
    ctx.rep.count("messages_recovered", last);
    let (l2, gm) = groups(srv, &t.name)?;
    ensure!(l2 == last, "last", "{:?}: last position {} in one listing, {} in the other", t.name, last, l2);
    let names: Vec<String> = t.grp.keys().cloned().collect();
    for gn in names {
        let g = t.grp.get_mut(&gn).unwrap();
        match gm.get(&gn) {
            None => {
                ensure!(g.saved.is_none(), "group", "life {} ({}): group {:?} of {:?} with saved floor {:?} is gone after recovery", life, how, gn, t.name, g.saved);
                t.grp.remove(&gn);
            }
            Some((f, p)) => {
                ensure!(*p == 0, "pending", "group {:?} has {} pending messages right after recovery", gn, p);
                ensure!(*f <= last, "beyond", "life {} ({}): group {:?} of {:?} recovered at floor {} but the log ends at {}", life, how, gn, t.name, f, last);
                ensure!(*f <= g.ub(), "floor", "life {} ({}): group {:?} of {:?} recovered at floor {} although only positions up to {} were acknowledged", life, how, gn, t.name, f, g.ub());
                if let Some(s) = g.saved {
                    ensure!(*f >= s.min(last), "floor", "life {} ({}): group {:?} of {:?} recovered at floor {}, saved had been {}", life, how, gn, t.name, f, s);
                }
                *g = Gr { base: *f, acked: BTreeSet::new(), saved: Some(*f) };
                ctx.rep.eval(1);
            }
        }
    }
    ensure!(gm.keys().all(|k| t.grp.contains_key(k)), "group", "unknown groups {:?} after recovery of {:?}", gm.keys().collect::<Vec<_>>(), t.name);
    Ok(())
}

/// The data directory as a whole is moved between two lives (restored from a backup, another mount point).
fn moved_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    ctx.server(Cfg::frozen().set("STREAM_MAX_SEGMENT_SIZE", *[200u64, 1 << 30].get(ctx.seed as usize % 2).unwrap()), |ctx, srv| {
        let c = srv.conn()?;
        let tops = vec![Mutex::new(Top { name: "mv".into(), ..Default::default() })];
        ensure!(c.s_create("mv", "{}")? == Resp::Ok, "reply", "create failed");
        let uniq = AtomicU64::new(1);
        let hashes: Mutex<HashMap<u64, u64>> = Mutex::new(HashMap::new());
        let mut cur = srv.data().join("streams");
        for life in 0..3 {
            let n = ctx.rng.range(3, 20);
            work(ctx, srv, &tops, &uniq, &hashes, n, 200, true, None)?;
            srv.flushed(500)?;
            {
                let mut t = tops[0].lock().unwrap();
                t.durable = t.log.len() as u64;
                let (_, gm) = groups(srv, "mv")?;
                for (gn, g) in t.grp.iter_mut() {
                    g.saved = gm.get(gn).map(|x| x.0);
                }
            }
            srv.kill();
            let next = srv.data().join(format!("moved{}", life));
            std::fs::rename(&cur, &next).map_err(|e| Fail::Inconclusive(format!("rename: {}", e)))?;
            cur = next;
            srv.set_env("STREAM_ROOT_PERSISTENCE_PATH", cur.display());
            srv.restart()?;
            let mut t = tops[0].lock().unwrap();
            judge_topic(ctx, srv, &mut t, &hashes.lock().unwrap(), life, "moved data directory")?;
        }
        Ok(())
    })
}
