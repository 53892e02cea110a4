//! C02 (matching, exactly-once, order), C03 (retained values, online), C04 (retained values across crashes).
use crate::client::{Conn, Push};
use crate::proto::*;
use crate::report::Fail;
use crate::rng::{hash64, Rng};
use crate::run::{Ctx, Spec};
use crate::server::{Cfg, Server};
use crate::{ensure, viol};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn spec_routing() -> Spec {
    Spec {
        scenarios: vec![("match", 3, match_scn), ("churn", 3, churn_scn), ("slow", 1, slow_scn)],
        par: 4,
        quick_s: 35,
        thorough_s: 500,
        level: "exploration",
        rule: "Real clients subscribe with random patterns over a small level alphabet (empty levels, unicode, overlapping wildcards), publish, unsubscribe, disconnect. (match) sequential: after every batch a fence message is awaited and each client's received list must equal the reference matcher's list exactly, in order; (churn) concurrent publishers against subscription churn with injected preemption: every delivery judged by the real-time intervals in which a matching subscription was surely / possibly held, at most once, per-publisher order; (slow) a stalled reader gets everything in order afterwards while others are unaffected. One evaluation = one (message, client) delivery decision; distinct = distinct (topic, set of patterns held, verdict).",
        assumptions: vec!["published topics contain no wildcard levels; what a pattern has behind a '#' has no meaning"],
    }
}
pub fn spec_retained() -> Spec {
    Spec {
        scenarios: vec![("model", 3, retained_scn), ("gapfree", 2, gapfree_scn)],
        par: 4,
        quick_s: 35,
        thorough_s: 400,
        level: "exploration",
        rule: "(model) random retained / clearing / plain publishes with TTLs over topics with empty levels in virtual time, with the cleanup task running; every new subscription's pushes before a fence must equal the model's unexpired retained values; a watcher sees every publish once. (gapfree) publishers update retained topics under injected preemption while clients subscribe: each must observe a contiguous sequence starting at the current value. One evaluation = one subscription's complete snapshot or one observed value sequence; distinct by content.",
        assumptions: vec!["the exact expiry instant is not judged"],
    }
}
pub fn spec_durable() -> Spec {
    Spec {
        scenarios: vec![("crash", 4, crash_scn), ("downtime", 2, downtime_scn)],
        par: 6,
        quick_s: 40,
        thorough_s: 500,
        level: "fault_enumeration",
        rule: "Publishers update retained topics (each sequentially); flushes happen when the virtual clock is advanced; the process is killed at a random instant or at the N-th file operation of a flush (optionally torn) and restarted several times. The values a fresh '#' subscription gets must be the state after some prefix of each publisher's operations, closed under real-time precedence, at least everything flushed; expired values (also while down) never come back; remaining TTLs are kept. One evaluation = one recovered state; distinct by crash kind, position and state.",
        assumptions: vec!["crash = SIGKILL of the process (page cache survives)", "second resolution of persisted expiry: +-1.5 s around expiry is not judged"],
    }
}

const LEVELS: &[&str] = &["a", "b", "c", "", "é", "a b", "A", "$s", "ab"];

pub fn matches(pat: &str, topic: &str) -> bool {
    let p: Vec<&str> = pat.split('/').collect();
    let t: Vec<&str> = topic.split('/').collect();
    let mut i = 0;
    loop {
        if i < p.len() && p[i] == "#" {
            return true;
        }
        if i == p.len() || i == t.len() {
            return i == p.len() && i == t.len();
        }
        if p[i] != "+" && p[i] != t[i] {
            return false;
        }
        i += 1;
    }
}
fn rand_topic(r: &mut Rng, width: u64) -> String {
    let n = match r.below(10) {
        0..=1 => 1,
        2..=4 => 2,
        5..=7 => 3,
        8 => 4,
        _ => r.range(1, 6),
    };
    (0..n).map(|_| LEVELS[r.below(width.min(LEVELS.len() as u64)) as usize]).collect::<Vec<_>>().join("/")
}
fn rand_pattern(r: &mut Rng, width: u64) -> String {
    let t = rand_topic(r, width);
    let mut p: Vec<String> = t.split('/').map(|s| s.to_string()).collect();
    for l in p.iter_mut() {
        if r.chance(300) {
            *l = "+".into();
        }
    }
    if r.chance(350) {
        let k = r.below(p.len() as u64 + 1) as usize;
        p.truncate(k);
        p.push("#".into());
        // levels behind a '#' mean nothing
        if r.chance(150) {
            p.push(LEVELS[r.below(width.min(LEVELS.len() as u64)) as usize].into());
        }
    }
    p.join("/")
}

struct Cl {
    c: Conn,
    subs: BTreeSet<String>,
    fence: String,
    name: usize,
}
fn new_client(srv: &Server, n: usize) -> Result<Cl, Fail> {
    let c = srv.conn()?;
    let fence = format!("~fence/{}", n);
    c.subscribe(&fence)?;
    Ok(Cl { c, subs: BTreeSet::new(), fence, name: n })
}

fn match_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    ctx.server(Cfg::frozen().set("PUBSUB_CLEANUP_INTERVAL_SECS", 1), |ctx, srv| {
        let publisher = srv.conn()?;
        let mut next = 0usize;
        let mut cl: Vec<Cl> = Vec::new();
        let nclients = ctx.rng.range(3, 8) as usize;
        for _ in 0..nclients {
            cl.push(new_client(srv, next)?);
            next += 1;
        }
        let width = ctx.rng.range(2, LEVELS.len() as u64);
        let rounds = if ctx.thorough { 400 } else { 120 };
        let mut seq = 0u64;
        for round in 0..rounds {
            let mut expected: Vec<Vec<(String, Vec<u8>)>> = vec![Vec::new(); cl.len()];
            if ctx.rng.chance(250) {
                // retained values come and go (cleared or expired) around the subscriptions, which stay
                let mut left: Vec<String> = vec![];
                for _ in 0..ctx.rng.range(1, 12) {
                    let mut t = rand_topic(&mut ctx.rng, width);
                    if ctx.rng.chance(200) && !left.is_empty() {
                        t = ctx.rng.pick(&left).clone();
                    }
                    seq += 1;
                    let pl = if ctx.rng.chance(300) { vec![] } else { seq.to_be_bytes().to_vec() };
                    publisher.publish(&t, "{\"retain\":true,\"ttl\":1}", &pl)?;
                    ctx.t(format!("publish retained {:?} #{} [{}]", t, seq, pl.len()));
                    for (k, x) in cl.iter().enumerate() {
                        if x.subs.iter().any(|p| matches(p, &t)) {
                            expected[k].push((t.clone(), pl.clone()));
                        }
                    }
                    left.push(t);
                }
                srv.adv(1100);
                srv.settle();
                srv.adv(1100);
                srv.settle();
                ctx.rep.count("expired_around_subscriptions", left.len() as u64);
            }
            for _ in 0..ctx.rng.range(6, 24) {
                let i = ctx.rng.below(cl.len() as u64) as usize;
                match ctx.rng.below(100) {
                    0..=27 => {
                        let mut p = rand_pattern(&mut ctx.rng, width);
                        if ctx.rng.chance(80) {
                            // the same pattern once more, written with something behind its '#'
                            if let Some(q) = cl[i].subs.iter().find(|q| q.split('/').last() == Some("#")) {
                                p = format!("{}/{}", q, LEVELS[ctx.rng.below(width) as usize]);
                            }
                        }
                        cl[i].c.subscribe(&p)?;
                        ctx.t(format!("client {} subscribe {:?}", cl[i].name, p));
                        cl[i].subs.insert(p);
                    }
                    28..=40 => {
                        // mostly a held pattern, sometimes one that is not held
                        let p = if ctx.rng.chance(800) && !cl[i].subs.is_empty() {
                            let v: Vec<&String> = cl[i].subs.iter().collect();
                            (*ctx.rng.pick(&v)).clone()
                        } else {
                            rand_pattern(&mut ctx.rng, width)
                        };
                        cl[i].c.unsubscribe(&p)?;
                        ctx.t(format!("client {} unsubscribe {:?}", cl[i].name, p));
                        cl[i].subs.remove(&p);
                    }
                    41..=43 if cl.len() > 2 => {
                        match ctx.rng.below(3) {
                            0 => cl[i].c.close(),
                            1 => cl[i].c.half_close(),
                            _ => cl[i].c.reset(),
                        }
                        ctx.t(format!("client {} ends", cl[i].name));
                        cl[i] = new_client(srv, next)?;
                        expected[i].clear();
                        next += 1;
                    }
                    _ => {
                        let t = rand_topic(&mut ctx.rng, width);
                        seq += 1;
                        let n = *ctx.rng.pick(&[0usize, 0, 5, 30, 2000]);
                        let mut pl = if n == 0 && ctx.rng.chance(300) { vec![] } else { seq.to_be_bytes().to_vec() };
                        pl.extend(ctx.rng.bytes(n));
                        if ctx.rng.chance(30) {
                            pl = ctx.rng.bytes(70_000);
                        }
                        let from = ctx.rng.below(cl.len() as u64 + 1) as usize;
                        let c = if from < cl.len() { &cl[from].c } else { &publisher };
                        c.publish(&t, "{}", &pl)?;
                        ctx.t(format!("publish {:?} #{} [{}]", t, seq, pl.len()));
                        for (k, x) in cl.iter().enumerate() {
                            if x.subs.iter().any(|p| matches(p, &t)) {
                                expected[k].push((t.clone(), pl.clone()));
                            }
                        }
                    }
                }
            }
            // fence
            let mut fences = Vec::new();
            for (k, x) in cl.iter().enumerate() {
                let f = x.fence.clone();
                let pl = format!("fence {}", round).into_bytes();
                publisher.publish(&f, "{}", &pl)?;
                for (j, y) in cl.iter().enumerate() {
                    if j == k || y.subs.iter().any(|p| matches(p, &f)) {
                        expected[j].push((f.clone(), pl.clone()));
                    }
                }
                fences.push((f, pl));
            }
            // last fence each client will see: collect until its expected list is complete
            for (k, x) in cl.iter().enumerate() {
                let want = &expected[k];
                let mut got: Vec<Push> = Vec::new();
                let (lt, lp) = want.last().unwrap();
                got.extend(x.c.until_fence(lt, lp).map_err(|e| match e {
                    Fail::Suspect(m) => Fail::Suspect(format!("client {}: {}", x.name, m)),
                    e => e,
                })?);
                for (n, (t, p)) in want.iter().enumerate() {
                    match got.get(n) {
                        Some(g) if g.topic == *t && g.payload == *p => {}
                        Some(g) => viol!(
                            "delivery",
                            "client {} holding {:?} received {:?} {} as item {} where {:?} {} was due",
                            x.name,
                            x.subs,
                            g.topic,
                            preview(&g.payload),
                            n,
                            t,
                            preview(p)
                        ),
                        None => viol!("delivery", "client {} holding {:?} missed {:?}", x.name, x.subs, t),
                    }
                    ctx.rep.distinct(hash64(format!("{}|{:?}", t, x.subs).as_bytes()));
                }
                ensure!(got.len() == want.len(), "delivery", "client {} received {} messages, {} were due", x.name, got.len(), want.len());
                ctx.rep.eval(want.len() as u64);
                ctx.rep.count("deliveries_checked", want.len() as u64);
                x.c.check()?;
            }
            // nobody may receive anything else (checked again at the next fence: leftovers would shift the lists)
        }
        ctx.rep.sample(json!({"scenario": "match", "clients": nclients, "trace": ctx.trace.lock().unwrap().iter().take(14).cloned().collect::<Vec<_>>()}));
        Ok(())
    })
}

#[derive(Clone)]
struct Hold {
    pat: String,
    sub_inv: u64,
    sub_ret: u64,
    un_inv: u64,
    un_ret: u64,
}
fn churn_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    ctx.server(Cfg::frozen(), |ctx, srv| {
        if ctx.rng.chance(850) {
            srv.ctl.preempt(ctx.rng.range(60, 600), ctx.rng.range(200, 5000));
        }
        let rounds = if ctx.thorough { 24 } else { 6 };
        for round in 0..rounds {
            let width = ctx.rng.range(1, 4);
            let npub = ctx.rng.range(1, 4) as usize;
            let nstable = ctx.rng.range(1, 3) as usize;
            let nchurn = ctx.rng.range(2, 4) as usize;
            let nflap = ctx.rng.range(0, 2) as usize;
            let t0 = Instant::now();
            let us = move || t0.elapsed().as_nanos() as u64;
            // stable subscribers
            let mut subs: Vec<(Conn, Mutex<Vec<Hold>>)> = Vec::new();
            for _ in 0..nstable + nchurn {
                subs.push((srv.conn()?, Mutex::new(Vec::new())));
            }
            for (c, h) in subs.iter().take(nstable) {
                for _ in 0..ctx.rng.range(1, 4) {
                    let p = rand_pattern(&mut ctx.rng, width);
                    if h.lock().unwrap().iter().any(|x| x.pat == p) {
                        continue;
                    }
                    let a = us();
                    c.subscribe(&p)?;
                    h.lock().unwrap().push(Hold { pat: p, sub_inv: a, sub_ret: us(), un_inv: u64::MAX, un_ret: u64::MAX });
                }
            }
            let pubs: Vec<Conn> = (0..npub).map(|_| srv.conn()).collect::<Result<_, _>>()?;
            let flaps: Vec<Conn> = (0..nflap).map(|_| srv.conn()).collect::<Result<_, _>>()?;
            let done = AtomicU64::new(0);
            let errs: Mutex<Vec<Fail>> = Mutex::new(vec![]);
            // (publisher, seq, topic, inv, ret)
            let log: Mutex<Vec<(usize, u64, String, u64, u64)>> = Mutex::new(vec![]);
            let npubs = ctx.rng.range(60, 160);
            let mut rngs: Vec<Rng> = (0..npub + nchurn + nflap).map(|_| ctx.rng.fork()).collect();
            let pipelined = ctx.rng.chance(200);
            std::thread::scope(|sc| {
                let (done, errs, log) = (&done, &errs, &log);
                let mut it = rngs.iter_mut();
                for (pi, c) in pubs.iter().enumerate() {
                    let rng = it.next().unwrap();
                    sc.spawn(move || {
                        let mut out = vec![];
                        let mut pend: Vec<(u64, String, u64, u32)> = vec![];
                        for s in 0..npubs {
                            let t = rand_topic(rng, width);
                            let mut pl = vec![0xABu8, pi as u8];
                            pl.extend(s.to_be_bytes());
                            let a = us();
                            let id = c.send(PUB, &W::new().s(&t).s("{}").raw(&pl).0);
                            pend.push((s, t, a, id));
                            if pipelined && pend.len() < 8 && s + 1 < npubs {
                                continue;
                            }
                            for (s, t, a, id) in pend.drain(..) {
                                match c.wait(id) {
                                    Ok(Resp::Ok) => out.push((pi, s, t, a, us())),
                                    Ok(r) => errs.lock().unwrap().push(Fail::v("reply", format!("publish answered {}", r.short()))),
                                    Err(e) => {
                                        errs.lock().unwrap().push(e);
                                        done.fetch_add(1, SeqCst);
                                        return;
                                    }
                                }
                            }
                        }
                        log.lock().unwrap().extend(out);
                        done.fetch_add(1, SeqCst);
                    });
                }
                for (c, h) in subs.iter().skip(nstable) {
                    let rng = it.next().unwrap();
                    sc.spawn(move || {
                        let mut held: Vec<Hold> = vec![];
                        let mut out = vec![];
                        while done.load(SeqCst) < npub as u64 {
                            if held.len() < 3 && rng.chance(600) || held.is_empty() {
                                let p = rand_pattern(rng, width);
                                if held.iter().any(|x| x.pat == p) {
                                    continue;
                                }
                                let a = us();
                                if let Err(e) = c.subscribe(&p) {
                                    errs.lock().unwrap().push(e);
                                    return;
                                }
                                held.push(Hold { pat: p, sub_inv: a, sub_ret: us(), un_inv: u64::MAX, un_ret: u64::MAX });
                            } else {
                                let k = rng.below(held.len() as u64) as usize;
                                let mut x = held.swap_remove(k);
                                x.un_inv = us();
                                if let Err(e) = c.unsubscribe(&x.pat) {
                                    errs.lock().unwrap().push(e);
                                    return;
                                }
                                x.un_ret = us();
                                out.push(x);
                            }
                        }
                        out.extend(held);
                        h.lock().unwrap().extend(out);
                    });
                }
                // clients that subscribe and vanish: tree pruning next to everybody else's nodes
                for c in flaps {
                    let rng = it.next().unwrap();
                    let srv = &*srv;
                    sc.spawn(move || {
                        let mut c = c;
                        while done.load(SeqCst) < npub as u64 {
                            for _ in 0..rng.range(1, 4) {
                                c.send(SUB, &W::new().s(&rand_pattern(rng, width)).0);
                            }
                            if rng.chance(500) {
                                let _ = c.subscribe(&rand_pattern(rng, width));
                            }
                            if rng.chance(500) {
                                c.close();
                            } else {
                                c.reset();
                            }
                            match srv.conn() {
                                Ok(n) => c = n,
                                Err(_) => return,
                            }
                        }
                    });
                }
            });
            if let Some(e) = errs.into_inner().unwrap().pop() {
                return Err(e);
            }
            let log = log.into_inner().unwrap();
            let fence = format!("~fence/{}/{}", ctx.job, round);
            for (si, (c, h)) in subs.iter().enumerate() {
                let h = h.lock().unwrap();
                c.subscribe(&fence)?;
                pubs[0].publish(&fence, "{}", b"end")?;
                let got = c.until_fence(&fence, b"end")?;
                let mut seen: HashMap<(usize, u64), usize> = HashMap::new();
                let mut last: HashMap<usize, i64> = HashMap::new();
                for g in &got {
                    if g.topic == fence {
                        continue;
                    }
                    if g.payload.len() != 10 || g.payload[0] != 0xAB {
                        if g.topic.starts_with("~fence") {
                            continue;
                        }
                        viol!("delivery", "a payload nobody published arrived on {:?}: {}", g.topic, preview(&g.payload));
                    }
                    let pi = g.payload[1] as usize;
                    let s = u64::from_be_bytes(g.payload[2..10].try_into().unwrap());
                    *seen.entry((pi, s)).or_insert(0) += 1;
                    if !pipelined {
                        let l = last.entry(pi).or_insert(-1);
                        if (s as i64) < *l {
                            viol!("order", "subscriber {} received message {} of publisher {} after message {}", si, s, pi, l);
                        }
                        *l = s as i64;
                    }
                }
                let topic_of: HashMap<(usize, u64), &String> = log.iter().map(|x| ((x.0, x.1), &x.2)).collect();
                for g in &got {
                    if g.payload.len() == 10 && g.payload[0] == 0xAB {
                        let k = (g.payload[1] as usize, u64::from_be_bytes(g.payload[2..10].try_into().unwrap()));
                        match topic_of.get(&k) {
                            Some(t) if **t == g.topic => {}
                            t => viol!("delivery", "message {:?} published to {:?} arrived under topic {:?}", k, t, g.topic),
                        }
                    }
                }
                for (pi, s, t, inv, ret) in &log {
                    let n = seen.get(&(*pi, *s)).cloned().unwrap_or(0);
                    let must = h.iter().any(|x| x.sub_ret < *inv && x.un_inv > *ret && matches(&x.pat, t));
                    let may = must || h.iter().any(|x| x.sub_inv < *ret && x.un_ret > *inv && matches(&x.pat, t));
                    ctx.rep.eval(1);
                    if must {
                        ctx.rep.count("must_deliver", 1);
                    } else if may {
                        ctx.rep.count("overlapping_either", 1);
                    } else {
                        ctx.rep.count("must_not_deliver", 1);
                    }
                    if n > 1 {
                        viol!("duplicate", "subscriber {} received message {} of publisher {} on {:?} {} times", si, s, pi, t, n);
                    }
                    if must && n == 0 {
                        let why: Vec<&String> = h.iter().filter(|x| x.sub_ret < *inv && x.un_inv > *ret && matches(&x.pat, t)).map(|x| &x.pat).collect();
                        viol!("lost", "subscriber {} (stable: {}) holding {:?} throughout never received message {} of publisher {} on {:?}", si, si < nstable, why, s, pi, t);
                    }
                    if !may && n > 0 {
                        viol!("stray", "subscriber {} received message {} of publisher {} on {:?} without a matching subscription during the publish", si, s, pi, t);
                    }
                    ctx.rep.distinct(hash64(format!("{}{}{}{}{:?}", t, must, may, n, h.iter().filter(|x| matches(&x.pat, t)).map(|x| &x.pat).collect::<Vec<_>>()).as_bytes()));
                }
                c.check()?;
            }
            for (c, _) in &subs {
                c.close();
            }
            for c in &pubs {
                c.check()?;
                c.close();
            }
            if round == 0 {
                ctx.rep.sample(json!({"scenario": "churn", "publishers": npub, "stable": nstable, "churning": nchurn, "vanishing": nflap, "publishes": log.len()}));
            }
        }
        Ok(())
    })
}

/// A subscriber that stops reading for a while gets everything in order afterwards; others are not delayed or starved.
fn slow_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    ctx.server(Cfg::frozen(), |ctx, srv| {
        let slow = srv.conn()?;
        let fast = srv.conn()?;
        let publ = srv.conn()?;
        slow.subscribe("s/#")?;
        fast.subscribe("s/+")?;
        for round in 0..(if ctx.thorough { 8 } else { 2 }) {
            slow.pause(true);
            let size = *ctx.rng.pick(&[100usize, 1500, 6000]);
            let n = ctx.rng.range(1500, 6000);
            let mut ids = Vec::new();
            for k in 0..n {
                let mut pl = k.to_be_bytes().to_vec();
                pl.resize(8 + size, 7);
                ids.push(publ.send(PUB, &W::new().s(&format!("s/{}", k % 5)).s("{}").raw(&pl).0));
                // sequential publisher
                let id = ids.pop().unwrap();
                ensure!(publ.wait(id)? == Resp::Ok, "reply", "publish failed");
            }
            publ.publish("s/end", "{}", &[round as u8; 3])?;
            let check = |name: &str, got: Vec<Push>| -> Result<(), Fail> {
                let v: Vec<u64> = got.iter().filter(|p| p.topic != "s/end").map(|p| u64::from_be_bytes(p.payload[..8].try_into().unwrap_or([0xff; 8]))).collect();
                for (i, x) in v.iter().enumerate() {
                    ensure!(*x == i as u64, "slow", "{} reader got message {} at position {} of {}", name, x, i, n);
                    let p = &got[i];
                    ensure!(p.payload.len() == 8 + size && p.payload[8..].iter().all(|b| *b == 7) && p.topic == format!("s/{}", x % 5), "slow", "{} reader got a damaged message {}", name, x);
                }
                ensure!(v.len() as u64 == n, "slow", "{} reader got {} of {} messages", name, v.len(), n);
                Ok(())
            };
            check("fast", fast.until_fence("s/end", &[round as u8; 3])?)?;
            slow.pause(false);
            check("slow", slow.until_fence("s/end", &[round as u8; 3])?)?;
            ctx.rep.eval(2 * n);
            ctx.rep.distinct(hash64(format!("slow{}{}", size, n).as_bytes()));
            ctx.rep.count("slow_backlog_messages", n);
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C03
const RT_TTLS: &[u64] = &[0, 1, 2, 3, 5, 9, 60, 3600, 100_000, 4_294_967_296, 9_223_372_036_854_775_807, 18_446_744_073_709_551_615];

fn retained_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let default_ttl = *ctx.rng.pick(&[2u64, 30, 3600]);
    let cfg = Cfg::frozen()
        .set("PUBSUB_DEFAULT_RETAINED_TTL_SECS", default_ttl)
        .set("PUBSUB_CLEANUP_INTERVAL_SECS", *ctx.rng.pick(&[1u64, 3, 60]))
        .set("PUBSUB_RETAINED_FLUSH_MS", *ctx.rng.pick(&[100u64, 500, 5000]));
    ctx.server(cfg, |ctx, srv| {
        let publ = srv.conn()?;
        let mut watcher = srv.conn()?;
        watcher.subscribe("#")?;
        let mut model: BTreeMap<String, (Vec<u8>, u128)> = BTreeMap::new();
        let width = ctx.rng.range(2, LEVELS.len() as u64);
        let steps = if ctx.thorough { 700 } else { 220 };
        let mut seq = 0u64;
        let mut watch: Vec<(String, Vec<u8>)> = vec![];
        let mut obs: Option<Conn> = None;
        for step in 0..steps {
            let now = srv.ctl.virtual_ms() as u128;
            match ctx.rng.below(100) {
                0..=44 => {
                    let mut t = rand_topic(&mut ctx.rng, width);
                    if !model.is_empty() && ctx.rng.chance(500) {
                        let k: Vec<&String> = model.keys().collect();
                        t = (*ctx.rng.pick(&k)).clone();
                    }
                    seq += 1;
                    let (pl, opts, eff): (Vec<u8>, String, Option<u128>) = match ctx.rng.below(12) {
                        0 | 1 => (seq.to_be_bytes().to_vec(), "{}".into(), None),
                        2 => (seq.to_be_bytes().to_vec(), "{\"retain\":false,\"ttl\":5}".into(), None),
                        3 => (vec![], "{\"retain\":true}".into(), Some(0)),
                        4 | 5 => (seq.to_be_bytes().to_vec(), "{\"retain\":true}".into(), Some(default_ttl as u128)),
                        6 => (vec![], "{\"retain\":true,\"ttl\":100}".into(), Some(0)),
                        7 => (vec![], "{\"retain\":false}".into(), None),
                        8 | 9 => {
                            let s = *ctx.rng.pick(RT_TTLS);
                            (seq.to_be_bytes().to_vec(), format!("{{\"retain\":true,\"ttl\":{}}}", s), Some(s as u128))
                        }
                        _ => {
                            let s = ctx.rng.range(1, 12);
                            let n = ctx.rng.below(50) as usize;
                            let mut p = seq.to_be_bytes().to_vec();
                            p.extend(ctx.rng.bytes(n));
                            (p, format!("{{\"retain\":true,\"ttl\":{}}}", s), Some(s as u128))
                        }
                    };
                    publ.publish(&t, &opts, &pl)?;
                    ctx.t(format!("t={} publish {:?} {} #{} [{}]", now, t, opts, seq, pl.len()));
                    watch.push((t.clone(), pl.clone()));
                    if let Some(secs) = eff {
                        if pl.is_empty() {
                            model.remove(&t);
                        } else {
                            model.insert(t, (pl, now + secs * 1000));
                        }
                    }
                }
                45..=59 => {
                    let near: Vec<u128> = model.values().map(|x| x.1).filter(|e| *e > now && *e - now < 100_000_000).collect();
                    let mut d = if !near.is_empty() && ctx.rng.chance(650) {
                        let left = *ctx.rng.pick(&near) - now;
                        if ctx.rng.chance(500) && left > 2 {
                            left - 1
                        } else {
                            left + 1
                        }
                    } else {
                        ctx.rng.range(1, 3000) as u128
                    } as u64;
                    while model.values().any(|x| x.1 == now + d as u128) {
                        d += 1;
                    }
                    srv.adv(d);
                    ctx.t(format!("advance {}", d));
                    if ctx.rng.chance(400) {
                        srv.settle();
                    }
                }
                _ => {
                    let pat = if ctx.rng.chance(150) {
                        "#".to_string()
                    } else if !model.is_empty() && ctx.rng.chance(300) {
                        let k: Vec<&String> = model.keys().collect();
                        (*ctx.rng.pick(&k)).clone()
                    } else {
                        rand_pattern(&mut ctx.rng, width)
                    };
                    let fresh = obs.is_none() || ctx.rng.chance(600);
                    if fresh {
                        if let Some(o) = obs.take() {
                            o.close();
                        }
                    }
                    let c = match obs.take() {
                        Some(c) => c,
                        None => {
                            let c = srv.conn()?;
                            c.subscribe("~f")?;
                            c
                        }
                    };
                    c.subscribe(&pat)?;
                    // fence through a plain publish (not retained)
                    let pl = format!("f{}", step).into_bytes();
                    publ.publish("~f", "{}", &pl)?;
                    watch.push(("~f".into(), pl.clone()));
                    let mut got: Vec<(String, Vec<u8>)> = c.until_fence("~f", &pl)?.into_iter().map(|p| (p.topic, p.payload)).collect();
                    got.pop();
                    let now = srv.ctl.virtual_ms() as u128;
                    let mut want: Vec<(String, Vec<u8>)> = model.iter().filter(|(t, (_, e))| *e > now && matches(&pat, t)).map(|(t, (p, _))| (t.clone(), p.clone())).collect();
                    got.sort();
                    want.sort();
                    ctx.rep.eval(1);
                    ctx.rep.count("values_expected", want.len() as u64);
                    ctx.rep.distinct(hash64(format!("{}|{:?}", pat, want).as_bytes()));
                    if got != want {
                        let s = |v: &Vec<(String, Vec<u8>)>| v.iter().map(|(t, p)| format!("{:?}={}", t, hex(&p[..p.len().min(8)]))).collect::<Vec<_>>().join(", ");
                        viol!("snapshot", "subscribing to {:?} at t={} sent [{}] where [{}] was due", pat, now, s(&got), s(&want));
                    }
                    // the observer keeps its fence only: unsubscribe so that later steps are clean
                    c.unsubscribe(&pat)?;
                    c.check()?;
                    obs = Some(c);
                }
            }
            if step % 40 == 39 || step + 1 == steps {
                let pl = format!("w{}", step).into_bytes();
                publ.publish("~w", "{}", &pl)?;
                watch.push(("~w".into(), pl.clone()));
                let got = watcher.until_fence("~w", &pl)?;
                // only plain live deliveries: the watcher subscribed before any retained value existed
                ensure!(
                    got.len() == watch.len() && got.iter().zip(&watch).all(|(g, w)| g.topic == w.0 && g.payload == w.1),
                    "live",
                    "an existing '#' subscriber received {} messages where {} publishes happened, or different ones",
                    got.len(),
                    watch.len()
                );
                ctx.rep.eval(watch.len() as u64);
                watch.clear();
                if ctx.rng.chance(100) {
                    watcher.close();
                    watcher = srv.conn()?;
                    watcher.subscribe("#")?;
                    publ.publish("~w", "{}", b"reset")?;
                    watcher.until_fence("~w", b"reset")?;
                }
            }
        }
        ctx.rep.sample(json!({"scenario": "model", "trace": ctx.trace.lock().unwrap().iter().take(12).cloned().collect::<Vec<_>>()}));
        Ok(())
    })
}

fn gapfree_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    ctx.server(Cfg::frozen().set("PUBSUB_RETAINED_FLUSH_MS", 100), |ctx, srv| {
        if ctx.rng.chance(850) {
            srv.ctl.preempt(ctx.rng.range(60, 500), ctx.rng.range(200, 5000));
        }
        for round in 0..(if ctx.thorough { 20 } else { 5 }) {
            let base = format!("g{}", round);
            let topics: Vec<String> = vec![format!("{}/x", base), format!("{}/y/z", base), format!("{}//", base)];
            let ntop = ctx.rng.range(1, 3) as usize;
            let nupd = ctx.rng.range(150, 400);
            let t0 = Instant::now();
            let us = move || t0.elapsed().as_nanos() as u64;
            let logs: Vec<Mutex<Vec<(u64, u64)>>> = (0..ntop).map(|_| Mutex::new(vec![])).collect();
            let stop = AtomicBool::new(false);
            let left = AtomicU64::new(ntop as u64);
            let errs: Mutex<Vec<Fail>> = Mutex::new(vec![]);
            // (pattern, sub inv, sub ret, pushes)
            let obs: Mutex<Vec<(String, u64, u64, Conn)>> = Mutex::new(vec![]);
            let mut rngs: Vec<Rng> = (0..8).map(|_| ctx.rng.fork()).collect();
            let nobs = ctx.rng.range(2, 4) as usize;
            std::thread::scope(|sc| {
                let (errs, logs, stop, left, obs, topics, base) = (&errs, &logs, &stop, &left, &obs, &topics, &base);
                let srv = &*srv;
                for k in 0..ntop {
                    sc.spawn(move || {
                        let r = (|| -> Result<(), Fail> {
                            let c = srv.conn()?;
                            for n in 1..=nupd {
                                let a = us();
                                c.publish(&topics[k], "{\"retain\":true,\"ttl\":1000}", &n.to_be_bytes())?;
                                logs[k].lock().unwrap().push((a, us()));
                            }
                            Ok(())
                        })();
                        if let Err(e) = r {
                            errs.lock().unwrap().push(e);
                        }
                        if left.fetch_sub(1, SeqCst) == 1 {
                            stop.store(true, SeqCst);
                        }
                    });
                }
                for i in 0..nobs {
                    let mut rng = rngs[i].fork();
                    sc.spawn(move || {
                        let r = (|| -> Result<(), Fail> {
                            let mut n = 0;
                            while !stop.load(SeqCst) && n < 40 {
                                n += 1;
                                let c = srv.conn()?;
                                let pat = match rng.below(5) {
                                    0 => "#".to_string(),
                                    1 => format!("{}/#", base),
                                    2 => format!("{}/+", base),
                                    3 => topics[rng.below(ntop as u64) as usize].clone(),
                                    _ => format!("+/+/{}", if rng.chance(500) { "z" } else { "" }),
                                };
                                let a = us();
                                c.subscribe(&pat)?;
                                obs.lock().unwrap().push((pat, a, us(), c));
                                std::thread::sleep(Duration::from_micros(rng.below(3000)));
                            }
                            Ok(())
                        })();
                        if let Err(e) = r {
                            errs.lock().unwrap().push(e);
                        }
                    });
                }
            });
            rngs.clear();
            if let Some(e) = errs.into_inner().unwrap().pop() {
                return Err(e);
            }
            let p = srv.conn()?;
            let f = format!("~f{}", round);
            for (pat, inv, ret, c) in obs.into_inner().unwrap() {
                c.subscribe(&f)?;
                p.publish(&f, "{}", b"e")?;
                let got = c.until_fence(&f, b"e")?;
                for k in 0..ntop {
                    let v: Vec<u64> = got.iter().filter(|g| g.topic == topics[k]).map(|g| u64::from_be_bytes(g.payload[..].try_into().unwrap_or([0; 8]))).collect();
                    if !matches(&pat, &topics[k]) {
                        ensure!(v.is_empty(), "stray", "subscription {:?} received values of {:?}", pat, topics[k]);
                        continue;
                    }
                    let log = logs[k].lock().unwrap();
                    let lo = log.iter().filter(|x| x.1 < inv).count() as u64;
                    let hi = log.iter().filter(|x| x.0 < ret).count() as u64;
                    let total = log.len() as u64;
                    ctx.rep.eval(1);
                    ctx.rep.distinct(hash64(format!("{} {} {:?}", pat, topics[k], v.first()).as_bytes()));
                    if hi > lo {
                        ctx.rep.count("subscriptions_overlapping_an_update", 1);
                    }
                    ensure!(!v.is_empty(), "gap", "subscription {:?} received no value of {:?} although it was updated to {}", pat, topics[k], total);
                    // the current value first: not older than completed updates, and nothing completed later skipped
                    ensure!(v[0] >= lo && v[0] <= hi.max(lo).max(1) , "gap", "subscription {:?} first saw value {} of {:?}; updates up to {} had completed before it and up to {} had started", pat, v[0], topics[k], lo, hi);
                    for w in 1..v.len() {
                        let ok = v[w] == v[w - 1] + 1 || (w == 1 && v[1] == v[0]);
                        ensure!(ok, "gap", "subscription {:?} saw value {} of {:?} right after {} (position {})", pat, v[w], topics[k], v[w - 1], w);
                    }
                    ensure!(*v.last().unwrap() == total, "gap", "subscription {:?} stopped at value {} of {:?} where {} was published", pat, v.last().unwrap(), topics[k], total);
                }
                c.check()?;
                c.close();
            }
            // no leftover for the next round
            for t in &topics {
                p.publish(t, "{\"retain\":true}", b"")?;
            }
            srv.adv(120);
        }
        ctx.rep.sample(json!({"scenario": "gapfree"}));
        Ok(())
    })
}

// ---------------------------------------------------------------- C04
#[derive(Clone)]
struct POp {
    topic: String,
    /// None: cleared
    val: Option<(Vec<u8>, u128)>,
    inv: u64,
    ret: u64,
}
/// The state a '#' subscription reports.
pub fn snapshot(srv: &Server, tag: &str) -> Result<BTreeMap<String, Vec<u8>>, Fail> {
    let c = srv.conn()?;
    c.subscribe("~end")?;
    c.subscribe("#")?;
    c.publish("~end", "{}", tag.as_bytes())?;
    let got = c.until_fence("~end", tag.as_bytes())?;
    let mut m = BTreeMap::new();
    for g in &got[..got.len() - 1] {
        if let Some(o) = m.insert(g.topic.clone(), g.payload.clone()) {
            viol!("snapshot", "topic {:?} has two retained values: {} and {}", g.topic, hex(&o), hex(&g.payload));
        }
    }
    c.close();
    Ok(m)
}
const SLACK: u128 = 1500;
/// Does `seen` equal the state after applying ops[..n] on `base`, at virtual time `now`, for the topics of this publisher?
fn agrees(base: &BTreeMap<String, (Vec<u8>, u128)>, ops: &[POp], n: usize, topics: &BTreeSet<String>, seen: &BTreeMap<String, Vec<u8>>, now: u128) -> Result<(), String> {
    let mut st: BTreeMap<&String, &(Vec<u8>, u128)> = base.iter().collect();
    for o in &ops[..n] {
        match &o.val {
            Some(v) => {
                st.insert(&o.topic, v);
            }
            None => {
                st.remove(&o.topic);
            }
        }
    }
    for t in topics {
        let s = seen.get(t);
        let ok = match st.get(t) {
            None => s.is_none(),
            Some((p, e)) => {
                if *e + SLACK <= now || (*e <= now) {
                    s.is_none()
                } else if *e >= now + SLACK {
                    s == Some(p)
                } else {
                    s.is_none() || s == Some(p)
                }
            }
        };
        if !ok {
            return Err(format!("topic {:?}: recovered {:?}, state there {:?} (now {})", t, s.map(|x| hex(&x[..x.len().min(10)])), st.get(t).map(|(p, e)| (hex(&p[..p.len().min(10)]), *e)), now));
        }
    }
    Ok(())
}
fn cr_topics(r: &mut Rng, k: usize) -> Vec<String> {
    // disjoint per publisher, with colliding-looking spellings
    let b = format!("p{}", k);
    let mut v = vec![format!("{}/a", b), format!("/{}/a", b), format!("{}/a/", b), format!("{}//a", b), format!("//{}/a", b), b.clone(), format!("/{}", b), format!("{}/é/ü", b), format!("{}/'; DROP TABLE retained; --", b)];
    if k == 0 {
        v.extend(["".to_string(), "/".to_string(), "//".to_string()]);
    }
    r.shuffle(&mut v);
    v.truncate(r.range(2, v.len() as u64) as usize);
    v
}

fn crash_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let flush = *ctx.rng.pick(&[200u64, 500, 2000]);
    let cfg = Cfg::frozen().set("PUBSUB_RETAINED_FLUSH_MS", flush).set("PUBSUB_CLEANUP_INTERVAL_SECS", *ctx.rng.pick(&[1u64, 60]));
    ctx.server(cfg, |ctx, srv| {
        let npub = ctx.rng.range(1, 2) as usize;
        let topics: Vec<Vec<String>> = (0..npub).map(|k| cr_topics(&mut ctx.rng, k)).collect();
        let mut base: Vec<BTreeMap<String, (Vec<u8>, u128)>> = vec![BTreeMap::new(); npub];
        let cycles = if ctx.thorough { 14 } else { 5 };
        let uniq = AtomicU64::new(1);
        let t0 = Instant::now();
        let us = move || t0.elapsed().as_nanos() as u64;
        for cycle in 0..cycles {
            // ops of this life
            let logs: Vec<Mutex<Vec<POp>>> = (0..npub).map(|_| Mutex::new(vec![])).collect();
            let mut floor = vec![0usize; npub];
            let phases = ctx.rng.range(1, 3);
            let mut crashed = String::new();
            for phase in 0..phases {
                let last = phase + 1 == phases;
                let nops = ctx.rng.range(1, 40) as usize;
                let live_kill = last && ctx.rng.chance(350);
                let arm = last && !live_kill && ctx.rng.chance(650);
                let go = AtomicBool::new(true);
                let mut rngs: Vec<Rng> = (0..npub).map(|_| ctx.rng.fork()).collect();
                let now = srv.ctl.virtual_ms() as u128;
                let killer_delay = ctx.rng.below(6000);
                let errs: Mutex<Vec<Fail>> = Mutex::new(vec![]);
                let conns: Vec<Conn> = (0..npub).map(|_| srv.conn()).collect::<Result<_, _>>()?;
                if live_kill {
                    srv.adv(flush); // a flush runs while publishing
                }
                std::thread::scope(|sc| {
                    for k in 0..npub {
                        let (logs, topics, uniq, go, errs) = (&logs, &topics, &uniq, &go, &errs);
                        let mut rng = rngs.remove(0);
                        let c = conns[k].clone();
                        sc.spawn(move || {
                            for _ in 0..nops {
                                if !go.load(SeqCst) {
                                    return;
                                }
                                let t = rng.pick(&topics[k]).clone();
                                let (opts, pl, val) = if rng.chance(200) {
                                    ("{\"retain\":true}".to_string(), vec![], None)
                                } else {
                                    let ttl = *rng.pick(&[2u64, 5, 30, 1000, 3600, 100_000, 18_446_744_073_709_551_615]);
                                    let mut pl = uniq.fetch_add(1, SeqCst).to_be_bytes().to_vec();
                                    let n = rng.below(300) as usize;
                                    pl.extend(rng.bytes(n));
                                    (format!("{{\"retain\":true,\"ttl\":{}}}", ttl), pl.clone(), Some((pl, now + ttl as u128 * 1000)))
                                };
                                let a = us();
                                let id = c.send(PUB, &W::new().s(&t).s(&opts).raw(&pl).0);
                                logs[k].lock().unwrap().push(POp { topic: t, val, inv: a, ret: u64::MAX });
                                match c.wait_for(id, c.patience) {
                                    Ok((Resp::Ok, _)) => logs[k].lock().unwrap().last_mut().unwrap().ret = us(),
                                    Ok((r, _)) => errs.lock().unwrap().push(Fail::v("reply", format!("publish answered {}", r.short()))),
                                    Err(_) => {
                                        if go.load(SeqCst) && !live_kill {
                                            errs.lock().unwrap().push(Fail::Suspect("publish unanswered".into()));
                                        }
                                        return;
                                    }
                                }
                            }
                        });
                    }
                    if live_kill {
                        std::thread::sleep(Duration::from_micros(killer_delay));
                        srv.kill();
                        go.store(false, SeqCst);
                    }
                });
                if let Some(e) = errs.into_inner().unwrap().pop() {
                    return Err(e);
                }
                if live_kill {
                    crashed = "kill while publishing".into();
                    break;
                }
                if arm {
                    let n = ctx.rng.range(0, 24) as i64;
                    let torn = if ctx.rng.chance(500) { ctx.rng.below(1000) } else { 0 };
                    srv.ctl.crash_after(n, torn);
                    srv.adv(flush + 5);
                    if srv.wait_dead(Duration::from_millis(600)) {
                        crashed = format!("file op {} kind {} torn {}", n, srv.ctl.crashed_kind_peek(), torn);
                        ctx.rep.count("crashes_inside_a_flush", 1);
                        break;
                    }
                    srv.ctl.crash_after(-1, 0);
                    crashed = "kill after flush".into();
                    // it may or may not have flushed everything by now: no claim
                    srv.kill();
                    break;
                }
                // let a flush complete
                if !last || ctx.rng.chance(700) {
                    flush_done(srv, flush)?;
                        for k in 0..npub {
                            floor[k] = logs[k].lock().unwrap().len();
                        }
                        ctx.rep.count("completed_flushes", 1);
                    if ctx.rng.chance(300) {
                        let d = ctx.rng.range(1, 4) * 1000 + 37;
                        srv.adv(d);
                        srv.settle();
                        if ctx.rng.chance(500) {
                            flush_done(srv, flush)?;
                        }
                    }
                }
            }
            srv.kill();
            if crashed.is_empty() {
                crashed = "kill when idle".into();
            }
            // time passes while it is down
            if ctx.rng.chance(500) {
                let d = *ctx.rng.pick(&[500u64, 2600, 6100, 40_000, 2_000_000]);
                srv.adv(d);
            }
            srv.restart()?;
            let now = srv.ctl.virtual_ms() as u128;
            let seen = snapshot(srv, &format!("c{}", cycle))?;
            ctx.rep.eval(1);
            ctx.rep.count("recoveries_checked", 1);
            ctx.rep.distinct(hash64(format!("{}{:?}", crashed, seen).as_bytes()));
            let known: BTreeSet<&String> = topics.iter().flatten().collect();
            for t in seen.keys() {
                ensure!(known.contains(t), "foreign", "after a restart a retained value appeared on {:?}, a topic nobody published to", t);
            }
            // possible prefixes per publisher
            let mut poss: Vec<Vec<usize>> = vec![];
            let all: Vec<Vec<POp>> = logs.iter().map(|l| l.lock().unwrap().clone()).collect();
            for k in 0..npub {
                let ts: BTreeSet<String> = topics[k].iter().cloned().collect();
                let mut v = vec![];
                let mut why = String::new();
                for n in (0..=all[k].len()).rev() {
                    match agrees(&base[k], &all[k], n, &ts, &seen, now) {
                        Ok(()) => v.push(n),
                        Err(e) => {
                            if why.is_empty() || n == floor[k] {
                                why = e;
                            }
                        }
                    }
                }
                if v.is_empty() {
                    viol!("prefix", "after {} the recovered retained values match no prefix of publisher {}'s {} updates: {}", crashed, k, all[k].len(), why);
                }
                if v[0] < floor[k] {
                    viol!("lost", "after {} only {} of publisher {}'s updates are reflected, but {} had been published a flush interval earlier: {}", crashed, v[0], k, floor[k], why);
                }
                v.retain(|n| *n >= floor[k]);
                poss.push(v);
            }
            // real-time closure across publishers
            if npub == 2 {
                let ok = poss[0].iter().any(|a| {
                    poss[1].iter().any(|b| {
                        let chk = |x: &Vec<POp>, n: usize, y: &Vec<POp>, m: usize| {
                            // every op of y missing from the cut must not precede (in real time) an included op of x
                            match y.get(m) {
                                None => true,
                                Some(o) => !x[..n].iter().any(|i| o.ret < i.inv),
                            }
                        };
                        chk(&all[0], *a, &all[1], *b) && chk(&all[1], *b, &all[0], *a)
                    })
                });
                ensure!(ok, "cut", "after {} the recovered values mix different instants of two publishers: possible prefixes {:?}", crashed, poss);
                ctx.rep.count("two_publisher_cuts", 1);
            }
            // continue from what was recovered: unique payloads identify the operation
            for k in 0..npub {
                let mut nb = BTreeMap::new();
                for t in &topics[k] {
                    if let Some(p) = seen.get(t) {
                        let e = all[k].iter().filter_map(|o| o.val.as_ref().filter(|v| v.0 == *p)).map(|v| v.1).next().or(base[k].get(t).map(|x| x.1));
                        nb.insert(t.clone(), (p.clone(), e.unwrap_or(u128::MAX)));
                    }
                }
                base[k] = nb;
            }
            if cycle == 0 {
                ctx.rep.sample(json!({"scenario": "crash", "crash": crashed, "updates": all.iter().map(|a| a.len()).collect::<Vec<_>>(), "floor": floor, "possible_prefixes": poss, "topics": topics}));
            }
            ctx.t(format!("cycle {} crash {} now {}", cycle, crashed, now));
        }
        Ok(())
    })
}
/// Let complete flush intervals pass in quiescence.
fn flush_done(srv: &Server, flush: u64) -> Result<(), Fail> {
    srv.flushed(flush)
}

/// TTLs across downtime and several restarts: exact survivors, remaining TTL kept.
fn downtime_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg::frozen().set("PUBSUB_RETAINED_FLUSH_MS", 500).set("PUBSUB_CLEANUP_INTERVAL_SECS", *ctx.rng.pick(&[1u64, 7, 60])).set("PUBSUB_DEFAULT_RETAINED_TTL_SECS", 40);
    ctx.server(cfg, |ctx, srv| {
        let mut model: BTreeMap<String, (Vec<u8>, u128)> = BTreeMap::new();
        let mut seq = 0u64;
        for round in 0..(if ctx.thorough { 20 } else { 6 }) {
            let c = srv.conn()?;
            let now = srv.ctl.virtual_ms() as u128;
            for _ in 0..ctx.rng.range(1, 25) {
                seq += 1;
                let t = rand_topic(&mut ctx.rng, 6);
                if ctx.rng.chance(150) {
                    c.publish(&t, "{\"retain\":true}", b"")?;
                    model.remove(&t);
                    continue;
                }
                let ttl = *ctx.rng.pick(&[3u64, 6, 10, 20, 40, 80, 1000]);
                let opts = if ttl == 40 { "{\"retain\":true}".to_string() } else { format!("{{\"retain\":true,\"ttl\":{}}}", ttl) };
                c.publish(&t, &opts, &seq.to_be_bytes())?;
                model.insert(t, (seq.to_be_bytes().to_vec(), now + ttl as u128 * 1000));
            }
            flush_done(srv, 500)?;
            srv.kill();
            for restart in 0..ctx.rng.range(1, 3) {
                srv.adv(*ctx.rng.pick(&[100u64, 2000, 4000, 9000, 30_000]));
                srv.restart()?;
                for look in 0..ctx.rng.range(1, 3) {
                    let now = srv.ctl.virtual_ms() as u128;
                    let seen = snapshot(srv, &format!("r{}-{}-{}", round, restart, look))?;
                    ctx.rep.eval(1);
                    ctx.rep.distinct(hash64(format!("{}{:?}", now, seen).as_bytes()));
                    let ts: BTreeSet<String> = model.keys().chain(seen.keys()).cloned().collect();
                    if let Err(e) = agrees(&model, &[], 0, &ts, &seen, now) {
                        viol!("ttl", "after restart {} of round {}: {}", restart, round, e);
                    }
                    if ctx.rng.chance(500) {
                        srv.adv(*ctx.rng.pick(&[1000u64, 3000, 8000]));
                        srv.settle();
                    }
                }
                if ctx.rng.chance(400) {
                    // let it flush / clean up again before the next kill
                    srv.adv(1100);
                    srv.settle();
                }
                srv.kill();
            }
            srv.restart()?;
        }
        ctx.rep.sample(json!({"scenario": "downtime", "values": model.len()}));
        Ok(())
    })
}
