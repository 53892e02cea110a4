//! C05: what a connection leaves behind when it ends.
use crate::client::*;
use crate::proto::*;
use crate::report::Fail;
use crate::rng::hash64;
use crate::run::{Ctx, Spec};
use crate::server::{Cfg, Server};
use crate::{ensure, viol};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub fn spec() -> Spec {
    Spec {
        scenarios: vec![("endings", 3, endings), ("churn", 1, churn)],
        par: 4,
        quick_s: 45,
        thorough_s: 400,
        level: "exploration",
        rule: "The clock is frozen, so no timeout can clean up. (endings) Groups of connections with subscriptions, group memberships, held messages, waiting consumes and fetches (also in the middle of a slow cold read) and unanswered pipelined bursts end by close, reset, half-close, truncated frame, oversized frame or with a full receive buffer, while publishers run. On the idle server afterwards the pub/sub listing must equal the one before, the memberships must be gone as seen by another connection, everything the dead held must be fetchable by a remaining member at once, a message pushed to the queues they waited on must go to the living, and bystanders must have received exactly what was published, keep their membership and their waits. (churn) Many connections pipeline subscribes, unsubscribes and joins while publishers hit the same topics and end at random; the listing must return to the one before. One evaluation = one ended connection judged; distinct by way of ending, holdings and burst.",
        assumptions: vec!["the ending is noticed by the server through the socket (a silent peer is not an ended connection)"],
    }
}

/// Subscriber counts and wildcard subscriptions as the dashboard lists them (order-free).
fn listing(srv: &Server) -> Result<(u64, BTreeMap<String, u64>, BTreeSet<String>), Fail> {
    let v = srv.get("/api/pubsub?limit=500")?;
    let mut t = BTreeMap::new();
    for x in v["topics"].as_array().unwrap_or(&vec![]) {
        let n = x["subscribers"].as_u64().unwrap_or(0);
        if n > 0 {
            t.insert(x["full_path"].as_str().unwrap_or("").to_string(), n);
        }
    }
    let mut w = BTreeSet::new();
    for k in ["multi_level", "single_level"] {
        for x in v["wildcards"][k].as_array().unwrap_or(&vec![]) {
            w.insert(format!("{} {}", x["pattern"], x["client_id"]));
        }
    }
    Ok((v["active_clients"].as_u64().unwrap_or(0), t, w))
}
fn rest(srv: &Server) -> Result<(), Fail> {
    if srv.quiet() {
        Ok(())
    } else {
        Err(Fail::Inconclusive("the server does not come to rest".into()))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Close,
    Reset,
    Half,
    Truncated,
    Oversized,
    Full,
}

fn endings(ctx: &mut Ctx) -> Result<(), Fail> {
    let cold = ctx.rng.chance(400);
    let cfg = Cfg::frozen()
        .set("STREAM_ACK_WAIT_MS", 1_000_000_000_000u64)
        .set("STREAM_MAX_DELIVERIES", 1_000_000)
        .set("STREAM_MAX_ACK_PENDING", 1_000_000)
        .set("STREAM_RAM_SOFT_LIMIT", if cold { 2 } else { 100_000 })
        .set("STREAM_EVICTION_INTERVAL_MS", 20);
    let rounds = if ctx.thorough { 40 } else { 14 };
    ctx.server(cfg, |ctx, srv| {
        let by = srv.conn()?;
        let watch = srv.conn()?;
        let publ = srv.conn()?;
        let (ns, nq) = (3usize, 3usize);
        let gns = ["ga", "gb"];
        for i in 0..ns {
            ensure!(by.s_create(&format!("s{}", i), "{}")? == Resp::Ok, "reply", "create failed");
        }
        for i in 0..nq {
            ensure!(by.q_create(&format!("q{}", i), "{\"visibilityTimeoutMs\":1000000000,\"maxRetries\":1000000}")? == Resp::Ok, "reply", "create failed");
        }
        ensure!(watch.q_create("wq", "{\"visibilityTimeoutMs\":1000000000}")? == Resp::Ok, "reply", "create failed");
        ensure!(watch.s_create("ws", "{}")? == Resp::Ok, "reply", "create failed");
        let mut bj = BTreeMap::new();
        for i in 0..ns {
            for (g, gn) in gns.iter().enumerate() {
                bj.insert((i, g), by.s_join(&format!("s{}", i), gn)?);
            }
        }
        for p in ["t/x", "t/+", "by/#", "fence/by"] {
            by.subscribe(p)?;
        }
        watch.subscribe("t/#")?;
        watch.subscribe("fence/watch")?;
        let wj = watch.s_join("ws", "g")?;
        let wq = watch.send(Q_CONSUME, &enc_consume("wq", Some(1), Some(1_000_000_000)));
        let wf = watch.send(S_FETCH, &enc_fetch("ws", "g", &wj, 1, 1_000_000_000));
        let mut published: BTreeMap<usize, u64> = BTreeMap::new(); // stream -> last position
        let mut done: BTreeMap<(usize, usize), BTreeSet<u64>> = BTreeMap::new(); // acknowledged
        let mut n = 0u64;
        let mut px = 0u64;
        for round in 0..rounds {
            rest(srv)?;
            let base = listing(srv)?;
            ensure!(base.0 == 3, "clients", "{} clients are listed while 3 are connected", base.0);
            if ctx.rng.chance(500) {
                srv.ctl.preempt(ctx.rng.range(50, 400), ctx.rng.range(100, 900));
            }
            // something to hold
            for i in 0..ns {
                for _ in 0..ctx.rng.range(1, 12) {
                    n += 1;
                    let s = publ.s_pub(&format!("s{}", i), &n.to_be_bytes())?;
                    published.insert(i, s);
                }
            }
            if cold {
                for _ in 0..3 {
                    srv.adv(60);
                    srv.settle();
                }
                if ctx.rng.chance(700) {
                    srv.ctl.io_delay(700, 30_000);
                }
            }
            // the victims and what they hold
            let k = ctx.rng.range(1, 4) as usize;
            let mut vs: Vec<(Conn, End, Vec<(usize, usize, Joined)>, usize, usize)> = vec![];
            for i in 0..k {
                let c = srv.conn()?;
                let end = *ctx.rng.pick(&[End::Close, End::Close, End::Reset, End::Half, End::Truncated, End::Oversized, End::Full]);
                if end == End::Full && ctx.rng.chance(600) {
                    vs.push((c, End::Reset, vec![], 0, 0));
                    continue;
                }
                let mut subs = 0;
                for _ in 0..ctx.rng.below(6) {
                    let p = match ctx.rng.below(9) {
                        0 => "t/x".to_string(),
                        1 => "t/+".to_string(),
                        2 => "#".to_string(),
                        3 => "+/x".to_string(),
                        4 => "t/x/#".to_string(),
                        5 => format!("v/{}/+/z", i),
                        6 => "/".to_string(),
                        7 => "".to_string(),
                        _ => format!("v/{}/{}", i, round),
                    };
                    c.subscribe(&p)?;
                    subs += 1;
                    if ctx.rng.chance(200) {
                        c.unsubscribe(&p)?;
                    }
                }
                let mut js = vec![];
                let mut held = 0;
                for _ in 0..ctx.rng.below(4) {
                    let (s, g) = match js.last() {
                        Some((s, g, _)) if ctx.rng.chance(350) => (*s, *g),
                        _ => (ctx.rng.below(ns as u64) as usize, ctx.rng.below(2) as usize),
                    };
                    let j = c.s_join(&format!("s{}", s), gns[g])?;
                    if ctx.rng.chance(650) {
                        // an empty answer is fine: somebody else holds everything
                        match c.s_fetch(&format!("s{}", s), gns[g], &j, ctx.rng.range(1, 5) as u32, 0)? {
                            Ok(v) => {
                                held += v.len();
                                // some are acknowledged
                                for m in &v {
                                    if ctx.rng.chance(200) {
                                        if let Err(e) = c.s_ack(&format!("s{}", s), gns[g], &j, m.seq)? {
                                            viol!("ack", "the holder's acknowledgement failed: {}", e);
                                        }
                                        done.entry((s, g)).or_default().insert(m.seq);
                                        held -= 1;
                                    }
                                }
                            }
                            Err(e) => viol!("fetch", "fetch failed: {}", e),
                        }
                    }
                    js.push((s, g, j));
                }
                if js.len() > 1 && ctx.rng.chance(400) {
                    let i = ctx.rng.below(js.len() as u64) as usize;
                    let (s, g, j): (usize, usize, Joined) = js.swap_remove(i);
                    if let Err(e) = c.s_leave(&format!("s{}", s), gns[g], &j)? {
                        viol!("leave", "leaving failed: {}", e);
                    }
                }
                vs.push((c, end, js, subs, held));
            }
            // waiting requests
            for (c, _, js, _, _) in &vs {
                for i in 0..nq {
                    for _ in 0..ctx.rng.below(3) {
                        c.send(Q_CONSUME, &enc_consume(&format!("q{}", i), Some(ctx.rng.range(1, 3)), Some(1_000_000_000)));
                    }
                }
                for (s, g, j) in js {
                    if ctx.rng.chance(600) {
                        c.send(S_FETCH, &enc_fetch(&format!("s{}", s), gns[*g], j, ctx.rng.range(1, 4) as u32, 1_000_000_000));
                    }
                }
            }
            if ctx.rng.chance(600) {
                std::thread::sleep(Duration::from_micros(ctx.rng.below(30_000)));
            }
            // a publisher runs meanwhile
            let stop = AtomicBool::new(false);
            let burst: Vec<u64> = vs.iter().map(|_| if ctx.rng.chance(500) { ctx.rng.range(1, 60) } else { 0 }).collect();
            let cut = ctx.rng.below(4000);
            let mut rngs: Vec<_> = vs.iter().map(|_| ctx.rng.fork()).collect();
            let px0 = px;
            let r: Result<u64, Fail> = std::thread::scope(|sc| {
                let h = sc.spawn(|| -> Result<u64, Fail> {
                    let mut x = px0;
                    while !stop.load(SeqCst) {
                        x += 1;
                        publ.publish("t/x", "{}", &x.to_be_bytes())?;
                        std::thread::sleep(Duration::from_micros(300));
                    }
                    Ok(x)
                });
                let mut hs = vec![];
                for (vi, ((c, end, js, _, _), r)) in vs.iter().zip(rngs.iter_mut()).enumerate() {
                    let b = burst[vi];
                    hs.push(sc.spawn(move || {
                        for _ in 0..b {
                            match r.below(7) {
                                0 | 1 => {
                                    c.send(SUB, &W::new().s(*r.pick(&["t/x", "t/+", "#", "t/#", "u/v/w"])).0);
                                }
                                2 => {
                                    c.send(UNSUB, &W::new().s(*r.pick(&["t/x", "t/+", "#", "t/#", "u/v/w"])).0);
                                }
                                3 => {
                                    c.send(PUB, &W::new().s("v/burst").s("{}").raw(b"x").0);
                                }
                                4 => {
                                    c.send(S_JOIN, &W::new().s(gns[r.below(2) as usize]).s(&format!("s{}", r.below(ns as u64))).0);
                                }
                                5 => {
                                    if let Some((s, g, j)) = js.first() {
                                        c.send(S_FETCH, &enc_fetch(&format!("s{}", s), gns[*g], j, 1, 0));
                                    }
                                }
                                _ => {
                                    c.send(ECHO, &[0; 100]);
                                }
                            }
                        }
                        std::thread::sleep(Duration::from_micros(if vi == 0 { cut } else { r.below(3000) }));
                        match end {
                            End::Close => c.close(),
                            End::Reset => c.reset(),
                            End::Half => c.half_close(),
                            End::Truncated => {
                                let f = frame(1, SUB, 999, &W::new().s("never/subscribed").0);
                                let cutat = r.range(1, f.len() as u64 - 1) as usize;
                                let _ = c.write_raw(&f[..cutat]);
                                if r.chance(500) {
                                    c.half_close();
                                } else {
                                    c.close();
                                }
                            }
                            End::Oversized => {
                                let mut f = vec![1, PUB, 0, 0, 3, 231];
                                f.extend_from_slice(&r.pick(&[u32::MAX, 0x8000_0000, 64 << 20]).to_be_bytes());
                                let _ = c.write_raw(&f);
                            }
                            End::Full => {
                                // stop reading, let the server's writer fill up, then go
                                c.pause(true);
                                c.write_timeout(Duration::from_millis(60));
                                let _ = c.send(SUB, &W::new().s("full/#").0);
                                for i in 0..30u8 {
                                    let mut p = W::new().s("full/x").s("{}").0;
                                    p.extend_from_slice(&vec![i; 400_000]);
                                    c.send(PUB, &p);
                                }
                                std::thread::sleep(Duration::from_millis(r.range(5, 60)));
                                if r.chance(500) {
                                    c.reset()
                                } else {
                                    c.close()
                                }
                                c.pause(false);
                            }
                        }
                    }));
                }
                for h in hs {
                    let _ = h.join();
                }
                std::thread::sleep(Duration::from_millis(3));
                stop.store(true, SeqCst);
                h.join().unwrap()
            });
            px = r?;
            srv.ctl.calm();
            rest(srv)?;
            // 1. the pub/sub registry is as before
            let t0 = Instant::now();
            loop {
                let now = listing(srv)?;
                if now == base {
                    break;
                }
                if t0.elapsed() > Duration::from_secs(3) * ctx.stretch.max(1) {
                    rest(srv)?;
                    let now = listing(srv)?;
                    if now == base {
                        break;
                    }
                    viol!("registry", "after {} connection(s) ended ({:?}) the pub/sub registry differs: {} clients listed instead of {}, topics {:?} instead of {:?}, wildcards {:?} instead of {:?}", k, vs.iter().map(|v| v.1).collect::<Vec<_>>(), now.0, base.0, now.1, base.1, now.2, base.2);
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            // 2. the memberships are gone
            for (_, end, js, _, _) in &vs {
                for (s, g, j) in js {
                    let st = format!("s{}", s);
                    if by.s_fetch(&st, gns[*g], j, 1, 0)?.is_ok() {
                        viol!("member", "a member whose connection ended ({:?}) may still fetch", end);
                    }
                    if by.s_ack(&st, gns[*g], j, 1)?.is_ok() {
                        viol!("member", "a member whose connection ended ({:?}) may still acknowledge", end);
                    }
                }
            }
            // 3. what they held is available at once
            for ((s, g), j) in &bj {
                let st = format!("s{}", s);
                let d = done.entry((*s, *g)).or_default();
                let mut empty = 0;
                let want = published[s] - d.len() as u64;
                let mut got = 0u64;
                while got < want {
                    let v = match by.s_fetch(&st, gns[*g], j, 1000, 0)? {
                        Ok(v) => v,
                        Err(e) => viol!("bystander", "a remaining member's fetch failed: {}", e),
                    };
                    if v.is_empty() {
                        empty += 1;
                        if empty > 3 {
                            let missing: Vec<u64> = (1..=published[s]).filter(|x| !d.contains(x)).collect();
                            viol!("held", "positions {:?} of {}/{} are not delivered to the remaining member after their holders' connections ended ({:?})", missing, st, gns[*g], vs.iter().map(|v| v.1).collect::<Vec<_>>());
                        }
                        std::thread::sleep(Duration::from_millis(5));
                    }
                    for m in &v {
                        ensure!(d.insert(m.seq), "again", "position {} was delivered again after its acknowledgement", m.seq);
                        if let Err(e) = by.s_ack(&st, gns[*g], j, m.seq)? {
                            viol!("bystander", "a remaining member's acknowledgement failed: {}", e);
                        }
                        got += 1;
                    }
                }
            }
            let v = srv.get("/api/stream")?;
            for t in v["topics"].as_array().unwrap_or(&vec![]) {
                let Some(i) = t["name"].as_str().and_then(|x| x.strip_prefix('s')).and_then(|x| x.parse::<usize>().ok()) else { continue };
                for g in t["groups"].as_array().unwrap_or(&vec![]) {
                    ensure!(g["pending_count"] == Value::from(0u64) && g["ack_floor"].as_u64() == published.get(&i).copied(), "pending", "with everything acknowledged group {} of s{} is listed with {} pending and floor {}", g["id"], i, g["pending_count"], g["ack_floor"]);
                }
            }
            // 4. dead waiters swallow nothing
            for i in 0..nq {
                let q = format!("q{}", i);
                for _ in 0..3 {
                    n += 1;
                    by.must_ok(Q_PUSH, &enc_push(&q, None, &n.to_be_bytes()))?;
                }
                let v = by.q_consume(&q, Some(10), Some(0))?;
                ensure!(v.len() == 3, "swallowed", "{} of 3 messages pushed to {} after its waiting consumers' connections ended can be consumed", v.len(), q);
                for m in &v {
                    ensure!(by.q_ack(&q, &m.id)?, "ack", "ack of a held message failed");
                }
            }
            // 5. bystanders
            for (c, name) in [(&by, "fence/by"), (&watch, "fence/watch")] {
                let f = format!("{}", round);
                publ.publish(name, "{}", f.as_bytes())?;
                let v = c.until_fence(name, f.as_bytes())?;
                let x: Vec<u64> = v.iter().filter(|p| p.topic == "t/x").map(|p| u64::from_be_bytes(p.payload[..].try_into().unwrap_or([0; 8]))).collect();
                ensure!(x.len() as u64 == px - px0 && x.iter().enumerate().all(|(i, y)| *y == px0 + 1 + i as u64), "pushes", "a bystander received {} of {} messages published while other connections ended, or not in order", x.len(), px - px0);
                ensure!(v.iter().all(|p| p.topic == "t/x" || p.topic == name), "pushes", "a bystander received a message it never subscribed to");
                c.check()?;
            }
            ensure!(!watch.ready(wq) && !watch.ready(wf), "waits", "a bystander's waiting request was answered although nothing became available");
            for (c, end, js, subs, held) in vs {
                ctx.rep.eval(1);
                ctx.rep.count(&format!("end_{:?}", end).to_lowercase(), 1);
                ctx.rep.distinct(hash64(format!("{:?} {} {} {} {}", end, js.len(), subs, held, cold).as_bytes()));
                ctx.rep.count("held_messages_released", held as u64);
                c.close();
            }
        }
        n += 1;
        publ.must_ok(Q_PUSH, &enc_push("wq", None, b"w"))?;
        publ.s_pub("ws", b"w")?;
        ensure!(as_batch(watch.wait(wq)?)?.len() == 1, "waits", "a bystander's waiting consume was not served");
        match as_fetch(watch.wait(wf)?)? {
            Ok(v) if v.len() == 1 => {}
            x => viol!("waits", "a bystander's waiting fetch was not served: {:?}", x.map(|v| v.len())),
        }
        ctx.rep.sample(json!({"scenario": "endings", "cold": cold, "rounds": rounds, "published": n, "pushes": px}));
        Ok(())
    })
}

/// Connections that subscribe, unsubscribe and join concurrently with publishers until they end.
fn churn(ctx: &mut Ctx) -> Result<(), Fail> {
    let rounds = if ctx.thorough { 60 } else { 20 };
    ctx.server(Cfg::frozen().set("STREAM_ACK_WAIT_MS", 1_000_000_000_000u64), |ctx, srv| {
        let a = srv.conn()?;
        ensure!(a.s_create("s", "{}")? == Resp::Ok, "reply", "create failed");
        let aj = a.s_join("s", "g")?;
        let mut floor = 0;
        for _ in 0..rounds {
            rest(srv)?;
            let base = listing(srv)?;
            if ctx.rng.chance(800) {
                srv.ctl.preempt(ctx.rng.range(15, 200), ctx.rng.range(50, 600));
            }
            let k = ctx.rng.range(2, 8);
            let np = ctx.rng.range(1, 3);
            let stop = AtomicBool::new(false);
            let rngs: Vec<_> = (0..k).map(|_| ctx.rng.fork()).collect();
            let last = a.s_pub("s", b"m")?;
            let rep = ctx.rep;
            let r: Result<(), Fail> = std::thread::scope(|sc| {
                let mut hs = vec![];
                for mut r in rngs {
                    let srv = &*srv;
                    hs.push(sc.spawn(move || -> Result<(), Fail> {
                        for _ in 0..4 {
                            let c = srv.conn()?;
                            let m = r.range(1, 80);
                            let mut calls = 0;
                            for _ in 0..m {
                                let p = *r.pick(&["c/1", "c/1", "c/+", "c/#", "#", "c/2/3"]);
                                match r.below(8) {
                                    0..=3 => c.send(SUB, &W::new().s(p).0),
                                    4..=5 => c.send(UNSUB, &W::new().s(p).0),
                                    6 => c.send(S_JOIN, &W::new().s("g").s("s").0),
                                    _ => {
                                        calls += 1;
                                        c.send(PUB, &W::new().s("c/1").s("{}").raw(b"x").0)
                                    }
                                };
                            }
                            std::thread::sleep(Duration::from_micros(r.below(1500)));
                            let end = r.below(3);
                            match end {
                                0 => c.close(),
                                1 => c.reset(),
                                _ => c.half_close(),
                            }
                            rep.eval(1);
                            rep.distinct(hash64(format!("churn {} {} {}", m, calls, end).as_bytes()));
                        }
                        Ok(())
                    }));
                }
                let mut ps = vec![];
                for _ in 0..np {
                    ps.push(sc.spawn(|| -> Result<(), Fail> {
                        let c = srv.conn()?;
                        while !stop.load(SeqCst) {
                            c.publish("c/1", "{}", &[7; 64])?;
                            c.publish("c/2/3", "{}", &[7; 64])?;
                        }
                        c.close();
                        Ok(())
                    }));
                }
                let r: Result<Vec<()>, Fail> = hs.into_iter().map(|h| h.join().unwrap()).collect();
                stop.store(true, SeqCst);
                for p in ps {
                    p.join().unwrap()?;
                }
                r.map(|_| ())
            });
            r?;
            srv.ctl.calm();
            rest(srv)?;
            let mut now = listing(srv)?;
            let t0 = Instant::now();
            while now != base && t0.elapsed() < Duration::from_secs(3) * ctx.stretch.max(1) {
                std::thread::sleep(Duration::from_millis(30));
                now = listing(srv)?;
            }
            if now != base {
                rest(srv)?;
                now = listing(srv)?;
                ensure!(now == base, "registry", "after {} connections ended while publishers ran the pub/sub registry differs: {} clients instead of {}, topics {:?} instead of {:?}, wildcards {:?} instead of {:?}", k * 4, now.0, base.0, now.1, base.1, now.2, base.2);
            }
            match a.s_fetch("s", "g", &aj, 100, 0)? {
                Ok(v) => {
                    ensure!(v.iter().map(|m| m.seq).collect::<Vec<_>>() == (floor + 1..=last).collect::<Vec<_>>(), "held", "the remaining member was delivered {:?} instead of {}..={}", v.iter().map(|m| m.seq).collect::<Vec<_>>(), floor + 1, last);
                    for m in v {
                        ensure!(a.s_ack("s", "g", &aj, m.seq)?.is_ok(), "bystander", "a remaining member's acknowledgement failed");
                    }
                    floor = last;
                }
                Err(e) => viol!("bystander", "a remaining member's fetch failed: {}", e),
            }
            a.drain_pushes();
        }
        Ok(())
    })
}
