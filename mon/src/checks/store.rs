//! C01: store keys are linearizable TTL registers.
use crate::lin::{self, K};
use crate::proto::*;
use crate::report::Fail;
use crate::rng::{hash64, Rng};
use crate::run::{Ctx, Spec};
use crate::server::Cfg;
use crate::{ensure, viol};
use serde_json::json;
use std::collections::HashMap;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn spec() -> Spec {
    Spec {
        scenarios: vec![("lin", 3, lin_scn), ("ttl", 2, ttl_scn), ("cleanup", 2, cleanup_scn), ("lin_ttl", 1, lin_ttl_scn)],
        par: 4,
        quick_s: 35,
        thorough_s: 500,
        level: "exploration",
        rule: "Random SET/GET/DEL workloads against the real server: (lin) 2-6 pipelining clients on 1-3 fresh keys with injected preemption, each per-key history of unique values decided by a linearizability search; (lin_ttl) the same while expired values and the cleanup task are around; (ttl) sequential programs in virtual time with boundary TTLs judged against a TTL-register model; (cleanup) overwrites racing the periodic cleanup and reads that find the expired value. One evaluation = one per-key history or one judged reply; non-trivial = a history with concurrent operations, or a model step after a time jump; distinct by hash of the operations and observed results.",
        assumptions: vec!["timing of TTLs is judged on the server's virtual clock; the exact boundary instant is not judged"],
    }
}

pub fn sv(v: u64, len: usize) -> Vec<u8> {
    let mut b = v.to_be_bytes().to_vec();
    let mut r = Rng::new(v);
    b.extend(r.bytes(len));
    b
}
fn set_req(key: &str, opts: &str, v: &[u8]) -> Vec<u8> {
    W::new().s(key).s(opts).raw(v).0
}
fn key_req(key: &str) -> Vec<u8> {
    W::new().s(key).0
}

fn lin_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    lin_body(ctx, false)
}
fn lin_ttl_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    lin_body(ctx, true)
}

/// Concurrent histories. With `expired`, every key first gets a value that expires (TTL 1 s, clock advanced by more) and the
/// cleanup task sweeps during the history: expired values must behave exactly like absence.
fn lin_body(ctx: &mut Ctx, expired: bool) -> Result<(), Fail> {
    // with the long interval nothing but the requests themselves meets the expired values
    let sweep = if expired { *ctx.rng.pick(&[1u64, 3600]) } else { 60 };
    let cfg = Cfg::frozen().set("STORE_CLEANUP_INTERVAL_SECS", sweep);
    ctx.server(cfg, |ctx, srv| {
        let t0 = Instant::now();
        let nconn = ctx.rng.range(2, 6) as usize;
        let mut conns = Vec::new();
        for _ in 0..nconn {
            conns.push(srv.conn()?);
        }
        if ctx.rng.chance(700) {
            srv.ctl.preempt(ctx.rng.range(100, 900), ctx.rng.range(200, 4000));
        }
        let rounds = if ctx.thorough { 250 } else { 80 };
        for h in 0..rounds {
            let nkeys = ctx.rng.range(1, 3) as usize;
            let keys: Vec<String> = (0..nkeys).map(|k| format!("h{}-{}-{}", ctx.job, h, k)).collect();
            if expired {
                for (i, k) in keys.iter().enumerate() {
                    conns[0].must_ok(SET, &set_req(k, "{\"ttl\":1}", &sv(900_000 + i as u64, 3)))?;
                }
                srv.adv(1500);
            }
            let per = ctx.rng.range(4, 14) as usize;
            let depth = ctx.rng.range(1, 4) as usize;
            let out: Mutex<Vec<(usize, lin::Op)>> = Mutex::new(Vec::new());
            let errs: Mutex<Vec<Fail>> = Mutex::new(Vec::new());
            let mut rngs: Vec<Rng> = (0..nconn).map(|_| ctx.rng.fork()).collect();
            std::thread::scope(|sc| {
                for (ci, (c, rng)) in conns.iter().zip(rngs.iter_mut()).enumerate() {
                    let (out, errs, keys) = (&out, &errs, &keys);
                    sc.spawn(move || {
                        let mut n = 0;
                        let mut seq = 0u64;
                        while n < per {
                            let burst = (rng.range(1, depth as u64) as usize).min(per - n);
                            let mut pend = Vec::new();
                            for _ in 0..burst {
                                let k = rng.below(keys.len() as u64) as usize;
                                let inv = t0.elapsed().as_nanos() as u64;
                                seq += 1;
                                let v = (ci as u64 + 1) * 1000 + seq;
                                let (id, kind) = match rng.below(10) {
                                    0..=3 => (c.send(SET, &set_req(&keys[k], if v % 2 == 0 { "{\"ttl\":1000}" } else { "{}" }, &sv(v, (v % 40) as usize))), K::Set(v)),
                                    4..=7 => (c.send(GET, &key_req(&keys[k])), K::Get(None)),
                                    _ => (c.send(DEL, &key_req(&keys[k])), K::Del),
                                };
                                pend.push((k, inv, id, kind));
                                n += 1;
                            }
                            for (k, inv, id, kind) in pend {
                                let r = match c.wait_for(id, c.patience) {
                                    Ok((r, at)) => (r, at.duration_since(t0).as_nanos() as u64),
                                    Err(_) => match c.wait(id) {
                                        Ok(r) => (r, t0.elapsed().as_nanos() as u64),
                                        Err(e) => {
                                            errs.lock().unwrap().push(e);
                                            return;
                                        }
                                    },
                                };
                                let kind = match (kind, r.0) {
                                    (K::Get(_), Resp::Null) => K::Get(None),
                                    (K::Get(_), Resp::Data(d)) => {
                                        let v = if d.len() >= 8 { u64::from_be_bytes(d[..8].try_into().unwrap()) } else { 0 };
                                        let want = if v >= 900_000 { sv(v, 3) } else { sv(v, (v % 40) as usize) };
                                        if d != want {
                                            errs.lock().unwrap().push(Fail::v("bytes", format!("GET {} returned bytes nobody stored: {}", keys[k], preview(&d))));
                                            return;
                                        }
                                        K::Get(Some(v))
                                    }
                                    (k2 @ (K::Set(_) | K::Del), Resp::Ok) => k2,
                                    (k2, r) => {
                                        errs.lock().unwrap().push(Fail::v("reply", format!("{:?} answered {}", k2, r.short())));
                                        return;
                                    }
                                };
                                out.lock().unwrap().push((k, lin::Op { inv, ret: r.1, k: kind }));
                            }
                        }
                    });
                }
                if expired && sweep == 1 {
                    // sweeps during the history (values of the history itself live for 1000 s)
                    for _ in 0..3 {
                        std::thread::sleep(Duration::from_micros(700));
                        srv.adv(1100);
                    }
                }
            });
            if let Some(e) = errs.into_inner().unwrap().pop() {
                return Err(e);
            }
            let all = out.into_inner().unwrap();
            for k in 0..nkeys {
                let ops: Vec<lin::Op> = all.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect();
                if ops.is_empty() {
                    continue;
                }
                let overlap = ops.iter().enumerate().any(|(i, a)| ops.iter().skip(i + 1).any(|b| a.inv < b.ret && b.inv < a.ret));
                match lin::register(&ops[..ops.len().min(128)], 3_000_000) {
                    Ok(true) => {
                        ctx.rep.eval(1);
                        ctx.rep.count("events", ops.len() as u64);
                        if overlap {
                            let mut o2 = ops.clone();
                            o2.sort_by_key(|o| o.inv);
                            let d: Vec<u8> = o2.iter().flat_map(|o| format!("{:?};", o.k).into_bytes()).collect();
                            ctx.rep.distinct(hash64(&d));
                            ctx.rep.count("concurrent_histories", 1);
                            if h == 3 {
                                ctx.rep.sample(json!({"scenario": "lin", "key": keys[k], "history": o2.iter().take(16).map(|o| format!("[{}..{}us] {:?}", o.inv / 1000, o.ret / 1000, o.k)).collect::<Vec<_>>()}));
                            }
                        }
                    }
                    Ok(false) => {
                        let mut o2 = ops.clone();
                        o2.sort_by_key(|o| o.inv);
                        let s = o2.iter().map(|o| format!("[{}..{}us]{:?}", o.inv / 1000, o.ret / 1000, o.k)).collect::<Vec<_>>().join(" ");
                        viol!("linearizability", "history of key {} is not linearizable: {}", keys[k], s)
                    }
                    Err(()) => ctx.rep.count("histories_undecided", 1),
                }
            }
        }
        for c in &conns {
            c.check()?;
        }
        Ok(())
    })
}

const TTLS: &[u64] = &[
    1,
    2,
    3,
    5,
    59,
    60,
    61,
    3600,
    86_400,
    1_000_000,
    4_294_967_295,
    4_294_967_296,
    9_007_199_254_740_991,
    9_223_372_036_854_775,
    18_446_744_073_709_551,
    9_223_372_036_854_775_807,
    9_223_372_036_854_775_808,
    18_446_744_073_709_551_614,
    18_446_744_073_709_551_615,
];

fn ttl_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let default_ttl = *ctx.rng.pick(&[1u64, 7, 100, 3600]);
    let cleanup = *ctx.rng.pick(&[1u64, 2, 10, 60]);
    let cfg = Cfg::frozen().set("STORE_TTL_SECS", default_ttl).set("STORE_CLEANUP_INTERVAL_SECS", cleanup);
    ctx.server(cfg, |ctx, srv| {
        let conns = [srv.conn()?, srv.conn()?];
        // value, expiry in virtual ms (None: never)
        let mut model: HashMap<String, (Vec<u8>, u128)> = HashMap::new();
        let mut keys: Vec<String> = vec!["".into(), "a".into(), "a/b".into(), "A".into(), "key with space".into(), "ключ-键-🔑".into(), "\u{0}nul".into(), "k".repeat(3000)];
        for i in 0..4 {
            keys.push(format!("n{}", i));
        }
        let steps = if ctx.thorough { 900 } else { 260 };
        let mut uniq = 0u64;
        for step in 0..steps {
            let c = &conns[ctx.rng.below(2) as usize];
            let k = ctx.rng.pick(&keys).clone();
            let now = srv.ctl.virtual_ms() as u128;
            match ctx.rng.below(100) {
                0..=34 => {
                    uniq += 1;
                    let len = match ctx.rng.below(20) {
                        0 => 100_000,
                        1 => 0,
                        _ => ctx.rng.below(60) as usize,
                    };
                    let v = if len == 0 { Vec::new() } else { sv(uniq, len) };
                    let (opts, ttl) = match ctx.rng.below(10) {
                        0 => ("{}".to_string(), default_ttl),
                        1 => ("{\"ttl\":0}".to_string(), default_ttl),
                        2 => ("{\"ttl\":null}".to_string(), default_ttl),
                        3..=6 => {
                            let t = ctx.rng.range(1, 8);
                            (format!("{{\"ttl\":{}}}", t), t)
                        }
                        _ => {
                            let t = *ctx.rng.pick(TTLS);
                            (format!("{{\"ttl\":{}}}", t), t)
                        }
                    };
                    ctx.t(format!("t={} SET {:?} {} [{}]", now, &k.chars().take(12).collect::<String>(), opts, v.len()));
                    c.must_ok(SET, &set_req(&k, &opts, &v))?;
                    model.insert(k.clone(), (v, now + ttl as u128 * 1000));
                }
                35..=39 => {
                    let bad = *ctx.rng.pick(&["", "{", "{\"ttl\":-1}", "{\"ttl\":1.5}", "{\"ttl\":\"5\"}", "{\"ttl\":18446744073709551616}", "[]x", "null"]);
                    let r = c.call(SET, &set_req(&k, bad, b"bad"))?;
                    ensure!(r.is_err(), "badopts", "SET with options {:?} answered {}", bad, r.short());
                    ctx.t(format!("SET {:?} with invalid options {:?}", k.chars().take(12).collect::<String>(), bad));
                }
                40..=47 => {
                    ctx.t(format!("t={} DEL {:?}", now, k.chars().take(12).collect::<String>()));
                    c.must_ok(DEL, &key_req(&k))?;
                    model.remove(&k);
                }
                48..=62 => {
                    // jump near an expiry instant of some key (just before or just after), or at random
                    let near: Vec<u128> = model.values().map(|x| x.1).filter(|e| *e > now && *e - now < 200_000_000).collect();
                    let d = if !near.is_empty() && ctx.rng.chance(700) {
                        let e = *ctx.rng.pick(&near);
                        let left = e - now;
                        if ctx.rng.chance(500) && left > 2 {
                            left - 1
                        } else {
                            left + 1
                        }
                    } else {
                        ctx.rng.range(1, 4000) as u128
                    };
                    if now + d < 1u128 << 40 {
                        // no instant exactly on an expiry
                        let mut d = d as u64;
                        while model.values().any(|x| x.1 == now + d as u128) {
                            d += 1;
                        }
                        srv.adv(d);
                        ctx.t(format!("advance {} ms", d));
                        ctx.rep.count("time_jumps", 1);
                        if ctx.rng.chance(400) {
                            srv.settle();
                        }
                    }
                }
                _ => {}
            }
            // read back: the touched key always, sometimes all
            let now = srv.ctl.virtual_ms() as u128;
            let which: Vec<String> = if step % 16 == 15 { keys.clone() } else { vec![k] };
            for k in which {
                let c = &conns[ctx.rng.below(2) as usize];
                let r = c.call(GET, &key_req(&k))?;
                let want = match model.get(&k) {
                    Some((v, e)) if now < *e => Resp::Data(v.clone()),
                    _ => Resp::Null,
                };
                ctx.rep.eval(1);
                ctx.rep.distinct(hash64(format!("{}:{}:{}", step, now, want.short()).as_bytes()));
                if r != want {
                    let e = model.get(&k).map(|x| x.1 as i128 - now as i128);
                    viol!("ttl", "GET {:?} at t={} ms answered {} where {} was due (time to expiry {:?} ms)", k.chars().take(20).collect::<String>(), now, r.short(), want.short(), e)
                }
            }
        }
        ctx.rep.sample(json!({"scenario": "ttl", "program": ctx.trace.lock().unwrap().iter().take(10).cloned().collect::<Vec<_>>()}));
        Ok(())
    })
}

/// Overwrites racing the periodic cleanup of a large expired population, and reads that find the expired values.
fn cleanup_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let sweep = *ctx.rng.pick(&[2u64, 2, 3600]);
    let cfg = Cfg::frozen().set("STORE_CLEANUP_INTERVAL_SECS", sweep);
    ctx.server(cfg, |ctx, srv| {
        let nconn = 3;
        let conns: Vec<_> = (0..nconn).map(|_| srv.conn()).collect::<Result<_, _>>()?;
        if ctx.rng.chance(600) {
            srv.ctl.preempt(ctx.rng.range(80, 400), ctx.rng.range(500, 6000));
        }
        let rounds = if ctx.thorough { 40 } else { 12 };
        let nkeys = 600usize;
        for r in 0..rounds {
            let mut ids = Vec::new();
            for k in 0..nkeys {
                let c = &conns[k % nconn];
                ids.push((k % nconn, c.send(SET, &set_req(&format!("c{}", k), "{\"ttl\":1}", &sv(k as u64, 10)))));
            }
            for (ci, id) in ids.drain(..) {
                let x = conns[ci].wait(id)?;
                ensure!(x == Resp::Ok, "reply", "SET answered {}", x.short());
            }
            // all expired; now overwrite half of them while the sweep runs
            let over: Vec<usize> = (0..nkeys).filter(|_| ctx.rng.chance(500)).collect();
            let start = ctx.rng.below(over.len() as u64 / 2) as usize;
            srv.adv(1000 + 7);
            let mut sent = Vec::new();
            let mut reads = Vec::new();
            for (n, k) in over.iter().enumerate() {
                if n == start && sweep == 2 {
                    srv.adv(2000);
                }
                for (d, p) in [(1, 700), (2, 300)] {
                    if ctx.rng.chance(p) {
                        let ci = (k + r + d) % nconn;
                        reads.push((*k, ci, conns[ci].send(GET, &key_req(&format!("c{}", k)))));
                    }
                }
                let c = &conns[(k + r) % nconn];
                sent.push(((k + r) % nconn, c.send(SET, &set_req(&format!("c{}", k), "{\"ttl\":100000}", &sv(1_000_000 + *k as u64, 10)))));
            }
            for (ci, id) in sent.drain(..) {
                conns[ci].wait(id)?;
            }
            for (k, ci, id) in reads {
                let x = conns[ci].wait(id)?;
                ctx.rep.eval(1);
                ensure!(x == Resp::Null || x == Resp::Data(sv(1_000_000 + k as u64, 10)), "cleanup", "key c{}, expired and being overwritten, answered {}", k, x.short());
            }
            srv.settle();
            let isover: std::collections::HashSet<usize> = over.iter().cloned().collect();
            let mut gets = Vec::new();
            for k in 0..nkeys {
                let c = &conns[k % nconn];
                gets.push((k, k % nconn, c.send(GET, &key_req(&format!("c{}", k)))));
            }
            for (k, ci, id) in gets {
                let x = conns[ci].wait(id)?;
                ctx.rep.eval(1);
                let want = if isover.contains(&k) { Resp::Data(sv(1_000_000 + k as u64, 10)) } else { Resp::Null };
                if x != want {
                    viol!("cleanup", "key c{} answered {} after an overwrite raced the cleanup (every {} s) and reads of the expired value, expected {}", k, x.short(), sweep, want.short())
                }
            }
            ctx.rep.distinct(hash64(format!("{:?}", over).as_bytes()));
            // all keys expire in the next round
            for k in 0..nkeys {
                let c = &conns[k % nconn];
                sent.push((k % nconn, c.send(DEL, &key_req(&format!("c{}", k)))));
            }
            for (ci, id) in sent {
                conns[ci].wait(id)?;
            }
        }
        ctx.rep.sample(json!({"scenario": "cleanup", "rounds": rounds, "keys": nkeys}));
        Ok(())
    })
}
