//! C10: waiting consumes and fetches.
use super::queue::counts as q_counts;
use crate::client::*;
use crate::proto::*;
use crate::report::Fail;
use crate::rng::{hash64, Rng};
use crate::run::{Ctx, Spec};
use crate::server::{Cfg, Server};
use crate::{ensure, viol};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn spec() -> Spec {
    Spec {
        scenarios: vec![("race", 4, race_scn), ("time", 2, time_scn), ("groups", 2, groups_scn)],
        par: 4,
        quick_s: 60,
        thorough_s: 450,
        level: "exploration",
        rule: "The clock is frozen, so no timeout can end or rescue a wait. (race) One to three waiters start at the same moment, to the microsecond, as one to three messages become available by push, nack, dead-letter replay, publish, or a member leaving or disconnecting, in parallel on many queues and groups under injected preemption; (time) waiters with many deadlines against visibility timeouts, pushes, nacks and replays in virtual time; (groups) the same for stream groups with acknowledgement timeouts. While a waiter is unanswered for seconds on an idle server, a probe must find nothing: a probe that obtains a message proves a missed wakeup. An empty answer before the virtual deadline is a violation unless the wait was superseded; a wait past its deadline must be answered. One evaluation = one finished wait; distinct by source of availability, number of waiters, messages and offset.",
        assumptions: vec!["superseding events (a member leaving the same group, a seek, backpressure) may end a wait early with nothing, as documented"],
    }
}

/// How long an idle server may leave a waiter unanswered before the probe decides.
fn idle(ctx_stretch: u32) -> Duration {
    Duration::from_millis(1500) * ctx_stretch.max(1)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Src {
    Push,
    Nack,
    Replay,
    Publish,
    Leave,
    Drop,
}

/// One pair of waiter(s) and source on its own queue or stream.
fn race_one(r: &mut Rng, port_conn: &dyn Fn() -> Result<Conn, Fail>, name: &str, src: Src, rounds: u64, wait_idle: Duration, rep: &crate::report::Report) -> Result<(), Fail> {
    let a = port_conn()?; // source
    let ws: Vec<Conn> = (0..r.range(1, 3)).map(|_| port_conn()).collect::<Result<_, _>>()?;
    let probe = port_conn()?;
    let queue = matches!(src, Src::Push | Src::Nack | Src::Replay);
    let mut n = 0u64;
    if queue {
        let retries = if src == Src::Replay { 1 } else { 1_000_000 };
        ensure!(a.q_create(name, &format!("{{\"visibilityTimeoutMs\":1000000000,\"maxRetries\":{}}}", retries))? == Resp::Ok, "reply", "create failed");
    } else {
        ensure!(a.s_create(name, "{}")? == Resp::Ok, "reply", "create failed");
    }
    let gn = "g";
    let mut js: Vec<Joined> = vec![];
    let mut pj = None;
    if !queue {
        for w in &ws {
            js.push(w.s_join(name, gn)?);
        }
        pj = Some(probe.s_join(name, gn)?);
    }
    for round in 0..rounds {
        let m = r.range(1, 3);
        // prepare what the source will release
        let mut held: Vec<Id> = vec![];
        let mut holder: Option<(Conn, Joined)> = None;
        match src {
            Src::Push | Src::Publish => {}
            Src::Nack | Src::Replay => {
                for _ in 0..m {
                    n += 1;
                    a.must_ok(Q_PUSH, &enc_push(name, None, &n.to_be_bytes()))?;
                }
                let v = a.q_consume(name, Some(m), Some(0))?;
                ensure!(v.len() as u64 == m, "setup", "expected {} ready messages, got {}", m, v.len());
                held = v.iter().map(|x| x.id).collect();
                if src == Src::Replay {
                    for id in &held {
                        ensure!(a.q_nack(name, id, "x")?, "setup", "nack of a held message failed");
                    }
                }
            }
            Src::Leave | Src::Drop => {
                let h = port_conn()?;
                let j = h.s_join(name, gn)?;
                for _ in 0..m {
                    n += 1;
                    h.s_pub(name, &n.to_be_bytes())?;
                }
                let v = match h.s_fetch(name, gn, &j, m as u32, 0)? {
                    Ok(v) => v,
                    Err(e) => viol!("fetch", "fetch failed: {}", e),
                };
                ensure!(v.len() as u64 == m, "setup", "expected {} messages, got {}", m, v.len());
                holder = Some((h, j));
            }
        }
        // the waiters and the source start together
        let first = r.chance(700);
        let span = if r.chance(500) { 30_000 } else { 400_000 };
        let offset = Duration::from_nanos(r.below(span));
        let k = r.range(1, ws.len() as u64) as usize;
        let batch = r.range(1, 3);
        let mut ids: Vec<Option<u32>> = vec![None; ws.len()];
        let spin = |d: Duration| {
            let t = Instant::now();
            while t.elapsed() < d {
                std::hint::spin_loop();
            }
        };
        let start = |ids: &mut Vec<Option<u32>>, i: usize| {
            ids[i] = Some(if queue {
                ws[i].send(Q_CONSUME, &enc_consume(name, Some(batch), Some(1_000_000_000)))
            } else {
                ws[i].send(S_FETCH, &enc_fetch(name, gn, &js[i], batch as u32, 1_000_000_000))
            });
        };
        let mut sent: Vec<(u8, u32)> = vec![];
        let mut fire = |n: &mut u64| {
            for i in 0..m {
                let (op, p) = match src {
                    Src::Push => {
                        *n += 1;
                        (Q_PUSH, enc_push(name, None, &n.to_be_bytes()))
                    }
                    Src::Publish => {
                        *n += 1;
                        (S_PUB, W::new().s(name).raw(&n.to_be_bytes()).0)
                    }
                    Src::Nack => (Q_NACK, W::new().raw(&held[i as usize]).s(name).s("r").0),
                    Src::Replay => (Q_MOVE, W::new().s(name).raw(&held[i as usize]).0),
                    Src::Leave => {
                        let (h, j) = holder.as_ref().unwrap();
                        if i == 0 {
                            h.send(S_LEAVE, &W::new().s(name).s(gn).s(&j.cid).u64(j.gen).0);
                        }
                        continue;
                    }
                    Src::Drop => {
                        if i == 0 {
                            holder.as_ref().unwrap().0.close();
                        }
                        continue;
                    }
                };
                sent.push((op, a.send(op, &p)));
            }
        };
        if first {
            for i in 0..k {
                start(&mut ids, i);
            }
            spin(offset);
            fire(&mut n);
        } else {
            fire(&mut n);
            spin(offset / 4);
            for i in 0..k {
                start(&mut ids, i);
            }
        }
        for (op, id) in sent {
            match a.wait(id)? {
                Resp::Err(e) => viol!("source", "opcode 0x{:02x} failed: {}", op, e),
                Resp::Data(d) if op == Q_MOVE && d != [1] => viol!("source", "replay of a dead-lettered message answered {:?}", d),
                _ => {}
            }
        }
        // all messages must come out while somebody waits
        let mut got = 0u64;
        let superseding = matches!(src, Src::Leave | Src::Drop);
        let mut t0 = Instant::now();
        while got < m {
            let mut progress = false;
            let mut waiting = 0;
            for i in 0..ws.len() {
                let Some(id) = ids[i] else { continue };
                if !ws[i].ready(id) {
                    waiting += 1;
                    continue;
                }
                ids[i] = None;
                progress = true;
                let resp = ws[i].wait(id)?;
                let taken = take(&ws[i], name, gn, js.get(i), resp)?;
                if taken == 0 && !superseding {
                    viol!("early", "a waiting {} answered with nothing long before its deadline (source {:?}, {} waiters, {} messages, round {})", if queue { "consume" } else { "fetch" }, src, k, m, round);
                }
                got += taken;
                rep.eval(1);
            }
            if got >= m {
                break;
            }
            if waiting == 0 {
                // everyone answered: the next one asks
                let i = r.below(ws.len() as u64) as usize;
                start(&mut ids, i);
                t0 = Instant::now();
                continue;
            }
            if progress {
                t0 = Instant::now();
            }
            if t0.elapsed() > wait_idle {
                let resp = if queue { probe.call(Q_CONSUME, &enc_consume(name, Some(10), Some(0)))? } else { probe.call(S_FETCH, &enc_fetch(name, gn, pj.as_ref().unwrap(), 10, 0))? };
                let x = take(&probe, name, gn, pj.as_ref(), resp)?;
                if x > 0 {
                    viol!("missed", "{} waiter(s) of {:?} stayed unanswered for {:?} while {} message(s) made available by {:?} could be taken (round {}, {} expected, {} taken before, waiters {}, offset {:?})", waiting, name, wait_idle, x, src, round, m, got, if first { "first" } else { "last" }, offset);
                }
                if t0.elapsed() > wait_idle * 6 {
                    viol!("lost", "{} of {} messages made available by {:?} never came out", m - got, m, src);
                }
            }
            std::thread::sleep(Duration::from_micros(50));
        }
        rep.distinct(hash64(format!("{:?} {} {} {} {} {}", src, k, m, batch, first, offset.as_micros() / 20).as_bytes()));
        // waiters left over are satisfied by further messages
        let mut t0 = Instant::now();
        loop {
            let open: Vec<usize> = (0..ws.len()).filter(|i| ids[*i].is_some()).collect();
            if open.is_empty() {
                break;
            }
            n += 1;
            if queue {
                a.must_ok(Q_PUSH, &enc_push(name, None, &n.to_be_bytes()))?;
            } else {
                a.s_pub(name, &n.to_be_bytes())?;
            }
            let mut taken = 0;
            while taken == 0 {
                for &i in &open {
                    let Some(id) = ids[i] else { continue };
                    if ws[i].ready(id) {
                        ids[i] = None;
                        let x = take(&ws[i], name, gn, js.get(i), ws[i].wait(id)?)?;
                        if x == 0 && !superseding {
                            viol!("early", "a waiting request answered with nothing long before its deadline");
                        }
                        taken += x;
                        rep.eval(1);
                    }
                }
                if taken == 0 && open.iter().all(|i| ids[*i].is_none()) {
                    // superseded: pick the message up
                    let resp = if queue { probe.call(Q_CONSUME, &enc_consume(name, Some(10), Some(0)))? } else { probe.call(S_FETCH, &enc_fetch(name, gn, pj.as_ref().unwrap(), 10, 0))? };
                    take(&probe, name, gn, pj.as_ref(), resp)?;
                    break;
                }
                if taken == 0 && t0.elapsed() > wait_idle {
                    let resp = if queue { probe.call(Q_CONSUME, &enc_consume(name, Some(10), Some(0)))? } else { probe.call(S_FETCH, &enc_fetch(name, gn, pj.as_ref().unwrap(), 10, 0))? };
                    if take(&probe, name, gn, pj.as_ref(), resp)? > 0 {
                        viol!("missed", "waiters of {:?} (left over after {:?}) stayed unanswered for {:?} while a pushed message could be taken", name, src, wait_idle);
                    }
                    if t0.elapsed() > wait_idle * 6 {
                        viol!("lost", "a message pushed to {:?} never came out", name);
                    }
                }
                std::thread::sleep(Duration::from_micros(50));
            }
            t0 = Instant::now();
        }
        if let Some((h, _)) = holder {
            h.close();
        }
        for w in &ws {
            w.check()?;
        }
    }
    Ok(())
}
/// Acknowledge what an answer carries; returns how many messages it was.
fn take(c: &Conn, name: &str, gn: &str, j: Option<&Joined>, r: Resp) -> Result<u64, Fail> {
    match j {
        None => {
            let v = as_batch(r)?;
            for m in &v {
                ensure!(c.q_ack(name, &m.id)?, "ack", "ack of a delivered message failed");
            }
            Ok(v.len() as u64)
        }
        Some(j) => match as_fetch(r)? {
            Ok(v) => {
                for m in &v {
                    if let Err(e) = c.s_ack(name, gn, j, m.seq)? {
                        viol!("ack", "ack by the holder failed: {}", e);
                    }
                }
                Ok(v.len() as u64)
            }
            Err(e) => viol!("fetch", "a waiting fetch failed: {}", e),
        },
    }
}

fn race_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg::frozen().set("STREAM_ACK_WAIT_MS", 1_000_000_000_000u64).set("STREAM_MAX_DELIVERIES", 1_000_000).set("STREAM_MAX_ACK_PENDING", 1_000_000);
    let rounds = if ctx.thorough { 400 } else { 120 };
    let wi = idle(ctx.stretch);
    ctx.server(cfg, |ctx, srv| {
        let np = ctx.rng.range(2, 6);
        if ctx.rng.chance(850) {
            srv.ctl.preempt(ctx.rng.range(15, 250), ctx.rng.range(100, 900));
        }
        let errs: Mutex<Vec<Fail>> = Mutex::new(vec![]);
        let rngs: Vec<Rng> = (0..np).map(|_| ctx.rng.fork()).collect();
        let rep = ctx.rep;
        let srv_ref: &Server = srv;
        std::thread::scope(|sc| {
            for (i, mut r) in rngs.into_iter().enumerate() {
                let errs = &errs;
                sc.spawn(move || {
                    let src = *r.pick(&[Src::Push, Src::Push, Src::Nack, Src::Replay, Src::Publish, Src::Publish, Src::Leave, Src::Drop]);
                    let res = race_one(&mut r, &|| srv_ref.conn(), &format!("w{}", i), src, rounds, wi, rep);
                    rep.count(&format!("rounds_{:?}", src).to_lowercase(), rounds);
                    if let Err(e) = res {
                        errs.lock().unwrap().push(e);
                    }
                });
            }
        });
        match errs.into_inner().unwrap().into_iter().next() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    })
}

struct Wait {
    c: usize,
    id: u32,
    q: usize,
    from: u64,
    until: u64,
    /// virtual time at which it was certainly being served
    by: Option<u64>,
    exempt: bool,
}

fn time_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let def_wait = *ctx.rng.pick(&[0u64, 40, 700]);
    let cfg = Cfg::frozen().set("QUEUE_DEFAULT_WAIT_MS", def_wait);
    let steps = if ctx.thorough { 500 } else { 160 };
    let wi = idle(ctx.stretch);
    ctx.server(cfg, |ctx, srv| {
        let a = srv.conn()?;
        let nq = 2usize;
        let vts = [*ctx.rng.pick(&[60u64, 300]), 5000];
        for q in 0..nq {
            ensure!(a.q_create(&format!("t{}", q), &format!("{{\"visibilityTimeoutMs\":{},\"maxRetries\":{}}}", vts[q], *ctx.rng.pick(&[2u64, 1000])))? == Resp::Ok, "reply", "create failed");
        }
        if ctx.rng.chance(500) {
            srv.ctl.preempt(ctx.rng.range(100, 400), ctx.rng.range(100, 800));
        }
        let conns: Vec<Conn> = (0..4).map(|_| srv.conn()).collect::<Result<_, _>>()?;
        let mut ws: Vec<Wait> = vec![];
        let mut held: Vec<(usize, Id)> = vec![];
        let mut n = 0u64;
        for step in 0..steps {
            let q = ctx.rng.below(nq as u64) as usize;
            let qn = format!("t{}", q);
            let act = ctx.rng.below(10);
            match act {
                0..=2 => {
                    let w = match ctx.rng.below(6) {
                        0 => None,
                        1 => Some(ctx.rng.below(4)),
                        2 => Some(ctx.rng.range(1, 100)),
                        3 => Some(ctx.rng.range(100, 5000)),
                        4 => Some(50 * ctx.rng.range(1, 4)),
                        _ => Some(1_000_000),
                    };
                    let c = ctx.rng.below(conns.len() as u64) as usize;
                    let from = srv.ctl.virtual_ms();
                    let id = conns[c].send(Q_CONSUME, &enc_consume(&qn, Some(ctx.rng.range(1, 3)), w));
                    ws.push(Wait { c, id, q, from, until: from + w.unwrap_or(def_wait), by: None, exempt: false });
                }
                3 | 4 => {
                    for _ in 0..ctx.rng.range(1, 3) {
                        n += 1;
                        a.must_ok(Q_PUSH, &enc_push(&qn, Some(ctx.rng.below(3) as u8), &n.to_be_bytes()))?;
                    }
                }
                5 if !held.is_empty() => {
                    let i = ctx.rng.below(held.len() as u64) as usize;
                    let (q, id) = held.swap_remove(i);
                    let _ = if ctx.rng.chance(500) { a.q_nack(&format!("t{}", q), &id, "r")? } else { a.q_ack(&format!("t{}", q), &id)? };
                }
                6 => {
                    let (_, v) = a.q_dlq(&qn, 10, 0)?;
                    if let Some(m) = v.first() {
                        a.q_move(&qn, &m.id)?;
                        ctx.rep.count("replays", 1);
                    }
                }
                7 if ctx.rng.chance(300) => {
                    // several messages time out at one moment while several consumers wait for one each
                    for _ in 0..ctx.rng.range(2, 4) {
                        n += 1;
                        a.must_ok(Q_PUSH, &enc_push(&qn, None, &n.to_be_bytes()))?;
                    }
                    held.extend(a.q_consume(&qn, Some(20), Some(0))?.iter().map(|m| (q, m.id)));
                    for c in 0..ctx.rng.range(2, 4) as usize {
                        let from = srv.ctl.virtual_ms();
                        let id = conns[c].send(Q_CONSUME, &enc_consume(&qn, Some(1), Some(1_000_000)));
                        ws.push(Wait { c, id, q, from, until: from + 1_000_000, by: None, exempt: false });
                    }
                    collect(ctx, srv, &conns, &mut ws, &mut held, wi)?;
                    srv.settle();
                    srv.adv(vts[q] + 60);
                    srv.settle();
                    ctx.rep.count("expired_together", 1);
                }
                _ => {
                    // to a deadline exactly, just before it, or anywhere
                    let now = srv.ctl.virtual_ms();
                    let d = match (ctx.rng.below(4), ws.iter().map(|w| w.until).filter(|u| *u > now).min()) {
                        (0, Some(u)) => u - now,
                        (1, Some(u)) => (u - now).saturating_sub(1),
                        (2, _) => ctx.rng.range(1, 60),
                        _ => ctx.rng.range(1, 1200),
                    };
                    // no wait may be collected with an ambiguous time
                    collect(ctx, srv, &conns, &mut ws, &mut held, wi)?;
                    if d > 0 && d < 500_000 {
                        if ws.iter().any(|w| w.by.is_none()) && srv.quiet() {
                            for w in ws.iter_mut() {
                                w.by.get_or_insert(srv.ctl.virtual_ms());
                            }
                        }
                        srv.adv(d);
                        srv.settle();
                    }
                }
            }
            if act != 9 || step % 7 == 0 {
                collect(ctx, srv, &conns, &mut ws, &mut held, wi)?;
            }
            judge_q(ctx, srv, &a, &mut ws, &conns, &mut held, wi)?;
        }
        srv.adv(2_000_000);
        for w in ws.drain(..) {
            let r = conns[w.c].wait(w.id)?;
            as_batch(r)?;
            ctx.rep.eval(1);
        }
        for c in &conns {
            c.check()?;
        }
        Ok(())
    })
}
/// Take the answers that have arrived; time does not move meanwhile.
fn collect(ctx: &Ctx, srv: &Server, conns: &[Conn], ws: &mut Vec<Wait>, held: &mut Vec<(usize, Id)>, _wi: Duration) -> Result<(), Fail> {
    let now = srv.ctl.virtual_ms();
    let mut i = 0;
    while i < ws.len() {
        if conns[ws[i].c].ready(ws[i].id) {
            let w = ws.swap_remove(i);
            let v = as_batch(conns[w.c].wait(w.id)?)?;
            if v.is_empty() {
                ensure!(now >= w.until || w.exempt, "early", "a consume waiting {} ms answered with nothing after {} ms", w.until - w.from, now - w.from);
                ctx.rep.count("ended_by_deadline", 1);
            } else {
                ctx.rep.count("ended_by_message", 1);
            }
            ctx.rep.eval(1);
            ctx.rep.distinct(hash64(format!("{} {} {}", w.until - w.from, now - w.from, v.len()).as_bytes()));
            held.extend(v.iter().map(|m| (w.q, m.id)));
        } else {
            i += 1;
        }
    }
    Ok(())
}
fn judge_q(ctx: &Ctx, srv: &Server, a: &Conn, ws: &mut Vec<Wait>, conns: &[Conn], held: &mut Vec<(usize, Id)>, wi: Duration) -> Result<(), Fail> {
    let now = srv.ctl.virtual_ms();
    // past the deadline (timers are due within a few milliseconds)
    if let Some(w) = ws.iter().find(|w| w.by.map_or(false, |b| now >= b + (w.until - w.from) + 3)) {
        let (c, id, until, from) = (w.c, w.id, w.until, w.from);
        let t0 = Instant::now();
        while !conns[c].ready(id) {
            if t0.elapsed() > wi * 4 {
                // conclusive: the server serves others
                a.echo(b"x")?;
                viol!("hang", "a consume waiting {} ms is unanswered {} ms after its deadline ({:?} of real time later)", until - from, now - until, t0.elapsed());
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        collect(ctx, srv, conns, ws, held, wi)?;
    }
    for q in [0usize, 1] {
        if !ws.iter().any(|w| w.q == q) {
            continue;
        }
        let t0 = Instant::now();
        loop {
            collect(ctx, srv, conns, ws, held, wi)?;
            if !ws.iter().any(|w| w.q == q) || q_counts(srv, &format!("t{}", q))?.0 == 0 {
                break;
            }
            if t0.elapsed() > wi {
                collect(ctx, srv, conns, ws, held, wi)?;
                let k = ws.iter().filter(|w| w.q == q).count();
                let v = a.q_consume(&format!("t{}", q), Some(1), Some(0))?;
                collect(ctx, srv, conns, ws, held, wi)?;
                let k2 = ws.iter().filter(|w| w.q == q).count();
                if !v.is_empty() && k > 0 && k2 == k {
                    viol!("missed", "{} consume(s) stayed unanswered for {:?} while a message was ready", k, wi);
                }
                held.extend(v.iter().map(|m| (q, m.id)));
                break;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    Ok(())
}

/// Stream groups in virtual time: acknowledgement timeouts, publishes, members leaving, deadlines.
fn groups_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let aw = *ctx.rng.pick(&[150u64, 1000, 4000]);
    let cold = ctx.rng.chance(300);
    let cfg = Cfg::frozen()
        .set("STREAM_ACK_WAIT_MS", aw)
        .set("STREAM_MAX_DELIVERIES", 1_000_000)
        .set("STREAM_MAX_ACK_PENDING", 1_000_000)
        .set("STREAM_RAM_SOFT_LIMIT", if cold { 2 } else { 100_000 })
        .set("STREAM_EVICTION_INTERVAL_MS", 20);
    let steps = if ctx.thorough { 400 } else { 130 };
    let wi = idle(ctx.stretch);
    let ack_total = AtomicU64::new(0);
    ctx.server(cfg, |ctx, srv| {
        let a = srv.conn()?;
        ensure!(a.s_create("t", "{}")? == Resp::Ok, "reply", "create failed");
        if ctx.rng.chance(500) {
            srv.ctl.preempt(ctx.rng.range(100, 400), ctx.rng.range(100, 800));
        }
        let gns = ["ga", "gb"];
        // members: (connection, group, joined)
        let mut mem: Vec<(Conn, usize, Joined)> = vec![];
        let mut probes = vec![];
        for g in 0..2 {
            for _ in 0..2 {
                let c = srv.conn()?;
                let j = c.s_join("t", gns[g])?;
                mem.push((c, g, j));
            }
            let c = srv.conn()?;
            let j = c.s_join("t", gns[g])?;
            probes.push((c, j));
        }
        struct Fw {
            m: usize,
            id: u32,
            from: u64,
            until: u64,
            by: Option<u64>,
            exempt: bool,
            over: bool,
        }
        let mut ws: Vec<Fw> = vec![];
        // unacknowledged: (member, seq)
        let mut held: Vec<(usize, u64)> = vec![];
        let mut n = 0u64;
        let mut kinds: BTreeMap<&str, u64> = BTreeMap::new();
        let mut seen: BTreeSet<u64> = BTreeSet::new();
        for _step in 0..steps {
            let mut must_probe = false;
            match ctx.rng.below(11) {
                10 => {
                    // everything available is held and times out, nothing else happens, while somebody waits
                    let g = ctx.rng.below(2) as usize;
                    let (c, j) = &probes[g];
                    for _ in 0..ctx.rng.below(4) {
                        n += 1;
                        a.s_pub("t", &n.to_be_bytes())?;
                    }
                    // the other group has everything it can have at once, and some of its members wait as well
                    let mut who: Vec<usize> = vec![];
                    if ctx.rng.chance(600) {
                        let (c, j) = &probes[1 - g];
                        match c.s_fetch("t", gns[1 - g], j, 10_000, 0)? {
                            Ok(v) => {
                                let ids: Vec<u32> = v.iter().map(|m| c.send(S_ACK, &W::new().s("t").s(gns[1 - g]).s(&j.cid).u64(j.gen).u64(m.seq).0)).collect();
                                for id in ids {
                                    c.wait(id)?;
                                }
                            }
                            Err(e) => viol!("fetch", "the probe's fetch failed: {}", e),
                        }
                        who.extend((0..mem.len()).filter(|m| mem[*m].1 != g));
                    }
                    if let Err(e) = c.s_fetch("t", gns[g], j, 10_000, 0)? {
                        viol!("fetch", "the probe's fetch failed: {}", e);
                    }
                    let own: Vec<usize> = (0..mem.len()).filter(|m| mem[*m].1 == g).collect();
                    who.extend(&own[..ctx.rng.range(1, own.len() as u64) as usize]);
                    if ctx.rng.chance(300) {
                        who.reverse();
                    }
                    let limit = *ctx.rng.pick(&[1u32, 1, 2, 5]);
                    for m in who {
                        let from = srv.ctl.virtual_ms();
                        let id = mem[m].0.send(S_FETCH, &enc_fetch("t", gns[mem[m].1], &mem[m].2, limit, 1_000_000));
                        ws.push(Fw { m, id, from, until: from + 1_000_000, by: None, exempt: cold, over: false });
                        if ctx.rng.chance(500) {
                            srv.settle();
                        }
                    }
                    srv.quiet();
                    srv.adv(aw + 250);
                    srv.settle();
                    *kinds.entry("held_then_timeout").or_default() += 1;
                    must_probe = true;
                }
                0..=2 => {
                    let m = ctx.rng.below(mem.len() as u64) as usize;
                    let w = match ctx.rng.below(5) {
                        0 => ctx.rng.below(4),
                        1 => ctx.rng.range(1, 100),
                        2 => ctx.rng.range(100, 5000),
                        3 => 100 * ctx.rng.range(1, 4),
                        _ => 1_000_000,
                    };
                    let from = srv.ctl.virtual_ms();
                    let (c, g, j) = &mem[m];
                    let id = c.send(S_FETCH, &enc_fetch("t", gns[*g], j, ctx.rng.range(1, 5) as u32, w as u32));
                    ws.push(Fw { m, id, from, until: from + w, by: None, exempt: cold, over: false });
                }
                3..=5 => {
                    for _ in 0..ctx.rng.range(1, 3) {
                        n += 1;
                        a.s_pub("t", &n.to_be_bytes())?;
                    }
                    *kinds.entry("publish").or_default() += 1;
                }
                6 => {
                    // a member goes (leave or disconnect) and a new one comes
                    let m = ctx.rng.below(mem.len() as u64) as usize;
                    let g = mem[m].1;
                    for w in ws.iter_mut() {
                        if mem[w.m].1 == g {
                            w.exempt = true;
                        }
                    }
                    // its own waits end with it
                    if ctx.rng.chance(500) {
                        mem[m].0.close();
                        for w in ws.iter_mut() {
                            if w.m == m {
                                w.over = true;
                            }
                        }
                        ws.retain(|w| !w.over);
                        // wait until the server has noticed
                        srv.settle();
                    } else {
                        let (c, g, j) = &mem[m];
                        ensure!(c.s_leave("t", gns[*g], j)?.is_ok(), "leave", "leave failed");
                        let end = Instant::now() + wi * 4;
                        for w in ws.iter().filter(|w| w.m == m) {
                            while !c.ready(w.id) {
                                ensure!(Instant::now() < end, "hang", "a fetch of a member that left stays unanswered");
                                std::thread::sleep(Duration::from_millis(1));
                            }
                            let _ = as_fetch(c.wait(w.id)?)?;
                        }
                        ws.retain(|w| w.m != m);
                        c.close();
                    }
                    held.retain(|(h, _)| *h != m);
                    let c = srv.conn()?;
                    let j = c.s_join("t", gns[g])?;
                    mem[m] = (c, g, j);
                    *kinds.entry("leave").or_default() += 1;
                }
                7 if !held.is_empty() => {
                    for _ in 0..ctx.rng.range(1, 6) {
                        if held.is_empty() {
                            break;
                        }
                        let i = ctx.rng.below(held.len() as u64) as usize;
                        let (m, s) = held.swap_remove(i);
                        let (c, g, j) = &mem[m];
                        // it may have timed out meanwhile
                        if c.s_ack("t", gns[*g], j, s)?.is_ok() {
                            ack_total.fetch_add(1, SeqCst);
                        }
                    }
                }
                _ => {
                    let now = srv.ctl.virtual_ms();
                    let d = match (ctx.rng.below(4), ws.iter().map(|w| w.until).filter(|u| *u > now).min()) {
                        (0, Some(u)) => u - now,
                        (1, Some(u)) => (u - now).saturating_sub(1),
                        (2, _) => ctx.rng.range(1, 150),
                        _ => ctx.rng.range(1, aw + 300),
                    };
                    // what has been answered so far was answered at this time
                    let mut i = 0;
                    while i < ws.len() {
                        if !mem[ws[i].m].0.ready(ws[i].id) {
                            i += 1;
                            continue;
                        }
                        let w = ws.swap_remove(i);
                        let v = match as_fetch(mem[w.m].0.wait(w.id)?)? {
                            Ok(v) => v,
                            Err(e) => viol!("fetch", "a waiting fetch failed: {}", e),
                        };
                        ensure!(!v.is_empty() || now >= w.until || w.exempt, "early", "a fetch waiting {} ms answered with nothing after {} ms", w.until - w.from, now - w.from);
                        held.extend(v.iter().map(|x| (w.m, x.seq)));
                    }
                    if d > 0 && d < 500_000 {
                        if ws.iter().any(|w| w.by.is_none()) && srv.quiet() {
                            for w in ws.iter_mut() {
                                w.by.get_or_insert(srv.ctl.virtual_ms());
                            }
                        }
                        srv.adv(d);
                        srv.settle();
                    }
                }
            }
            // judge
            let now = srv.ctl.virtual_ms();
            let t0 = Instant::now();
            loop {
                let mut i = 0;
                while i < ws.len() {
                    if !mem[ws[i].m].0.ready(ws[i].id) {
                        i += 1;
                        continue;
                    }
                    let w = ws.swap_remove(i);
                    let v = match as_fetch(mem[w.m].0.wait(w.id)?)? {
                        Ok(v) => v,
                        Err(e) => viol!("fetch", "a waiting fetch failed: {}", e),
                    };
                    if v.is_empty() {
                        ensure!(now >= w.until || w.exempt, "early", "a fetch waiting {} ms answered with nothing after {} ms", w.until - w.from, now - w.from);
                        *kinds.entry("deadline").or_default() += 1;
                    } else {
                        *kinds.entry("message").or_default() += 1;
                        for x in &v {
                            if !seen.insert(x.seq * 2 + mem[w.m].1 as u64) {
                                *kinds.entry("redelivered_to_waiter").or_default() += 1;
                            }
                        }
                    }
                    ctx.rep.eval(1);
                    ctx.rep.distinct(hash64(format!("{} {} {}", w.until - w.from, now - w.from, v.len()).as_bytes()));
                    held.extend(v.iter().map(|x| (w.m, x.seq)));
                }
                let late = ws.iter().any(|w| w.by.map_or(false, |b| now >= b + (w.until - w.from) + 3));
                if !late || t0.elapsed() > wi * 4 {
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            if let Some(w) = ws.iter().find(|w| w.by.map_or(false, |b| now >= b + (w.until - w.from) + 3)) {
                a.echo(b"x")?;
                viol!("hang", "a fetch waiting {} ms is unanswered {} ms after its deadline", w.until - w.from, now - w.until);
            }
            // somebody waits and a probe gets something?
            if !ws.is_empty() && (must_probe || ctx.rng.chance(400)) {
                // every thread of the server is seen blocked and time stands still: what is unanswered now stays unanswered
                if !srv.quiet() {
                    continue;
                }
                std::thread::sleep(Duration::from_millis(120) * ctx.stretch.max(1));
                if !srv.quiet() {
                    continue;
                }
                for g in 0..2 {
                    let open: Vec<(usize, u32)> = ws.iter().filter(|w| mem[w.m].1 == g).map(|w| (w.m, w.id)).collect();
                    if open.is_empty() || open.iter().any(|(m, id)| mem[*m].0.ready(*id)) {
                        continue;
                    }
                    let (c, j) = &probes[g];
                    let v = match c.s_fetch("t", gns[g], j, 1, 0)? {
                        Ok(v) => v,
                        Err(e) => viol!("fetch", "the probe's fetch failed: {}", e),
                    };
                    ctx.rep.count("probes", 1);
                    if !v.is_empty() {
                        c.s_ack("t", gns[g], j, v[0].seq)?.ok();
                        if open.iter().all(|(m, id)| !mem[*m].0.ready(*id)) {
                            viol!("missed", "{} fetch(es) of group {} stayed unanswered on an idle server while position {} could be taken", open.len(), gns[g], v[0].seq);
                        }
                    }
                }
            }
        }
        srv.adv(2_000_000);
        for w in ws.drain(..) {
            mem[w.m].0.wait(w.id)?;
        }
        for (k, v) in kinds {
            ctx.rep.count(&format!("groups_{}", k), v);
        }
        ctx.rep.count("groups_acks", ack_total.load(SeqCst));
        ctx.rep.sample(json!({"scenario": "groups", "ack_wait": aw, "cold": cold, "published": n}));
        Ok(())
    })
}
