//! C15: retention.
use super::stream::{body, contiguous, groups, num, read, read_all};
use crate::client::*;
use crate::proto::*;
use crate::report::Fail;
use crate::rng::hash64;
use crate::run::{Ctx, Spec};
use crate::server::{Cfg, Server};
use crate::{ensure, viol};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn spec() -> Spec {
    Spec {
        scenarios: vec![("limits", 3, limits_scn), ("live", 1, live_scn)],
        par: 6,
        quick_s: 45,
        thorough_s: 450,
        level: "exploration",
        rule: "(limits) Several topics with different size and age limits (absent, 0, tiny, exact, huge) share tiny segments; rounds of publishing, flushing, virtual time, retention checks, restarts and crashes at file operations. The monitor knows every record's size and age: nothing may go while the topic is within its limits; afterwards the rest must be within the limit up to one segment, and not below it by more than one segment; only an oldest part goes; the first position never moves back; positions continue. Every group is drained: it gets exactly the messages from its position or the first available one. (live) publishers, readers and single-member groups run against retention under preemption and slow disk: a skipped position must be gone for good. One evaluation = one judged topic check or drained group; distinct by limits, segment size, first and last position.",
        assumptions: vec!["a storage segment holds at most STREAM_MAX_SEGMENT_SIZE bytes or one record; a record is its payload plus 24 bytes", "age is judged from the (virtual) time of the flush after a publish"],
    }
}
const REC: u64 = 24;
const CHECK: u64 = 10_000;
struct Msg {
    n: u64,
    h: u64,
    len: u64,
    at: u64,
    /// virtual time by which it was certainly on disk
    by: Option<u64>,
}
struct Top {
    name: String,
    bytes: Option<u64>,
    age: Option<u64>,
    log: BTreeMap<u64, Msg>,
    head: u64,
    last: u64,
    grp: BTreeMap<String, u64>,
    /// groups whose next messages include redeliveries, which come in any order
    messy: BTreeSet<String>,
}
impl Top {
    fn size(&self, from: u64) -> u64 {
        self.log.range(from..).map(|(_, m)| m.len).sum()
    }
}
struct World {
    tops: Vec<Top>,
    seg: u64,
    uniq: u64,
}

fn publish(ctx: &mut Ctx, srv: &Server, c: &Conn, w: &mut World, t: usize, k: u64, big: usize) -> Result<(), Fail> {
    for _ in 0..k {
        w.uniq += 1;
        let p = body(&mut ctx.rng, w.uniq, big);
        let at = srv.ctl.virtual_ms();
        let q = c.s_pub(&w.tops[t].name, &p)?;
        let tp = &mut w.tops[t];
        ensure!(q == tp.last + 1, "position", "{:?}: publish got position {} after {}", tp.name, q, tp.last);
        tp.last = q;
        tp.log.insert(q, Msg { n: w.uniq, h: hash64(&p), len: p.len() as u64 + REC, at, by: None });
    }
    Ok(())
}
/// Bring the topic to exactly `off` bytes beside its size limit. False if that cannot be done by publishing.
fn fill(ctx: &mut Ctx, srv: &Server, c: &Conn, w: &mut World, t: usize, off: i64) -> Result<bool, Fail> {
    let tp = &w.tops[t];
    let Some(lim) = tp.bytes else { return Ok(false) };
    let goal = lim as i64 + off;
    if !(0..200_000).contains(&goal) {
        return Ok(false);
    }
    let mut left = goal - tp.size(tp.head) as i64;
    if left < 3 * REC as i64 {
        return Ok(false);
    }
    while left > 0 {
        // the last record takes what is left, and no remainder is too small for one more
        let most = (*ctx.rng.pick(&[40i64, 400, 3000])).max(2 * REC as i64 + 2);
        let n = if left <= most { left } else { (ctx.rng.range(REC + 1, most as u64 + 1) as i64).min(left - REC as i64 - 1) };
        w.uniq += 1;
        let mut p = vec![0u8];
        p.extend((1..n - REC as i64).map(|i| (w.uniq as i64 * 31 + i * 7) as u8));
        let at = srv.ctl.virtual_ms();
        let q = c.s_pub(&w.tops[t].name, &p)?;
        let tp = &mut w.tops[t];
        ensure!(q == tp.last + 1, "position", "{:?}: publish got position {} after {}", tp.name, q, tp.last);
        tp.last = q;
        tp.log.insert(q, Msg { n: w.uniq, h: hash64(&p), len: p.len() as u64 + REC, at, by: None });
        left -= n;
    }
    Ok(true)
}
fn flush(srv: &Server, w: &mut World) -> Result<(), Fail> {
    srv.flushed(60)?;
    let now = srv.ctl.virtual_ms();
    for t in &mut w.tops {
        for m in t.log.values_mut() {
            m.by.get_or_insert(now);
        }
    }
    Ok(())
}

/// Observe what is available and compare with the limits. `ran`: everything was flushed before the last retention check began.
fn judge(ctx: &mut Ctx, srv: &Server, w: &mut World, ran: bool, how: &str) -> Result<(), Fail> {
    let now = srv.ctl.virtual_ms();
    for t in &mut w.tops {
        let from = if t.head > 1 && ctx.rng.chance(300) { ctx.rng.range(1, t.head) } else { 1 };
        let (last, v) = read_all(srv, &t.name, from, *ctx.rng.pick(&[3u64, 50, 500]))?;
        ensure!(last == t.last, "last", "{} ({:?}): last position is {} after {} publishes", how, t.name, last, t.last);
        if t.last == 0 {
            continue;
        }
        ensure!(!v.is_empty(), "gone", "{} ({:?}): nothing is left of {} messages", how, t.name, t.last);
        let head = v[0].seq;
        contiguous(&t.name, how, &v, head)?;
        ensure!(v.last().unwrap().seq == t.last, "gone", "{} ({:?}): the newest message readable is {} of {}", how, t.name, v.last().unwrap().seq, t.last);
        ensure!(head >= t.head, "backwards", "{} ({:?}): the first available position was {} and is now {}", how, t.name, t.head, head);
        for m in &v {
            let e = &t.log[&m.seq];
            ensure!(hash64(&m.payload) == e.h, "content", "{} ({:?}): position {} changed", how, t.name, m.seq);
        }
        let before = t.size(t.head);
        let after = t.size(head);
        let biggest = t.log.values().map(|m| m.len).max().unwrap_or(0).max(w.seg);
        let over = t.bytes.map_or(false, |b| before > b);
        // what may be gone
        let aged = t.age.map_or(t.head, |a| t.log.range(t.head..).find(|(_, m)| m.at + a >= now).map_or(t.last + 1, |(q, _)| *q));
        if head > t.head {
            if !over {
                ensure!(head <= aged, "early", "{} ({:?}, maxBytes {:?}, maxAgeMs {:?}): messages up to {} were removed; the topic had {} bytes and only messages before {} were over the age limit", how, t.name, t.bytes, t.age, head - 1, before, aged);
            } else if head > aged {
                let lim = t.bytes.unwrap();
                ensure!(after + biggest >= lim, "too much", "{} ({:?}, maxBytes {}): {} of {} bytes are left, more than a segment ({}) below the limit", how, t.name, lim, after, before, biggest);
            }
        }
        // what must be gone
        if ran {
            if let Some(lim) = t.bytes {
                ensure!(after <= lim.saturating_add(biggest), "too little", "{} ({:?}, maxBytes {}): {} of {} bytes are left after the check, more than a segment ({}) over the limit", how, t.name, lim, after, before, biggest);
            }
            if let Some(a) = t.age {
                // newest message certainly over age when the check began, and everything a segment before it
                let old = t.log.iter().filter(|(_, m)| m.by.map_or(false, |b| b.saturating_add(a).saturating_add(CHECK + 500) < now)).map(|(q, _)| *q).next_back();
                if let Some(old) = old {
                    let mut sum = 0;
                    let mut q = old;
                    while q > 0 && t.log.contains_key(&q) && sum <= biggest {
                        sum += t.log[&q].len;
                        q -= 1;
                    }
                    ensure!(head > q, "too old", "{} ({:?}, maxAgeMs {}): position {} is still there though everything up to {} is older than the limit", how, t.name, a, q, old);
                }
            }
        }
        if head > t.head {
            ctx.rep.count("messages_removed", head - t.head);
            ctx.rep.count("removals", 1);
        }
        t.log = t.log.split_off(&head);
        t.head = head;
        ctx.rep.eval(1);
        ctx.rep.distinct(hash64(format!("{:?} {:?} {} {} {}", t.bytes, t.age, w.seg, head, t.last).as_bytes()));
        ctx.rep.sample(json!({"how": how, "maxBytes": t.bytes, "maxAgeMs": t.age, "segment": w.seg, "first": head, "last": t.last, "bytes_before": before, "bytes_after": after}));
    }
    Ok(())
}

/// A group is joined and drained completely or partly; it must continue at its position or the first available message.
fn drain(ctx: &mut Ctx, srv: &Server, c: &Conn, w: &mut World, t: usize, gn: &str, part: bool, how: &str) -> Result<(), Fail> {
    let tp = &mut w.tops[t];
    if tp.last == 0 {
        return Ok(());
    }
    let fresh = !tp.grp.contains_key(gn);
    let floor = *tp.grp.entry(gn.into()).or_insert(0);
    let j = c.s_join(&tp.name, gn)?;
    let base = floor.max(tp.head - 1);
    ensure!(j.floor == base, "floor", "{} ({:?}): group {:?} with floor {} and first available position {} joined at floor {}{}", how, tp.name, gn, floor, tp.head, j.floor, if fresh { " (new group)" } else { "" });
    let mut at = base + 1;
    let messy = tp.messy.contains(gn);
    let part = part && !messy;
    let mut got: BTreeSet<u64> = BTreeSet::new();
    let stop = if part { ctx.rng.range(at, tp.last + 1) } else { u64::MAX };
    while at < stop {
        let v = match c.s_fetch(&tp.name, gn, &j, *ctx.rng.pick(&[1u32, 7, 100]), if at <= tp.last && ctx.rng.chance(300) { 1 } else { 0 })? {
            Ok(v) => v,
            Err(e) => viol!("fetch", "{} ({:?}): fetch failed: {}", how, tp.name, e),
        };
        if v.is_empty() {
            break;
        }
        if !messy {
            contiguous(&tp.name, how, &v, at)?;
        }
        for m in &v {
            ensure!(m.seq > base && got.insert(m.seq), "again", "{} ({:?}): group {:?} joined at floor {} and was given position {} (again)", how, tp.name, gn, base, m.seq);
            ensure!(tp.log.get(&m.seq).map(|e| e.h) == Some(hash64(&m.payload)), "content", "{} ({:?}): fetched position {} has other bytes", how, tp.name, m.seq);
            if let Err(e) = c.s_ack(&tp.name, gn, &j, m.seq)? {
                viol!("ack", "{} ({:?}): ack of {} failed: {}", how, tp.name, m.seq, e);
            }
        }
        at += v.len() as u64;
    }
    if at <= tp.last && at < stop {
        viol!("stall", "{} ({:?}): group {:?} stopped at {} of {}..{}", how, tp.name, gn, at - 1, tp.head, tp.last);
    }
    ensure!(c.s_leave(&tp.name, gn, &j)?.is_ok(), "leave", "leave failed");
    tp.grp.insert(gn.into(), at - 1);
    tp.messy.remove(gn);
    let (_, gm) = groups(srv, &tp.name)?;
    ensure!(gm.get(gn).map(|x| x.0) == Some(at - 1), "floor", "{} ({:?}): group {:?} acknowledged everything up to {} and lists {:?}", how, tp.name, gn, at - 1, gm.get(gn));
    ctx.rep.eval(1);
    Ok(())
}

fn limits_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let seg = *ctx.rng.pick(&[1u64, 300, 1500, 6000, 1 << 30]);
    let def_bytes = *ctx.rng.pick(&[500u64, 5000, 1 << 40]);
    let def_age = *ctx.rng.pick(&[30_000u64, 1 << 40]);
    let max_pending = *ctx.rng.pick(&[1u64, 6, 25, 100_000]);
    let cfg = Cfg::frozen()
        .set("STREAM_MAX_SEGMENT_SIZE", seg)
        .set("STREAM_RAM_SOFT_LIMIT", *ctx.rng.pick(&[0u64, 4, 1000]))
        .set("STREAM_MAX_OPEN_FILES", *ctx.rng.pick(&[1u64, 2, 256]))
        .set("STREAM_RETENTION_CHECK_MS", CHECK)
        .set("STREAM_DEFAULT_RETENTION_BYTES", def_bytes)
        .set("STREAM_DEFAULT_RETENTION_AGE_MS", def_age)
        .set("STREAM_ACK_WAIT_MS", 1_000_000_000_000u64)
        .set("STREAM_MAX_ACK_PENDING", max_pending)
        .set("STREAM_MAX_DELIVERIES", 100_000);
    let rounds = if ctx.thorough { ctx.rng.range(6, 40) } else { ctx.rng.range(6, 16) };
    ctx.server(cfg, |ctx, srv| {
        let mut c = srv.conn()?;
        let mut w = World { tops: vec![], seg, uniq: 0 };
        let nt = ctx.rng.range(1, 4);
        for i in 0..nt {
            let b = match ctx.rng.below(8) {
                0 => None,
                1 => Some(0u64),
                2 => Some(u64::MAX),
                3 => Some(1),
                _ => Some(ctx.rng.range(100, 20_000)),
            };
            let a = match ctx.rng.below(6) {
                0 => None,
                1 | 2 => Some(0u64),
                3 => Some(*ctx.rng.pick(&[u64::MAX, i64::MAX as u64, 1 << 62, 60_000_000_000_000])),
                _ => Some(ctx.rng.range(1, 60) * 1000),
            };
            let mut o = vec![];
            if let Some(a) = a {
                o.push(format!("\"maxAgeMs\":{}", a));
            }
            if let Some(b) = b {
                o.push(format!("\"maxBytes\":{}", b));
            }
            let opts = if a.is_none() && b.is_none() && ctx.rng.chance(500) { "{}".into() } else { format!("{{\"retention\":{{{}}}}}", o.join(",")) };
            let name = format!("rt{}", i);
            ensure!(c.s_create(&name, &opts)? == Resp::Ok, "reply", "create with {} failed", opts);
            let f = |x: Option<u64>, d: u64| match x {
                None => Some(d),
                Some(0) => None,
                x => x,
            };
            ctx.t(format!("{} {} seg {}", name, opts, seg));
            w.tops.push(Top { name, bytes: f(b, def_bytes), age: f(a, def_age), log: BTreeMap::new(), head: 1, last: 0, grp: BTreeMap::new(), messy: BTreeSet::new() });
        }
        for round in 0..rounds {
            let how = format!("round {}", round);
            for _ in 0..ctx.rng.range(1, 6) {
                let t = ctx.rng.below(w.tops.len() as u64) as usize;
                match ctx.rng.below(10) {
                    0..=4 => {
                        let k = ctx.rng.range(1, 60);
                        let big = *ctx.rng.pick(&[20usize, 300, 5000]);
                        publish(ctx, srv, &c, &mut w, t, k, big)?;
                    }
                    5 => flush(srv, &mut w)?,
                    6 => {
                        flush(srv, &mut w)?;
                        srv.flushed(ctx.rng.range(1, 20) * 1000)?;
                        judge(ctx, srv, &mut w, false, &how)?;
                    }
                    7 | 8 => {
                        let g = format!("g{}", ctx.rng.below(3));
                        let part = ctx.rng.chance(600);
                        judge(ctx, srv, &mut w, false, &how)?;
                        drain(ctx, srv, &c, &mut w, t, &g, part, &how)?;
                    }
                    _ => {
                        // deliver without acknowledging: the holder keeps messages that retention may take away
                        judge(ctx, srv, &mut w, false, &how)?;
                        let tp = &mut w.tops[t];
                        if tp.last > 0 {
                            let x = srv.conn()?;
                            let g = format!("g{}", ctx.rng.below(3));
                            let j = x.s_join(&tp.name, &g)?;
                            tp.grp.entry(g.clone()).or_insert(0);
                            let clean = !tp.messy.contains(&g);
                            tp.messy.insert(g.clone());
                            let mut held: BTreeSet<u64> = BTreeSet::new();
                            for _ in 0..ctx.rng.range(1, 3) {
                                if let Ok(v) = x.s_fetch(&tp.name, &g, &j, ctx.rng.range(1, 50) as u32, 0)? {
                                    held.extend(v.iter().map(|m| m.seq));
                                }
                            }
                            publish(ctx, srv, &c, &mut w, t, 20, 300)?;
                            flush(srv, &mut w)?;
                            srv.flushed(CHECK + 100)?;
                            judge(ctx, srv, &mut w, false, &how)?;
                            // what was removed no longer counts as held, and the member goes on behind it
                            let tp = &w.tops[t];
                            let most = held.last().copied().unwrap_or(0);
                            if held.range(..tp.head).next().is_some() {
                                ctx.rep.count("held_messages_removed", held.range(..tp.head).count() as u64);
                            }
                            held = held.split_off(&tp.head);
                            let (_, gm) = groups(srv, &tp.name)?;
                            ensure!(gm.get(&g).map(|x| x.1) == Some(held.len() as u64), "held", "{} ({:?}): a member of {:?} holds {:?} with {} the first available position, the listing says {:?} (floor, pending)", how, tp.name, g, held, tp.head, gm.get(&g));
                            let v = match x.s_fetch(&tp.name, &g, &j, 1, 0)? {
                                Ok(v) => v,
                                Err(e) => viol!("fetch", "{} ({:?}): the fetch of a member whose messages were removed failed: {}", how, tp.name, e),
                            };
                            if held.len() as u64 >= max_pending {
                                ensure!(v.is_empty(), "limit", "{} ({:?}): a member holding {} messages (at most {}) was given another", how, tp.name, held.len(), max_pending);
                            } else if clean || most.max(tp.head - 1) < tp.last {
                                let due = (most + 1).max(tp.head);
                                ensure!(!v.is_empty(), "stall", "{} ({:?}): a member of {:?} that was given positions up to {} gets nothing though {}..{} are available", how, tp.name, g, most, due, tp.last);
                                ensure!(!clean || most == 0 || v[0].seq == due, "skip", "{} ({:?}): a member of {:?} that was given positions up to {} goes on at {} instead of {}", how, tp.name, g, most, v[0].seq, due);
                            }
                            x.close();
                            srv.quiet();
                        }
                    }
                }
            }
            if ctx.rng.chance(250) {
                // crash, often in the middle of a retention check
                let crash = ctx.rng.chance(600);
                if crash {
                    flush(srv, &mut w)?;
                    srv.ctl.crash_after(ctx.rng.below(12) as i64, 0);
                    srv.adv(CHECK);
                    for _ in 0..5 {
                        srv.settle();
                        if !srv.alive() {
                            ctx.rep.count("crashes_at_file_operations", 1);
                            break;
                        }
                    }
                } else {
                    srv.flushed(500)?;
                }
                if srv.alive() {
                    srv.kill();
                }
                srv.restart()?;
                c = srv.conn()?;
                ctx.rep.count("restarts", 1);
                for t in &mut w.tops {
                    // saved floors: C14 judges them; here the listing is the new reference
                    let (last, gm) = groups(srv, &t.name)?;
                    ensure!(last == t.last, "last", "{} after restart ({:?}): last position {} of {}", how, t.name, last, t.last);
                    t.grp = gm.into_iter().map(|(k, v)| (k, v.0)).collect();
                }
                srv.quiet();
                judge(ctx, srv, &mut w, false, &format!("{} after restart", how))?;
                continue;
            }
            flush(srv, &mut w)?;
            srv.flushed(CHECK + 100)?;
            judge(ctx, srv, &mut w, true, &how)?;
            // at the limit, and a few bytes beside it
            let mut any = false;
            for t in 0..w.tops.len() {
                if ctx.rng.chance(500) {
                    let off = *ctx.rng.pick(&[0i64, 0, 0, 1, -1, 24, -24]);
                    if fill(ctx, srv, &c, &mut w, t, off)? {
                        any = true;
                        ctx.rep.count(if off == 0 { "topics_exactly_at_limit" } else { "topics_just_beside_limit" }, 1);
                    }
                }
            }
            if any {
                flush(srv, &mut w)?;
                srv.flushed(CHECK + 100)?;
                judge(ctx, srv, &mut w, true, &format!("{} near the limit", how))?;
            }
        }
        for t in 0..w.tops.len() {
            for g in 0..3 {
                drain(ctx, srv, &c, &mut w, t, &format!("g{}", g), false, "at the end")?;
            }
        }
        Ok(())
    })
}

/// Everything at once: nobody may miss a message that is still available.
fn live_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let seg = *ctx.rng.pick(&[200u64, 1000, 4000]);
    let lim = ctx.rng.range(1000, 12_000);
    let cfg = Cfg::frozen()
        .set("STREAM_MAX_SEGMENT_SIZE", seg)
        .set("STREAM_RAM_SOFT_LIMIT", *ctx.rng.pick(&[0u64, 3, 30]))
        .set("STREAM_MAX_OPEN_FILES", *ctx.rng.pick(&[1u64, 256]))
        .set("STREAM_EVICTION_INTERVAL_MS", 20)
        .set("STREAM_RETENTION_CHECK_MS", 100)
        .set("STREAM_ACK_WAIT_MS", 1_000_000_000_000u64);
    ctx.server(cfg, |ctx, srv| {
        let c = srv.conn()?;
        ensure!(c.s_create("lv", &format!("{{\"retention\":{{\"maxBytes\":{},\"maxAgeMs\":0}}}}", lim))? == Resp::Ok, "reply", "create failed");
        let total = ctx.rng.range(300, if ctx.thorough { 6000 } else { 2500 });
        let ncons = ctx.rng.range(1, 3) as usize;
        let mut conns = vec![];
        for _ in 0..ncons + 3 {
            conns.push(srv.conn()?);
        }
        srv.ctl.preempt(ctx.rng.range(100, 600), ctx.rng.range(200, 1500));
        if ctx.rng.chance(500) {
            srv.ctl.io_delay(ctx.rng.range(10, 200), ctx.rng.range(100, 2000));
        }
        let hashes: Mutex<Vec<u64>> = Mutex::new(vec![0]);
        let done = AtomicBool::new(false);
        let left = AtomicU64::new(ncons as u64 + 2);
        let errs: Mutex<Vec<Fail>> = Mutex::new(vec![]);
        // (what, first skipped, last skipped)
        let skips: Mutex<Vec<(String, u64, u64)>> = Mutex::new(vec![]);
        let mut rngs: Vec<_> = (0..ncons + 3).map(|_| ctx.rng.fork()).collect();
        let srv_ref: &Server = srv;
        std::thread::scope(|sc| {
            {
                let (mut r, c, hashes, done, errs, left) = (rngs.remove(0), conns.remove(0), &hashes, &done, &errs, &left);
                sc.spawn(move || {
                    let mut f = || -> Result<(), Fail> {
                        for i in 1..=total {
                            let p = body(&mut r, i, 200);
                            hashes.lock().unwrap().push(hash64(&p));
                            let q = c.s_pub("lv", &p)?;
                            ensure!(q == i, "position", "publish {} got position {}", i, q);
                        }
                        Ok(())
                    };
                    if let Err(e) = f() {
                        errs.lock().unwrap().push(e);
                    }
                    done.store(true, SeqCst);
                    left.fetch_sub(1, SeqCst);
                });
            }
            for k in 0..ncons {
                let (mut r, c, hashes, done, errs, left, skips) = (rngs.remove(0), conns.remove(0), &hashes, &done, &errs, &left, &skips);
                sc.spawn(move || {
                    let mut f = || -> Result<(), Fail> {
                        let gn = format!("g{}", k);
                        let j = c.s_join("lv", &gn)?;
                        let mut at = 1u64;
                        let slow = r.chance(500);
                        let t0 = Instant::now();
                        while at <= total {
                            let fin = done.load(SeqCst);
                            let v = match c.s_fetch("lv", &gn, &j, r.range(1, 40) as u32, if r.chance(500) { 20 } else { 0 })? {
                                Ok(v) => v,
                                Err(e) => viol!("fetch", "fetch failed: {}", e),
                            };
                            if v.is_empty() && fin && t0.elapsed() > Duration::from_secs(60) {
                                viol!("stall", "group {} got nothing beyond {} of {} for a minute", gn, at - 1, total);
                            }
                            for m in v {
                                ensure!(m.seq >= at, "again", "group {}: position {} was delivered after {}", gn, m.seq, at - 1);
                                ensure!(hashes.lock().unwrap()[m.seq as usize] == hash64(&m.payload), "content", "position {} has other bytes", m.seq);
                                if m.seq > at {
                                    skips.lock().unwrap().push((gn.clone(), at, m.seq - 1));
                                }
                                at = m.seq + 1;
                                // the message may be removed while it is held
                                let _ = c.s_ack("lv", &gn, &j, m.seq)?;
                            }
                            if slow {
                                std::thread::sleep(Duration::from_millis(r.range(1, 20)));
                            }
                        }
                        Ok(())
                    };
                    if let Err(e) = f() {
                        errs.lock().unwrap().push(e);
                    }
                    left.fetch_sub(1, SeqCst);
                });
            }
            {
                let (mut r, done, errs, left, skips, hashes) = (rngs.remove(0), &done, &errs, &left, &skips, &hashes);
                sc.spawn(move || {
                    let mut f = || -> Result<(), Fail> {
                        let mut head = 1u64;
                        while !done.load(SeqCst) {
                            let from = if r.chance(500) { 1 } else { head + r.below(50) };
                            let (last, v) = read(srv_ref, "lv", from, r.range(1, 100))?;
                            if v.is_empty() {
                                ensure!(from > last, "gap", "a read from {} returned nothing, last position {}", from, last);
                                continue;
                            }
                            let first = v[0].seq;
                            ensure!(first >= from, "before", "a read from {} returned position {}", from, first);
                            contiguous("lv", "a read", &v, first)?;
                            for m in &v {
                                ensure!(num(&m.payload) == Some(m.seq) && hashes.lock().unwrap()[m.seq as usize] == hash64(&m.payload), "content", "position {} has other bytes", m.seq);
                            }
                            if first > from {
                                skips.lock().unwrap().push(("reader".into(), from, first - 1));
                                head = head.max(first);
                            } else if from < head {
                                viol!("backwards", "position {} is readable again after {} was the first available", from, head);
                            }
                        }
                        Ok(())
                    };
                    if let Err(e) = f() {
                        errs.lock().unwrap().push(e);
                    }
                    left.fetch_sub(1, SeqCst);
                });
            }
            let mut r = rngs.remove(0);
            while left.load(SeqCst) > 0 && errs.lock().unwrap().is_empty() {
                srv_ref.adv(r.range(5, 60));
                std::thread::sleep(Duration::from_millis(r.range(1, 5)));
                // what was skipped must be gone for good
                let sk: Vec<_> = std::mem::take(&mut *skips.lock().unwrap());
                for (who, a, b) in sk {
                    ctx.rep.count("skips_over_removed", 1);
                    ctx.rep.eval(1);
                    ctx.rep.distinct(hash64(format!("{} {} {}", b - a, b % 64, seg).as_bytes()));
                    match read(srv_ref, "lv", b, 1) {
                        Ok((_, v)) => {
                            if let Some(m) = v.first() {
                                if m.seq <= b {
                                    errs.lock().unwrap().push(Fail::v("skipped", format!("{} skipped positions {}..{} although {} is still available", who, a, b, m.seq)));
                                }
                            }
                        }
                        Err(e) => errs.lock().unwrap().push(e),
                    }
                }
            }
            done.store(true, SeqCst);
            if !errs.lock().unwrap().is_empty() {
                for c in &conns {
                    c.close();
                }
            }
            while left.load(SeqCst) > 0 {
                srv_ref.adv(50);
                std::thread::sleep(Duration::from_millis(5));
            }
        });
        if let Some(e) = errs.into_inner().unwrap().into_iter().next() {
            return Err(e);
        }
        srv.ctl.calm();
        srv.flushed(300)?;
        let (last, v) = read_all(srv, "lv", 1, 500)?;
        ensure!(last == total && !v.is_empty() && v.last().unwrap().seq == total, "gone", "the newest messages are gone: last {} of {}", last, total);
        contiguous("lv", "the final read", &v, v[0].seq)?;
        let left: u64 = v.iter().map(|m| m.payload.len() as u64 + REC).sum();
        let b = seg.max(300);
        ensure!(left <= lim + b, "too little", "{} bytes are left, limit {}", left, lim);
        ensure!(v[0].seq == 1 || left + b >= lim, "too much", "{} bytes are left, limit {}", left, lim);
        let used: BTreeSet<u64> = v.iter().map(|m| m.seq).collect();
        ctx.rep.eval(used.len() as u64);
        Ok(())
    })
}
