//! C12 (delivery within groups), C13 (floor, ownership, fencing, seek).
use super::stream::{body, clock, groups, num};
use crate::client::*;
use crate::proto::*;
use crate::report::Fail;
use crate::rng::{hash64, Rng};
use crate::run::{Ctx, Spec};
use crate::server::{Cfg, Server};
use crate::{ensure, viol};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn spec_delivery() -> Spec {
    Spec {
        scenarios: vec![("model", 3, |c| model_scn(c, false)), ("share", 3, share_scn)],
        par: 4,
        quick_s: 40,
        thorough_s: 400,
        level: "exploration",
        rule: "(model) random programs of publish / join / fetch / ack / leave / disconnect / timeout / seek / restart over several groups and topics in virtual time, with evicted (cold) messages, judged step by step against a reference model of a group: every fetched message must be a due redelivery or the next fresh one, payloads exact, never one that is held or finished, never more than the limit or max_ack_pending, never empty while something is due; floors and pending counts equal the model's. (share) members fetching, acknowledging, leaving and dropping their connection concurrently under injected preemption: no message held by two members without a release in between, none delivered after its acknowledgement, none more than max_deliveries times, none lost (drained at the end), pending never above the limit. One evaluation = one judged fetch / acknowledgement / message history; distinct by configuration and event pattern.",
        assumptions: vec!["the order among redelivered messages is unspecified", "acknowledgements above the floor are not persisted: after a restart those messages may be delivered again"],
    }
}
pub fn spec_floor() -> Spec {
    Spec {
        scenarios: vec![("model", 3, |c| model_scn(c, true)), ("share", 2, share_scn), ("seek", 2, seek_scn)],
        par: 4,
        quick_s: 40,
        thorough_s: 400,
        level: "exploration",
        rule: "(model) as in C12 with the weight on acknowledgements by owners, non-owners, strangers, former and fenced members, out-of-order and repeated ones, leaves, seeks and restarts; every outcome and every reported floor must equal the model's. (share) concurrent: at every snapshot the floor lies between what was surely finished and what could have been. (seek) a seeker races members and publishers: what an earlier member sends after the seek is rejected, a member joined after it receives exactly the first position on, respectively only what was published after it. One evaluation = one judged outcome or floor; distinct by configuration and event pattern.",
        assumptions: vec!["a waiting fetch that finds itself outside the group may answer an empty batch instead of an error"],
    }
}

struct Mem {
    conn: usize,
    j: Joined,
    alive: bool,
}
struct P {
    mem: usize,
    at: u64,
    n: u32,
}
struct G {
    topic: usize,
    name: String,
    exists: bool,
    floor: u64,
    next: u64,
    fin: BTreeSet<u64>,
    pend: BTreeMap<u64, P>,
    redel: BTreeMap<u64, u32>,
    mems: Vec<Mem>,
}
impl G {
    fn advance(&mut self) {
        while self.fin.remove(&(self.floor + 1)) {
            self.floor += 1;
        }
    }
    fn release(&mut self, seq: u64, max: u32) {
        let p = self.pend.remove(&seq).unwrap();
        if p.n >= max {
            self.fin.insert(seq);
        } else {
            self.redel.insert(seq, p.n);
        }
        self.advance();
    }
    fn drop_member(&mut self, i: usize, max: u32) {
        self.mems[i].alive = false;
        let held: Vec<u64> = self.pend.iter().filter(|(_, p)| p.mem == i).map(|(s, _)| *s).collect();
        for s in held {
            self.release(s, max);
        }
    }
    fn reset(&mut self, floor: u64) {
        self.floor = floor;
        self.next = floor + 1;
        self.fin.clear();
        self.pend.clear();
        self.redel.clear();
        for m in &mut self.mems {
            m.alive = false;
        }
    }
}
struct World {
    max_pend: usize,
    ack_wait: u64,
    max_del: u32,
    logs: Vec<Vec<(Vec<u8>, Option<u64>)>>,
    names: Vec<String>,
    gs: Vec<G>,
}
impl World {
    fn expire(&mut self, now: u64) -> usize {
        let mut k = 0;
        for g in &mut self.gs {
            let v: Vec<u64> = g.pend.iter().filter(|(_, p)| now - p.at > self.ack_wait).map(|(s, _)| *s).collect();
            k += v.len();
            for s in v {
                g.release(s, self.max_del);
            }
        }
        k
    }
    /// Floors and pending counts as reported must be the model's; `due` = a change is on its way.
    fn compare(&self, ctx: &Ctx, srv: &Server, due: bool) -> Result<(), Fail> {
        let end = Instant::now() + ctx.patience;
        'retry: loop {
            for (t, name) in self.names.iter().enumerate() {
                let (last, gm) = groups(srv, name)?;
                ensure!(last == self.logs[t].len() as u64, "last", "{:?} reports last position {} after {} publishes", name, last, self.logs[t].len());
                for g in self.gs.iter().filter(|g| g.topic == t) {
                    let got = gm.get(&g.name).copied();
                    let want = if g.exists { Some((g.floor, g.pend.len() as u64)) } else { None };
                    if got != want {
                        if due && Instant::now() < end {
                            std::thread::sleep(Duration::from_millis(3));
                            continue 'retry;
                        }
                        let m = format!("group {:?} of {:?} reports (floor, pending) = {:?}, the model has {:?} (finished above the floor: {:?}, due for redelivery: {:?})", g.name, name, got, want, g.fin, g.redel.keys().collect::<Vec<_>>());
                        return Err(if due { Fail::Suspect(m) } else { Fail::v("floor", m) });
                    }
                }
                ensure!(gm.len() == self.gs.iter().filter(|g| g.topic == t && g.exists).count(), "groups", "{:?} lists groups {:?} which nobody created", name, gm.keys().collect::<Vec<_>>());
            }
            ctx.rep.eval(1);
            return Ok(());
        }
    }
}

fn model_scn(ctx: &mut Ctx, floors: bool) -> Result<(), Fail> {
    let max_pend = *ctx.rng.pick(&[1u64, 3, 10, 10000, 10000]);
    let ack_wait = *ctx.rng.pick(&[300u64, 1000, 5000, 30000]);
    let max_del = *ctx.rng.pick(&[1u64, 2, 3, 5, 100]) as u32;
    let ram = *ctx.rng.pick(&[0u64, 2, 5, 1000]);
    let seg = *ctx.rng.pick(&[100u64, 1000, 1 << 30]);
    let cfg = Cfg::frozen()
        .set("STREAM_MAX_ACK_PENDING", max_pend)
        .set("STREAM_ACK_WAIT_MS", ack_wait)
        .set("STREAM_MAX_DELIVERIES", max_del)
        .set("STREAM_RAM_SOFT_LIMIT", ram)
        .set("STREAM_MAX_SEGMENT_SIZE", seg);
    ctx.t(format!("max_pend {} ack_wait {} max_del {} ram {} seg {}", max_pend, ack_wait, max_del, ram, seg));
    let steps = if ctx.thorough { 900 } else { 350 };
    ctx.server(cfg, |ctx, srv| {
        let nt = ctx.rng.range(1, 2) as usize;
        let ng = ctx.rng.range(1, 3) as usize;
        let mut conns: Vec<Option<Conn>> = vec![];
        let admin = srv.conn()?;
        let mut w = World { max_pend: max_pend as usize, ack_wait, max_del, logs: vec![vec![]; nt], names: (0..nt).map(|i| format!("t{}", i)).collect(), gs: vec![] };
        for t in 0..nt {
            ensure!(admin.s_create(&w.names[t], "{}")? == Resp::Ok, "reply", "create failed");
            for g in 0..ng {
                // the same group name on two topics is two groups
                w.gs.push(G { topic: t, name: format!("g{}", g), exists: false, floor: 0, next: 1, fin: BTreeSet::new(), pend: BTreeMap::new(), redel: BTreeMap::new(), mems: vec![] });
            }
        }
        let mut uniq = 1;
        let mut admin = admin;
        for step in 0..steps {
            let gi = ctx.rng.below(w.gs.len() as u64) as usize;
            let t = w.gs[gi].topic;
            let tn = w.names[t].clone();
            let gn = w.gs[gi].name.clone();
            let live: Vec<usize> = (0..w.gs[gi].mems.len()).filter(|i| w.gs[gi].mems[*i].alive).collect();
            let r = ctx.rng.below(1000);
            let open = |conns: &mut Vec<Option<Conn>>, srv: &Server, rng: &mut Rng| -> Result<usize, Fail> {
                let l: Vec<usize> = (0..conns.len()).filter(|i| conns[*i].is_some()).collect();
                if l.len() >= 4 || !l.is_empty() && rng.chance(600) {
                    return Ok(*rng.pick(&l));
                }
                conns.push(Some(srv.conn()?));
                Ok(conns.len() - 1)
            };
            if r < 200 {
                let k = ctx.rng.range(1, 12);
                for _ in 0..k {
                    let p = body(&mut ctx.rng, uniq, 300);
                    uniq += 1;
                    let s = admin.s_pub(&tn, &p)?;
                    w.logs[t].push((p, None));
                    ensure!(s == w.logs[t].len() as u64, "seq", "publish number {} to {:?} got position {}", w.logs[t].len(), tn, s);
                }
                ctx.t(format!("{} publish {} x{} -> {}", step, tn, k, w.logs[t].len()));
            } else if r < 270 || live.is_empty() && r < 500 {
                let ci = open(&mut conns, srv, &mut ctx.rng)?;
                let j = conns[ci].as_ref().unwrap().s_join(&tn, &gn)?;
                let g = &mut w.gs[gi];
                ctx.t(format!("{} join {}/{} conn {} -> floor {} gen {} member {}", step, tn, gn, ci, j.floor, j.gen, g.mems.len()));
                ensure!(j.floor == g.floor, "floor", "joining group {:?} of {:?} reports floor {}, the model has {}", gn, tn, j.floor, g.floor);
                g.exists = true;
                g.mems.push(Mem { conn: ci, j, alive: true });
                ctx.rep.eval(1);
            } else if r < 560 {
                // fetch
                if live.is_empty() {
                    continue;
                }
                let mi = *ctx.rng.pick(&live);
                let last = w.logs[t].len() as u64;
                let g = &mut w.gs[gi];
                let limit = *ctx.rng.pick(&[0u32, 1, 1, 2, 3, 5, 10, 50, u32::MAX]);
                let avail = g.redel.len() as u64 + (last + 1 - g.next);
                let room = w.max_pend.saturating_sub(g.pend.len());
                let wait = if avail > 0 && room > 0 && limit > 0 && ctx.rng.chance(300) { 5000 } else { 0 };
                // any connection may carry the request, normally the member's own
                let c = conns[g.mems[mi].conn].as_ref().unwrap();
                let v = match c.s_fetch(&tn, &gn, &g.mems[mi].j, limit, wait)? {
                    Ok(v) => v,
                    Err(e) => viol!("fetch", "fetch by an active member of {:?} failed: {}", gn, e),
                };
                ctx.t(format!("{} fetch {}/{} member {} limit {} wait {} -> {:?}", step, tn, gn, mi, limit, wait, v.iter().map(|m| m.seq).collect::<Vec<_>>()));
                ensure!(v.len() as u64 <= limit as u64, "limit", "a fetch with limit {} returned {} messages", limit, v.len());
                ensure!(v.len() <= room, "backpressure", "group {:?} holds {} unacknowledged messages and was given {} more (max_ack_pending {})", gn, g.pend.len(), v.len(), w.max_pend);
                ensure!(!v.is_empty() || avail == 0 || room == 0 || limit == 0, "starved", "a fetch of {:?}/{:?} returned nothing although {} messages are due (redeliveries {:?}, fresh {}..={})", tn, gn, avail, g.redel.keys().collect::<Vec<_>>(), g.next, last);
                let now = srv.ctl.virtual_ms();
                let mut kinds = String::new();
                for m in &v {
                    ensure!(m.seq >= 1 && m.seq <= last, "phantom", "{:?} delivered position {} of {}", tn, m.seq, last);
                    let e = &mut w.logs[t][m.seq as usize - 1];
                    ensure!(e.0 == m.payload, "content", "{:?} position {} delivered with other bytes", tn, m.seq);
                    match e.1 {
                        None => e.1 = Some(m.ts),
                        Some(x) => ensure!(x == m.ts, "timestamp", "{:?} position {}: timestamp {} became {}", tn, m.seq, x, m.ts),
                    }
                    if let Some(p) = g.pend.get(&m.seq) {
                        viol!("exclusive", "{:?}/{:?} delivered position {} to member {} while member {} holds it", tn, gn, m.seq, mi, p.mem);
                    }
                    let n = if let Some(n) = g.redel.remove(&m.seq) {
                        kinds.push('r');
                        n + 1
                    } else if m.seq == g.next {
                        kinds.push('f');
                        g.next += 1;
                        1
                    } else if m.seq < g.next {
                        viol!("again", "{:?}/{:?} delivered position {} again although it is finished (acknowledged or given up; floor {})", tn, gn, m.seq, g.floor)
                    } else {
                        viol!("order", "{:?}/{:?} delivered fresh position {} where {} is the next", tn, gn, m.seq, g.next)
                    };
                    ensure!(n <= w.max_del, "deliveries", "{:?}/{:?} delivered position {} for the {}th time (max_deliveries {})", tn, gn, m.seq, n, w.max_del);
                    g.pend.insert(m.seq, P { mem: mi, at: now, n });
                }
                ctx.rep.eval(1 + v.len() as u64);
                ctx.rep.count("messages_fetched", v.len() as u64);
                ctx.rep.distinct(hash64(format!("f{} {} {} {} {}", max_pend, max_del, ram, limit, kinds).as_bytes()));
            } else if r < 740 {
                // acknowledgements, good and bad
                let last = w.logs[t].len() as u64;
                let g = &mut w.gs[gi];
                if !g.exists || g.mems.is_empty() {
                    continue;
                }
                let bursts = ctx.rng.range(1, 6);
                for _ in 0..bursts {
                    let held: Vec<u64> = g.pend.keys().copied().collect();
                    if held.is_empty() && ctx.rng.chance(850) {
                        break;
                    }
                    let seq = match ctx.rng.below(10) {
                        0 => ctx.rng.below(last + 3),
                        1 => *ctx.rng.pick(&[0u64, u64::MAX, last + 1, g.floor]),
                        2 if !held.is_empty() => held[0],
                        _ if !held.is_empty() => *ctx.rng.pick(&held),
                        _ => ctx.rng.below(last + 2),
                    };
                    let owner = g.pend.get(&seq).map(|p| p.mem);
                    let mi = match owner {
                        Some(o) if !ctx.rng.chance(if floors { 300 } else { 150 }) => o,
                        _ => ctx.rng.below(g.mems.len() as u64) as usize,
                    };
                    let (alive, mconn) = (g.mems[mi].alive, g.mems[mi].conn);
                    let m = &g.mems[mi];
                    let mut j = m.j.clone();
                    let mut forged = false;
                    match ctx.rng.below(24) {
                        0 => {
                            j.gen = j.gen.wrapping_add(*ctx.rng.pick(&[1u64, u64::MAX]));
                            forged = true
                        }
                        1 => {
                            j.cid = "00000000-0000-4000-8000-000000000000".into();
                            forged = true
                        }
                        2 => {
                            j.cid = String::new();
                            forged = true
                        }
                        _ => {}
                    }
                    let c = conns[mconn].clone().unwrap_or_else(|| admin.clone());
                    let good = alive && !forged && owner == Some(mi);
                    let res = c.s_ack(&tn, &gn, &j, seq)?;
                    ctx.t(format!("{} ack {}/{} member {} (alive {}, forged {}) seq {} owner {:?} -> {:?}", step, tn, gn, mi, alive, forged, seq, owner, res));
                    match (&res, good) {
                        (Ok(()), true) => {
                            g.pend.remove(&seq);
                            g.fin.insert(seq);
                            g.advance();
                        }
                        (Err(_), false) => {}
                        (Ok(()), false) => viol!("ack", "{:?}/{:?}: ack of position {} by member {} (alive: {}, forged credentials: {}) succeeded though the holder is {:?}", tn, gn, seq, mi, alive, forged, owner),
                        (Err(e), true) => viol!("ack", "{:?}/{:?}: ack of position {} by its holder failed: {}", tn, gn, seq, e),
                    }
                    ctx.rep.eval(1);
                    ctx.rep.count(if good { "acks_accepted" } else { "acks_rejected" }, 1);
                    ctx.rep.distinct(hash64(format!("a{} {} {} {:?} {}", alive, forged, owner.is_some(), res.is_ok(), seq as i64 - g.floor as i64).as_bytes()));
                }
            } else if r < 790 {
                // strangers, former members
                let g = &w.gs[gi];
                let dead: Vec<usize> = (0..g.mems.len()).filter(|i| !g.mems[*i].alive).collect();
                let j = match ctx.rng.below(3) {
                    0 if !dead.is_empty() => g.mems[*ctx.rng.pick(&dead)].j.clone(),
                    1 if !live.is_empty() => {
                        let mut j = g.mems[*ctx.rng.pick(&live)].j.clone();
                        j.gen = j.gen.wrapping_add(1 + ctx.rng.below(3));
                        j
                    }
                    _ => {
                        // a member of another group, if there is one
                        let o = &w.gs[ctx.rng.below(w.gs.len() as u64) as usize];
                        if (o.topic, &o.name) == (t, &gn) || o.mems.is_empty() {
                            Joined { floor: 0, gen: 1, cid: "nobody".into() }
                        } else {
                            o.mems[0].j.clone()
                        }
                    }
                };
                let wait = *ctx.rng.pick(&[0u32, 0, 1000]);
                let backpressured = g.pend.len() >= w.max_pend;
                match admin.s_fetch(&tn, &gn, &j, 10, wait)? {
                    Err(_) => {}
                    Ok(v) => ensure!(v.is_empty() && (wait > 0 || backpressured), "stranger", "{:?}/{:?}: a fetch by somebody outside the group was answered with {} messages instead of an error", tn, gn, v.len()),
                }
                if ctx.rng.chance(500) {
                    let l = admin.s_leave(&tn, &gn, &j)?;
                    ensure!(l.is_err(), "stranger", "{:?}/{:?}: leaving without being a member succeeded", tn, gn);
                }
                ctx.t(format!("{} stranger {}/{} wait {}", step, tn, gn, wait));
                ctx.rep.eval(1);
                ctx.rep.count("stranger_requests", 1);
            } else if r < 830 {
                if live.is_empty() {
                    continue;
                }
                let mi = *ctx.rng.pick(&live);
                let c = conns[w.gs[gi].mems[mi].conn].clone().unwrap();
                let res = c.s_leave(&tn, &gn, &w.gs[gi].mems[mi].j)?;
                ensure!(res.is_ok(), "leave", "leave by an active member failed: {:?}", res);
                ctx.t(format!("{} leave {}/{} member {}", step, tn, gn, mi));
                w.gs[gi].drop_member(mi, max_del);
                w.compare(ctx, srv, false)?;
            } else if r < 865 {
                let l: Vec<usize> = (0..conns.len()).filter(|i| conns[*i].is_some()).collect();
                if l.is_empty() {
                    continue;
                }
                let ci = *ctx.rng.pick(&l);
                let c = conns[ci].take().unwrap();
                if ctx.rng.chance(500) {
                    c.close()
                } else {
                    c.reset()
                }
                c.check()?;
                ctx.t(format!("{} disconnect conn {}", step, ci));
                let mut members = vec![];
                for (k, g) in w.gs.iter_mut().enumerate() {
                    for i in 0..g.mems.len() {
                        if g.mems[i].conn == ci && g.mems[i].alive {
                            g.drop_member(i, max_del);
                            members.push((k, i));
                        }
                    }
                }
                // until the last membership is gone (probe: leaving as that member fails) the model is ahead
                let end = Instant::now() + ctx.patience;
                for (k, i) in members {
                    loop {
                        let g = &w.gs[k];
                        // an ack of position 0 can never succeed; its error tells whether the member is still there
                        match admin.s_ack(&w.names[g.topic], &g.name, &g.mems[i].j, 0)? {
                            Err(e) if e.contains("not pending") => {}
                            _ => break,
                        }
                        if Instant::now() > end {
                            return Err(Fail::Suspect("a member whose connection is gone stays in its group".into()));
                        }
                        std::thread::sleep(Duration::from_millis(2));
                    }
                }
                w.compare(ctx, srv, true)?;
            } else if r < 930 {
                let d = *ctx.rng.pick(&[110u64, 110, 110, 150, 150, 600, 600, ack_wait / 2 + 101, ack_wait + 101]);
                srv.adv(d);
                let k = w.expire(srv.ctl.virtual_ms());
                ctx.t(format!("{} advance {} ({} timeouts)", step, d, k));
                ctx.rep.count("ack_timeouts", k as u64);
                if k == 0 {
                    srv.settle();
                }
                w.compare(ctx, srv, true)?;
            } else if r < 970 {
                if !floors && !ctx.rng.chance(400) {
                    continue;
                }
                let end = ctx.rng.chance(500);
                let last = w.logs[t].len() as u64;
                let res = admin.s_seek(&tn, &gn, end)?;
                ensure!(res.is_ok(), "seek", "seek failed: {:?}", res);
                ctx.t(format!("{} seek {}/{} end={}", step, tn, gn, end));
                let g = &mut w.gs[gi];
                g.exists = true;
                g.reset(if end { last } else { 0 });
                w.compare(ctx, srv, false)?;
                ctx.rep.count("seeks", 1);
            } else if r < 980 {
                // what a timeout changes during the flush must be saved as well
                loop {
                    srv.flushed(500)?;
                    if w.expire(srv.ctl.virtual_ms()) == 0 {
                        break;
                    }
                    w.compare(ctx, srv, true)?;
                }
                srv.restart()?;
                ctx.t(format!("{} restart", step));
                conns.clear();
                admin = srv.conn()?;
                for g in &mut w.gs {
                    let f = g.floor;
                    g.reset(f);
                    g.mems.clear();
                }
                w.compare(ctx, srv, false)?;
                ctx.rep.count("restarts", 1);
            } else {
                w.compare(ctx, srv, false)?;
            }
        }
        // drain every group: all that is unfinished must still come, in order, exactly once
        for gi in 0..w.gs.len() {
            let (tn, gn, t) = (w.names[w.gs[gi].topic].clone(), w.gs[gi].name.clone(), w.gs[gi].topic);
            if !w.gs[gi].exists {
                continue;
            }
            let last = w.logs[t].len() as u64;
            for i in 0..w.gs[gi].mems.len() {
                if w.gs[gi].mems[i].alive {
                    let c = conns[w.gs[gi].mems[i].conn].clone().unwrap();
                    c.s_leave(&tn, &gn, &w.gs[gi].mems[i].j)?.ok();
                    w.gs[gi].drop_member(i, max_del);
                }
            }
            let j = admin.s_join(&tn, &gn)?;
            let g = &mut w.gs[gi];
            ensure!(j.floor == g.floor, "floor", "joining group {:?} of {:?} reports floor {}, the model has {}", gn, tn, j.floor, g.floor);
            loop {
                let v = match admin.s_fetch(&tn, &gn, &j, 7, 0)? {
                    Ok(v) => v,
                    Err(e) => viol!("fetch", "final fetch failed: {}", e),
                };
                if v.is_empty() {
                    break;
                }
                for m in v {
                    if g.redel.remove(&m.seq).is_none() {
                        ensure!(m.seq == g.next, "drain", "{:?}/{:?}: the final drain delivered position {} (next fresh is {}, finished above floor {}: {:?})", tn, gn, m.seq, g.next, g.floor, g.fin);
                        g.next += 1;
                    }
                    ensure!(w.logs[t][m.seq as usize - 1].0 == m.payload, "content", "{:?} position {} delivered with other bytes", tn, m.seq);
                    ensure!(admin.s_ack(&tn, &gn, &j, m.seq)?.is_ok(), "ack", "final ack failed");
                    g.fin.insert(m.seq);
                    g.advance();
                }
            }
            ensure!(g.redel.is_empty() && g.next == last + 1, "lost", "{:?}/{:?}: the final drain ended with positions {:?} and {}..={} never delivered", tn, gn, g.redel.keys().collect::<Vec<_>>(), g.next, last);
            ctx.rep.eval(1);
        }
        w.compare(ctx, srv, false)?;
        ctx.rep.sample(json!({"scenario": "model", "steps": steps, "max_ack_pending": max_pend, "ack_wait": ack_wait, "max_deliveries": max_del, "ram": ram, "segment": seg, "messages": w.logs.iter().map(|l| l.len()).collect::<Vec<_>>()}));
        Ok(())
    })
}

// ------------------------------------------------------------------ share
struct Dl {
    cid: usize,
    seq: u64,
    /// real time and virtual time of the fetch
    call: u64,
    ret: u64,
    vcall: u64,
    vret: u64,
}
struct Ak {
    cid: usize,
    seq: u64,
    call: u64,
    ret: u64,
    vcall: u64,
    vret: u64,
    ok: Option<bool>,
}
#[derive(Default)]
struct Hist {
    dl: Vec<Dl>,
    ak: Vec<Ak>,
    /// member -> (virtual, real) time at which it began to leave; and real time when the leave was answered
    gone: BTreeMap<usize, u64>,
    /// (call, ret, floor, pending)
    snaps: Vec<(u64, u64, u64, u64)>,
    /// fetches whose answer never arrived
    lost: u64,
    fetches: Vec<(u64, u64, Vec<u64>)>,
}

fn share_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let max_pend = *ctx.rng.pick(&[4u64, 20, 10000]);
    let timeouts = ctx.rng.chance(400);
    let ack_wait = if timeouts { 400u64 } else { 100_000_000 };
    let max_del = *ctx.rng.pick(&[2u64, 3, 6, 1000]) as u32;
    let ram = *ctx.rng.pick(&[0u64, 5, 1000]);
    let cfg = Cfg::frozen()
        .set("STREAM_MAX_ACK_PENDING", max_pend)
        .set("STREAM_ACK_WAIT_MS", ack_wait)
        .set("STREAM_MAX_DELIVERIES", max_del)
        .set("STREAM_RAM_SOFT_LIMIT", ram)
        .set("STREAM_EVICTION_INTERVAL_MS", 50)
        .set("STREAM_MAX_SEGMENT_SIZE", *ctx.rng.pick(&[300u64, 1 << 30]));
    ctx.t(format!("max_pend {} timeouts {} max_del {} ram {}", max_pend, timeouts, max_del, ram));
    ctx.server(cfg, |ctx, srv| {
        let rounds = if ctx.thorough { 12 } else { 3 };
        for round in 0..rounds {
            let tn = format!("sh{}", round);
            let admin = srv.conn()?;
            ensure!(admin.s_create(&tn, "{}")? == Resp::Ok, "reply", "create failed");
            let us = clock();
            let nm = ctx.rng.range(2, 5) as usize;
            let np = ctx.rng.range(1, 2) as usize;
            let per = ctx.rng.range(40, 160);
            if ctx.rng.chance(700) {
                srv.ctl.preempt(ctx.rng.range(60, 500), ctx.rng.range(200, 3000));
            }
            let hist = Mutex::new(Hist::default());
            let cids = AtomicU64::new(0);
            let uniq = AtomicU64::new(1);
            let sent: Mutex<HashMap<u64, (u64, Vec<u8>)>> = Mutex::new(HashMap::new());
            let publishing = AtomicU64::new(np as u64);
            let working = AtomicU64::new(nm as u64);
            let errs: Mutex<Vec<Fail>> = Mutex::new(vec![]);
            let mut rngs: Vec<Rng> = (0..np + nm + 1).map(|_| ctx.rng.fork()).collect();
            let s: &Server = srv;
            let keep = ctx.rng.range(0, 700);
            std::thread::scope(|sc| {
                for _ in 0..np {
                    let mut r = rngs.remove(0);
                    let (tn, uniq, sent, publishing, errs) = (&tn, &uniq, &sent, &publishing, &errs);
                    sc.spawn(move || {
                        let mut run = || -> Result<(), Fail> {
                            let c = s.conn()?;
                            for _ in 0..per {
                                let n = uniq.fetch_add(1, SeqCst);
                                let p = body(&mut r, n, 100);
                                let q = c.s_pub(tn, &p)?;
                                sent.lock().unwrap().insert(q, (n, p));
                                if r.chance(100) {
                                    std::thread::sleep(Duration::from_millis(r.below(4)));
                                }
                            }
                            Ok(())
                        };
                        if let Err(e) = run() {
                            errs.lock().unwrap().push(e);
                        }
                        publishing.fetch_sub(1, SeqCst);
                    });
                }
                for _ in 0..nm {
                    let mut r = rngs.remove(0);
                    let (tn, publishing, errs, hist, cids, working) = (&tn, &publishing, &errs, &hist, &cids, &working);
                    sc.spawn(move || {
                        let mut run = || -> Result<(), Fail> {
                            let mut idle = 0;
                            'conn: loop {
                                let c = s.conn()?;
                                'join: loop {
                                    let j = c.s_join(tn, "g")?;
                                    let me = cids.fetch_add(1, SeqCst) as usize;
                                    let mut held: Vec<u64> = vec![];
                                    loop {
                                        if publishing.load(SeqCst) == 0 {
                                            idle += 1;
                                            if idle > 12 {
                                                hist.lock().unwrap().gone.insert(me, us());
                                                if r.chance(500) {
                                                    let _ = c.s_leave(tn, "g", &j)?;
                                                }
                                                c.check()?;
                                                c.close();
                                                return Ok(());
                                            }
                                        }
                                        let k = r.below(100);
                                        if k < 4 {
                                            hist.lock().unwrap().gone.insert(me, us());
                                            let l = c.s_leave(tn, "g", &j)?;
                                            ensure!(l.is_ok(), "leave", "leave by a member failed: {:?}", l);
                                            // a left member can do nothing any more
                                            if let Some(q) = held.first() {
                                                let a = c.s_ack(tn, "g", &j, *q)?;
                                                ensure!(a.is_err(), "ack", "an ack by a member that had left succeeded");
                                            }
                                            continue 'join;
                                        }
                                        if k < 7 {
                                            hist.lock().unwrap().gone.insert(me, us());
                                            if r.chance(500) {
                                                // leave in the middle of a fetch
                                                c.send(S_FETCH, &enc_fetch(tn, "g", &j, 5, *r.pick(&[0u32, 100])));
                                                hist.lock().unwrap().lost += 1;
                                            }
                                            if r.chance(500) {
                                                c.close()
                                            } else {
                                                c.reset()
                                            }
                                            continue 'conn;
                                        }
                                        if k < 60 {
                                            let lim = *r.pick(&[1u32, 2, 5, 20]);
                                            let wait = *r.pick(&[0u32, 0, 50, 200]);
                                            let (call, vcall) = (us(), s.ctl.virtual_ms());
                                            let v = match c.s_fetch(tn, "g", &j, lim, wait)? {
                                                Ok(v) => v,
                                                Err(e) => viol!("fetch", "fetch by an active member failed: {}", e),
                                            };
                                            let (ret, vret) = (us(), s.ctl.virtual_ms());
                                            ensure!(v.len() <= lim as usize, "limit", "a fetch with limit {} returned {} messages", lim, v.len());
                                            let mut h = hist.lock().unwrap();
                                            for m in &v {
                                                h.dl.push(Dl { cid: me, seq: m.seq, call, ret, vcall, vret });
                                                held.push(m.seq);
                                            }
                                            h.fetches.push((call, ret, v.iter().map(|m| m.seq).collect()));
                                            if !v.is_empty() {
                                                idle = 0;
                                            }
                                        } else if !held.is_empty() {
                                            while held.len() > 30 || !held.is_empty() && r.chance(1000 - keep) {
                                                let i = if r.chance(500) { 0 } else { r.below(held.len() as u64) as usize };
                                                let q = held.remove(i);
                                                let (call, vcall) = (us(), s.ctl.virtual_ms());
                                                let a = c.s_ack(tn, "g", &j, q)?;
                                                let (ret, vret) = (us(), s.ctl.virtual_ms());
                                                hist.lock().unwrap().ak.push(Ak { cid: me, seq: q, call, ret, vcall, vret, ok: Some(a.is_ok()) });
                                            }
                                        }
                                    }
                                }
                            }
                        };
                        if let Err(e) = run() {
                            errs.lock().unwrap().push(e);
                        }
                        working.fetch_sub(1, SeqCst);
                    });
                }
                let mut r = rngs.remove(0);
                let (working, hist, errs, tn) = (&working, &hist, &errs, &tn);
                let t1 = sc.spawn(move || {
                    while working.load(SeqCst) > 0 {
                        s.adv(r.range(10, 60));
                        std::thread::sleep(Duration::from_millis(r.range(1, 4)));
                    }
                });
                sc.spawn(move || {
                    while working.load(SeqCst) > 0 {
                        let call = us();
                        match groups(s, tn) {
                            Ok((_, g)) => {
                                let ret = us();
                                if let Some((f, p)) = g.get("g") {
                                    hist.lock().unwrap().snaps.push((call, ret, *f, *p));
                                }
                            }
                            Err(e) => errs.lock().unwrap().push(e),
                        }
                        std::thread::sleep(Duration::from_millis(3));
                    }
                });
                let _ = t1;
            });
            srv.ctl.calm();
            if let Some(e) = errs.into_inner().unwrap().into_iter().next() {
                return Err(e);
            }
            let h = hist.into_inner().unwrap();
            let sent = sent.into_inner().unwrap();
            let last = sent.len() as u64;
            ensure!((1..=last).all(|q| sent.contains_key(&q)), "numbering", "positions of {:?} are not 1..{}", tn, last);
            // wait for the disconnects to be processed, then drain
            let end = Instant::now() + ctx.patience;
            loop {
                let p = groups(srv, &tn)?.1.get("g").map(|g| g.1).unwrap_or(0);
                if p == 0 {
                    break;
                }
                if Instant::now() > end {
                    return Err(Fail::Suspect(format!("{} messages stay pending although every member is gone", p)));
                }
                std::thread::sleep(Duration::from_millis(3));
            }
            let j = admin.s_join(&tn, "g")?;
            let mut drained = BTreeSet::new();
            let (f0, _) = groups(srv, &tn)?.1["g"];
            ensure!(j.floor == f0, "floor", "joining reports floor {} but the listing says {}", j.floor, f0);
            loop {
                let v = match admin.s_fetch(&tn, "g", &j, 50, 0)? {
                    Ok(v) => v,
                    Err(e) => viol!("fetch", "final fetch failed: {}", e),
                };
                if v.is_empty() {
                    break;
                }
                for m in v {
                    ensure!(drained.insert(m.seq), "exclusive", "position {} drained twice", m.seq);
                    ensure!(sent[&m.seq].1 == m.payload && num(&m.payload) == Some(sent[&m.seq].0), "content", "position {} delivered with other bytes", m.seq);
                    ensure!(m.seq > f0, "floor", "position {} was delivered although the floor was {}", m.seq, f0);
                    ensure!(admin.s_ack(&tn, "g", &j, m.seq)?.is_ok(), "ack", "final ack failed");
                }
            }
            let (f1, p1) = groups(srv, &tn)?.1["g"];
            ensure!(f1 == last && p1 == 0, "lost", "after draining, floor is {} and {} are pending; {} were published (drained {:?})", f1, p1, last, drained);
            judge(ctx, &h, &drained, last, max_del, max_pend, if timeouts { Some(ack_wait) } else { None })?;
            ctx.rep.count("deliveries", h.dl.len() as u64);
            ctx.rep.count("acks", h.ak.len() as u64);
            ctx.rep.count("snapshots", h.snaps.len() as u64);
            ctx.rep.sample(json!({"scenario": "share", "members": nm, "messages": last, "deliveries": h.dl.len(), "acks": h.ak.len(), "memberships": h.gone.len(), "timeouts": timeouts}));
        }
        Ok(())
    })
}

fn judge(ctx: &Ctx, h: &Hist, drained: &BTreeSet<u64>, last: u64, max_del: u32, max_pend: u64, ack_wait: Option<u64>) -> Result<(), Fail> {
    let mut by: BTreeMap<u64, (Vec<&Dl>, Vec<&Ak>)> = BTreeMap::new();
    for d in &h.dl {
        by.entry(d.seq).or_default().0.push(d);
    }
    for a in &h.ak {
        by.entry(a.seq).or_default().1.push(a);
    }
    for q in 1..=last {
        let (mut ds, aks) = by.remove(&q).unwrap_or_default();
        ds.sort_by_key(|d| d.ret);
        let oks: Vec<&&Ak> = aks.iter().filter(|a| a.ok == Some(true)).collect();
        ensure!(oks.len() <= 1, "ack", "position {} was acknowledged successfully {} times", q, oks.len());
        let n = ds.len() as u64 + drained.contains(&q) as u64;
        ensure!(n <= max_del as u64, "deliveries", "position {} was delivered {} times (max_deliveries {})", q, n, max_del);
        if let Some(a) = oks.first() {
            ensure!(!drained.contains(&q), "again", "position {} was delivered again after its acknowledgement had succeeded", q);
            if let Some(d) = ds.iter().find(|d| d.call > a.ret) {
                viol!("again", "position {} was delivered (to member {}) by a fetch sent after its acknowledgement had been answered", q, d.cid);
            }
        } else if !drained.contains(&q) {
            ensure!(ds.len() as u64 + h.lost >= max_del as u64, "lost", "position {} was never acknowledged, was delivered {} of {} times and is not delivered any more", q, ds.len(), max_del);
        }
        // two deliveries need a release in between
        for i in 0..ds.len() {
            for k in i + 1..ds.len() {
                let (a, b) = (ds[i], ds[k]);
                // whichever came first, its holder must have left or timed out before the other was delivered
                let free = |x: &Dl, y: &Dl| h.gone.get(&x.cid).map_or(false, |g| *g < y.ret) || ack_wait.map_or(false, |w| y.vret.saturating_sub(x.vcall) > w);
                ensure!(free(a, b) || a.call < b.ret && b.call < a.ret && free(b, a), "exclusive", "position {} was delivered to member {} and then to member {} though the first neither left nor timed out", q, a.cid, b.cid);
            }
        }
        for a in &aks {
            // the ack must succeed if the member surely held the message, and fail if it surely did not
            let held = ds.iter().filter(|d| d.cid == a.cid && d.call < a.ret).collect::<Vec<_>>();
            if a.ok == Some(true) {
                ensure!(!held.is_empty(), "ack", "position {}: an ack by a member that never received it succeeded", q);
                if let Some(d) = ds.iter().find(|d| d.cid != a.cid && d.call > held.iter().map(|x| x.ret).max().unwrap() && d.ret < a.call) {
                    if !h.gone.get(&d.cid).map_or(false, |g| *g < a.ret) && ack_wait.is_none() {
                        viol!("ack", "position {}: an ack by member {} succeeded although member {} holds it now", q, a.cid, d.cid);
                    }
                }
            } else {
                let released = ack_wait.map_or(false, |w| held.iter().any(|d| a.vret.saturating_sub(d.vcall) > w)) || aks.iter().any(|b| b.ok == Some(true) && b.cid == a.cid && b.call < a.ret);
                ensure!(released || held.is_empty(), "ack", "position {}: the ack by its holder (member {}) failed", q, a.cid);
            }
        }
        let pat: String = ds.iter().map(|d| (d.ret, 'd')).chain(aks.iter().map(|a| (a.ret, if a.ok == Some(true) { 'A' } else { 'x' }))).collect::<BTreeSet<_>>().into_iter().map(|x| x.1).collect();
        ctx.rep.distinct(hash64(format!("s{} {} {}", max_del, drained.contains(&q), pat).as_bytes()));
        ctx.rep.eval(1);
    }
    // fresh messages in order: what a fetch delivers for the first time lies after what earlier fetches did
    let mut first: BTreeMap<u64, usize> = BTreeMap::new();
    let mut fs: Vec<&(u64, u64, Vec<u64>)> = h.fetches.iter().collect();
    fs.sort_by_key(|f| f.1);
    for (i, f) in fs.iter().enumerate() {
        for q in &f.2 {
            first.entry(*q).or_insert(i);
        }
    }
    if h.lost == 0 {
        let mut top: Vec<(u64, u64)> = vec![]; // (ret, highest first-delivered so far)
        let mut hi = 0;
        for (i, f) in fs.iter().enumerate() {
            let fresh: Vec<u64> = f.2.iter().copied().filter(|q| first[q] == i).collect();
            let before = top.iter().rev().find(|t| t.0 < f.0).map(|t| t.1).unwrap_or(0);
            // a message that had been delivered before (in a fetch returning later than this one) may appear to be fresh
            for q in &fresh {
                let dup = h.dl.iter().filter(|d| d.seq == *q).count() > 1;
                ensure!(dup || *q > before || h.gone.len() > 0 && h.lost > 0, "order", "position {} was delivered for the first time after {} already had been", q, before);
            }
            hi = fresh.iter().copied().max().unwrap_or(0).max(hi);
            top.push((f.1, hi));
        }
    }
    // floors
    let mut acks: BTreeMap<u64, (u64, u64)> = BTreeMap::new();
    for a in &h.ak {
        if a.ok == Some(true) {
            acks.insert(a.seq, (a.call, a.ret));
        }
    }
    let dcount = |q: u64, t: u64| h.dl.iter().filter(|d| d.seq == q && d.call < t).count() as u64 + h.lost;
    for (call, ret, f, p) in &h.snaps {
        ensure!(*p <= max_pend, "backpressure", "{} messages were pending at once (max_ack_pending {})", p, max_pend);
        // every position up to the floor is finished
        for q in 1..=*f {
            let acked = acks.get(&q).map_or(false, |a| a.0 < *ret);
            if !acked && dcount(q, *ret) < max_del as u64 {
                viol!("floor", "the floor was reported as {} although position {} was neither acknowledged nor given up by then", f, q);
            }
        }
        // and the floor is not behind what surely is
        let mut g = *f;
        while acks.get(&(g + 1)).map_or(false, |a| a.1 < *call) {
            g += 1;
        }
        ensure!(g == *f, "floor", "the floor was reported as {} although all positions up to {} had been acknowledged before", f, g);
        ctx.rep.eval(1);
    }
    Ok(())
}

// ------------------------------------------------------------------ seek
fn seek_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let ram = *ctx.rng.pick(&[0u64, 5, 1000]);
    let cfg = Cfg::frozen().set("STREAM_RAM_SOFT_LIMIT", ram).set("STREAM_EVICTION_INTERVAL_MS", 50).set("STREAM_MAX_SEGMENT_SIZE", *ctx.rng.pick(&[300u64, 1 << 30])).set("STREAM_ACK_WAIT_MS", 100_000_000u64).set("STREAM_MAX_DELIVERIES", 1000);
    ctx.server(cfg, |ctx, srv| {
        let tn = "sk";
        let admin = srv.conn()?;
        ensure!(admin.s_create(tn, "{}")? == Resp::Ok, "reply", "create failed");
        let us = clock();
        // position -> (call, ret) of its publish
        let pubs: Mutex<BTreeMap<u64, (u64, u64)>> = Mutex::new(BTreeMap::new());
        let errs: Mutex<Vec<Fail>> = Mutex::new(vec![]);
        let uniq = AtomicU64::new(1);
        let seeks = if ctx.thorough { 60 } else { 12 };
        for i in 0..ctx.rng.range(0, 30) {
            let call = us();
            let q = admin.s_pub(tn, &body(&mut ctx.rng, 1_000_000 + i, 50))?;
            pubs.lock().unwrap().insert(q, (call, us()));
        }
        if ctx.rng.chance(700) {
            srv.ctl.preempt(ctx.rng.range(60, 500), ctx.rng.range(200, 3000));
        }
        let stop = AtomicBool::new(false);
        let seeking = AtomicU64::new(0); // completed seeks
        let started = AtomicU64::new(0);
        let waiting = AtomicU64::new(0);
        let mut rngs: Vec<Rng> = (0..6).map(|_| ctx.rng.fork()).collect();
        let s: &Server = srv;
        let rep = ctx.rep;
        let nm = ctx.rng.range(1, 3);
        std::thread::scope(|sc| {
            let (pubs, errs, uniq, stop, seeking, started, waiting) = (&pubs, &errs, &uniq, &stop, &seeking, &started, &waiting);
            waiting.store(nm, SeqCst);
            let mut r = rngs.remove(0);
            sc.spawn(move || {
                let mut run = || -> Result<(), Fail> {
                    let c = s.conn()?;
                    while !stop.load(SeqCst) {
                        let n = uniq.fetch_add(1, SeqCst);
                        let call = us();
                        let q = c.s_pub(tn, &body(&mut r, n, 50))?;
                        pubs.lock().unwrap().insert(q, (call, us()));
                        std::thread::sleep(Duration::from_micros(r.below(3000)));
                    }
                    Ok(())
                };
                if let Err(e) = run() {
                    errs.lock().unwrap().push(e);
                }
            });
            for _ in 0..nm {
                let mut r = rngs.remove(0);
                sc.spawn(move || {
                    let mut run = || -> Result<(), Fail> {
                        let c = s.conn()?;
                        while !stop.load(SeqCst) {
                            let done0 = seeking.load(SeqCst);
                            let j = c.s_join(tn, "g")?;
                            let joined_before = started.load(SeqCst); // seeks begun before the join was answered (at most)
                            let mut held = vec![];
                            for _ in 0..r.range(1, 30) {
                                let done = seeking.load(SeqCst);
                                // a seek that began after our join and is complete now fences us
                                let fenced = done > joined_before;
                                if r.chance(600) || held.is_empty() {
                                    let x = c.s_fetch(tn, "g", &j, *r.pick(&[1u32, 5, 20]), *r.pick(&[0u32, 30]))?;
                                    if fenced {
                                        match x {
                                            Ok(v) => ensure!(v.is_empty(), "fencing", "a member that joined before the last seek fetched {} messages after it", v.len()),
                                            Err(_) => {}
                                        }
                                        rep.count("fenced_fetches", 1);
                                        rep.eval(1);
                                    } else if let Ok(v) = x {
                                        held.extend(v.iter().map(|m| m.seq));
                                    }
                                } else {
                                    let q = held.swap_remove(r.below(held.len() as u64) as usize);
                                    let x = c.s_ack(tn, "g", &j, q)?;
                                    if fenced {
                                        ensure!(x.is_err(), "fencing", "an ack (position {}) by a member that joined before the last seek succeeded after it", q);
                                        rep.count("fenced_acks", 1);
                                        rep.eval(1);
                                    } else if let Err(e) = x {
                                        ensure!(started.load(SeqCst) > done0, "ack", "ack by the holder failed without any seek: {}", e);
                                    }
                                }
                            }
                            if r.chance(500) {
                                let _ = c.s_leave(tn, "g", &j)?;
                            }
                        }
                        Ok(())
                    };
                    if let Err(e) = run() {
                        errs.lock().unwrap().push(e);
                    }
                    waiting.fetch_sub(1, SeqCst);
                });
            }
            let mut r2 = rngs.remove(0);
            sc.spawn(move || {
                while !stop.load(SeqCst) || waiting.load(SeqCst) > 0 {
                    s.adv(r2.range(10, 60));
                    std::thread::sleep(Duration::from_millis(r2.range(1, 4)));
                }
            });
            // the seeker: after each seek a private group shows what a member joined now receives
            let mut r = rngs.remove(0);
            let admin = &admin;
            let mut run = || -> Result<(), Fail> {
                for k in 0..seeks {
                    std::thread::sleep(Duration::from_millis(r.below(15)));
                    let end = r.chance(500);
                    started.fetch_add(1, SeqCst);
                    let x = admin.s_seek(tn, "g", r.chance(500))?;
                    seeking.fetch_add(1, SeqCst);
                    ensure!(x.is_ok(), "seek", "seek failed: {:?}", x);
                    // group of our own with an old member that holds messages
                    let g = format!("own{}", k % 3);
                    let old = admin.s_join(tn, &g)?;
                    let held = match admin.s_fetch(tn, &g, &old, 5, 0)? {
                        Ok(v) => v,
                        Err(e) => viol!("fetch", "fetch failed: {}", e),
                    };
                    // a fetch of the old member waits (or reads from disk) while the seek happens
                    let slow = s.conn()?;
                    let w = slow.send(S_FETCH, &enc_fetch(tn, &g, &old, 3, 40));
                    let before: u64 = pubs.lock().unwrap().keys().last().copied().unwrap_or(0); // answered before the seek
                    let c0 = us();
                    let x = admin.s_seek(tn, &g, end)?;
                    let c1 = us();
                    ensure!(x.is_ok(), "seek", "seek failed: {:?}", x);
                    if let Some(m) = held.first() {
                        ensure!(admin.s_ack(tn, &g, &old, m.seq)?.is_err(), "fencing", "an ack with a position held before the seek succeeded after it");
                    }
                    match admin.s_fetch(tn, &g, &old, 5, 0)? {
                        Err(_) => {}
                        Ok(v) => viol!("fencing", "a member that joined before the seek could fetch ({} messages) after it", v.len()),
                    }
                    let j = admin.s_join(tn, &g)?;
                    ensure!(j.gen != old.gen && j.cid != old.cid, "fencing", "the generation did not change with the seek");
                    let mut want = None;
                    let mut got = 0u64;
                    let target = before + 3;
                    let stop_at = Instant::now() + Duration::from_secs(20);
                    loop {
                        let v = match admin.s_fetch(tn, &g, &j, *r.pick(&[1u32, 10, 100]), 0)? {
                            Ok(v) => v,
                            Err(e) => viol!("fetch", "fetch after the seek failed: {}", e),
                        };
                        for m in &v {
                            if want.is_none() {
                                if !end {
                                    ensure!(m.seq == 1, "seek", "after seeking to the beginning the first message delivered is position {}", m.seq);
                                } else {
                                    ensure!(m.seq > before, "seek", "after seeking to the end position {} was delivered, which had been published before the seek (last was {})", m.seq, before);
                                    // nothing published entirely after the seek may be skipped
                                    let sk = pubs.lock().unwrap().range(..m.seq).find(|(_, t)| t.0 > c1).map(|x| *x.0);
                                    ensure!(sk.is_none(), "seek", "after seeking to the end the first message delivered is position {} though position {:?} was published after the seek", m.seq, sk);
                                }
                                want = Some(m.seq);
                            }
                            ensure!(Some(m.seq) == want, "seek", "after the seek position {} was delivered where {:?} is next", m.seq, want);
                            want = Some(m.seq + 1);
                            got = m.seq;
                            ensure!(admin.s_ack(tn, &g, &j, m.seq)?.is_ok(), "ack", "ack after the seek failed");
                        }
                        let _ = c0;
                        if got >= target || Instant::now() > stop_at {
                            break;
                        }
                    }
                    // the fetch that was under way when the seek came may have got messages before it, nothing of the new generation
                    match as_fetch(slow.wait(w)?)? {
                        Ok(_) | Err(_) => {}
                    }
                    slow.check()?;
                    slow.close();
                    let f = groups(s, tn)?.1[&g];
                    ensure!(f.0 == got && f.1 == 0, "floor", "after acknowledging up to {} in the sought group its (floor, pending) is {:?}", got, f);
                    let _ = admin.s_leave(tn, &g, &j)?;
                    rep.eval(2);
                    rep.count("seeks_judged", 1);
                    rep.distinct(hash64(format!("k{} {} {} {}", end, held.len(), ram, before.min(50)).as_bytes()));
                }
                Ok(())
            };
            if let Err(e) = run() {
                errs.lock().unwrap().push(e);
            }
            stop.store(true, SeqCst);
        });
        if let Some(e) = errs.into_inner().unwrap().into_iter().next() {
            return Err(e);
        }
        ctx.rep.sample(json!({"scenario": "seek", "seeks": seeks, "published": pubs.lock().unwrap().len(), "ram": ram}));
        Ok(())
    })
}
