//! C06 (delivery order, exclusivity), C07 (conservation), C08 (retries, dead-lettering), C09 (crash recovery).
use crate::client::*;
use crate::http::enc;
use crate::proto::*;
use crate::report::Fail;
use crate::rng::{hash64, Rng};
use crate::run::{Ctx, Spec};
use crate::server::{Cfg, Server};
use crate::{ensure, viol};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn spec_order() -> Spec {
    Spec {
        scenarios: vec![("model", 3, |c| model_scn(c, false)), ("inversion", 3, inversion_scn)],
        par: 4,
        quick_s: 35,
        thorough_s: 400,
        level: "exploration",
        rule: "(model) random push / consume / ack / nack / timeout / dead-letter programs in virtual time; every consumed batch must be what the reference model allows at each position (priority, then longest ready; ties only between messages whose visibility timed out at the same instant), listings must equal the model. (inversion) concurrent producers and consumers under injected preemption and a frozen clock: no delivery may overtake a message that was surely ready, no batch may fall short while one was, no message may be delivered twice. One evaluation = one judged batch or delivery; distinct = distinct (priorities, batch size, position pattern).",
        assumptions: vec!["among messages requeued by one expiry instant any order is accepted", "a nack arriving after the visibility timeout leaves the message's FIFO position unspecified"],
    }
}
pub fn spec_conserve() -> Spec {
    Spec {
        scenarios: vec![("conserve", 4, conserve_scn), ("dlqrace", 1, dlqrace_scn)],
        par: 4,
        quick_s: 35,
        thorough_s: 400,
        level: "exploration",
        rule: "Concurrent producers, consumers, contested acknowledgers, nackers and dead-letter administrators on one queue (plus an untouched bystander queue) under injected preemption, with visibility timeouts racing acknowledgements at chosen instants. Offline: at most one removal per message, exactly one when contested without a timeout; nothing delivered or listed after its removal; no overlapping deliveries without a release; the final listings hold each message exactly once and exactly the pushed minus the removed ones. One evaluation = one message history; distinct by its event-kind sequence.",
        assumptions: vec!["an acknowledgement that arrives after the visibility timeout may succeed or fail"],
    }
}
pub fn spec_retry() -> Spec {
    Spec {
        scenarios: vec![("model", 4, |c| model_scn(c, true)), ("dlqrace", 2, dlqrace_scn)],
        par: 4,
        quick_s: 35,
        thorough_s: 400,
        level: "exploration",
        rule: "(model) as in C06 with the weight on nacks, timeouts, replays, deletions, purges and restarts (also with time passing while the server is down): delivery counts, reasons, totals, newest-first order and pages of the dead-letter listing must equal the model after every step batch. (dlqrace) concurrent move / delete / purge of a full dead-letter queue: one winner per message, truthful counts, listing pages without duplicates. One evaluation = one listing or operation outcome compared; distinct by listing content.",
        assumptions: vec!["order among messages dead-lettered by one expiry sweep is unspecified"],
    }
}
pub fn spec_crash() -> Spec {
    Spec {
        scenarios: vec![("crash", 5, crash_scn)],
        par: 6,
        quick_s: 45,
        thorough_s: 500,
        level: "fault_enumeration",
        rule: "Concurrent clients push, consume, ack, nack, replay and delete; the process is killed at a random instant or exactly at the N-th file operation (small and large writer batches), restarted, compared, and the next life continues from the recovered state, several times. Offline: for every message the recovered state must be one its event chain passes through, and the cut over all messages must be closed under real-time precedence and contain everything up to the last completed flush; no message twice; options kept; never-delivered messages keep priority and FIFO order. One evaluation = one recovered queue; distinct by crash kind and recovered state.",
        assumptions: vec!["crash = SIGKILL of the process (page cache survives)", "each message's part of a consume batch counts as its own operation"],
    }
}

// ------------------------------------------------------------------ listings
#[derive(Debug, Clone, PartialEq)]
pub struct Item {
    pub id: Id,
    pub payload: Vec<u8>,
    pub prio: u64,
    pub attempts: u64,
    pub reason: String,
}
pub fn raw_payload(v: &Value) -> Option<Vec<u8>> {
    // our payloads start with a zero byte (raw type) and are shown as 0x...
    let mut p = vec![0u8];
    p.extend(unhex(v.as_str()?.strip_prefix("0x")?)?);
    Some(p)
}
fn page(srv: &Server, q: &str, state: &str, off: u64, lim: u64) -> Result<(u64, Vec<Item>), Fail> {
    let v = srv.get(&format!("/api/queue/{}/messages?state={}&offset={}&limit={}", enc(q), state, off, lim))?;
    let tot = v["total"].as_u64().ok_or_else(|| Fail::v("http", format!("listing without total: {}", v)))?;
    let mut out = vec![];
    for m in v["messages"].as_array().ok_or_else(|| Fail::v("http", format!("listing without messages: {}", v)))? {
        let it = (|| {
            Some(Item {
                id: uuid_parse(m["id"].as_str()?)?,
                payload: raw_payload(&m["payload"])?,
                prio: m["priority"].as_u64().unwrap_or(0),
                attempts: m["attempts"].as_u64()?,
                reason: m["failure_reason"].as_str().unwrap_or("").to_string(),
            })
        })()
        .ok_or_else(|| Fail::v("http", format!("unexpected entry in the {} listing of {:?}: {}", state, q, m)))?;
        if state != "dlq" {
            ensure!(m["state"].as_str() == Some(state), "listing", "the {} listing of {:?} contains an entry with state {}", state, q, m["state"]);
        }
        out.push(it);
    }
    Ok((tot, out))
}
/// Complete listing, read in pages.
pub fn list(srv: &Server, q: &str, state: &str, pg: u64) -> Result<Vec<Item>, Fail> {
    let mut out: Vec<Item> = vec![];
    loop {
        let (tot, v) = page(srv, q, state, out.len() as u64, pg)?;
        let n = v.len() as u64;
        out.extend(v);
        if out.len() as u64 >= tot || n == 0 {
            ensure!(out.len() as u64 == tot, "pages", "the {} listing of {:?} reports a total of {} but its pages of {} hold {} entries", state, q, tot, pg, out.len());
            return Ok(out);
        }
        ensure!(n == pg.min(1000), "pages", "a middle page of the {} listing of {:?} has {} of {} entries", state, q, n, pg);
    }
}
pub fn counts(srv: &Server, q: &str) -> Result<(u64, u64, u64), Fail> {
    let v = srv.get("/api/queue")?;
    for e in v.as_array().unwrap_or(&vec![]) {
        if e["name"].as_str() == Some(q) {
            return Ok((e["pending"].as_u64().unwrap_or(u64::MAX), e["inflight"].as_u64().unwrap_or(u64::MAX), e["dlq"].as_u64().unwrap_or(u64::MAX)));
        }
    }
    Err(Fail::v("listing", format!("queue {:?} is not listed", q)))
}
fn key(p: &[u8]) -> u64 {
    // 0x00, then 8 bytes of message number
    if p.len() >= 9 && p[0] == 0 {
        u64::from_be_bytes(p[1..9].try_into().unwrap())
    } else {
        u64::MAX
    }
}
fn payload(r: &mut Rng, n: u64) -> Vec<u8> {
    let mut p = vec![0u8];
    p.extend_from_slice(&n.to_be_bytes());
    let k = match r.below(20) {
        0..=9 => r.below(8),
        10..=17 => r.below(300),
        18 => r.below(5000),
        _ => r.below(40_000),
    } as usize;
    p.extend(r.bytes(k));
    p
}

// ------------------------------------------------------------------ reference model
#[derive(Debug, Clone, PartialEq)]
enum St {
    /// ready since some instant between lo and hi (logical)
    Ready(u64, u64),
    Flight(u64),
    Dlq,
    Gone,
}
#[derive(Debug, Clone)]
struct M {
    payload: Vec<u8>,
    prio: u8,
    id: Option<Id>,
    attempts: u64,
    st: St,
    reason: String,
}
struct Q {
    name: String,
    vt: u64,
    max: u64,
    ms: BTreeMap<u64, M>,
    /// oldest first; numbers of the messages failed in one sweep share a group
    dlq: Vec<(u64, u64)>,
    group: u64,
}
impl Q {
    fn ready(&self) -> Vec<u64> {
        self.ms.iter().filter(|(_, m)| matches!(m.st, St::Ready(..))).map(|(k, _)| *k).collect()
    }
    fn flights(&self) -> Vec<u64> {
        self.ms.iter().filter(|(_, m)| matches!(m.st, St::Flight(_))).map(|(k, _)| *k).collect()
    }
    fn by_id(&self, id: &Id) -> Option<u64> {
        self.ms.iter().find(|(_, m)| m.id.as_ref() == Some(id)).map(|(k, _)| *k)
    }
    /// a message surely before `b` among the ready ones
    fn before(&self, a: u64, b: u64) -> bool {
        let (x, y) = (&self.ms[&a], &self.ms[&b]);
        match (&x.st, &y.st) {
            (St::Ready(_, ah), St::Ready(bl, _)) => x.prio > y.prio || x.prio == y.prio && ah < bl,
            _ => false,
        }
    }
    fn fail(&mut self, k: u64, reason: &str) {
        let m = self.ms.get_mut(&k).unwrap();
        m.st = St::Dlq;
        m.reason = reason.to_string();
        self.dlq.push((self.group, k));
    }
}

fn model_scn(ctx: &mut Ctx, retry: bool) -> Result<(), Fail> {
    let flush = 100u64;
    let defb = ctx.rng.range(1, 12);
    let cfg = Cfg::frozen().set("QUEUE_DEFAULT_BATCH_SIZE", defb).set("QUEUE_DEFAULT_FLUSH_MS", flush).set("QUEUE_VISIBILITY_MS", 4000).set("QUEUE_MAX_RETRIES", 2);
    ctx.server(cfg, |ctx, srv| {
        let mut c = srv.conn()?;
        let mut qs: Vec<Q> = vec![];
        let nq = ctx.rng.range(1, 3);
        for i in 0..nq {
            let (mut vt, mut max) = (4000, 2);
            let mut o = vec![];
            if ctx.rng.chance(800) {
                vt = *ctx.rng.pick(&[200u64, 1000, 5000, 5000, 60_000, 3_600_000]);
                o.push(format!("\"visibilityTimeoutMs\":{}", vt));
            }
            if ctx.rng.chance(800) {
                max = *ctx.rng.pick(&[0u64, 1, 1, 2, 3, 5]);
                o.push(format!("\"maxRetries\":{}", max));
            }
            let name = format!("q{}", i);
            c.q_create(&name, &format!("{{{}}}", o.join(",")))?;
            ctx.t(format!("create {} {:?}", name, o));
            qs.push(Q { name, vt, max, ms: BTreeMap::new(), dlq: vec![], group: 0 });
        }
        let mut n = 0u64; // message numbers
        let mut rank = 1u64; // logical time
        let steps = if ctx.thorough { 1500 } else { 400 };
        let nprio = *ctx.rng.pick(&[1u64, 2, 4, 256]);
        let fill = ctx.rng.range(5, 60) as usize;
        for step in 0..steps {
            let qi = ctx.rng.below(qs.len() as u64) as usize;
            let now = srv.ctl.virtual_ms();
            let q = &mut qs[qi];
            rank += 1;
            q.group += 1;
            let w = if retry { [18, 42, 47, 66, 69, 72, 79, 84, 86, 93] } else { [30, 62, 72, 82, 86, 88, 90, 92, 93, 99] };
            let x = ctx.rng.below(100);
            if x < w[0] {
                if q.ready().len() > fill {
                    continue;
                }
                let k = ctx.rng.range(1, 6);
                for _ in 0..k {
                    n += 1;
                    rank += 1;
                    let p = ctx.rng.below(nprio) as u8;
                    let pl = payload(&mut ctx.rng, n);
                    let arg = if p == 0 && ctx.rng.chance(500) { None } else { Some(p) };
                    match c.q_push(&q.name, arg, &pl)? {
                        Resp::Ok => {}
                        r => viol!("reply", "push answered {}", r.short()),
                    }
                    ctx.t(format!("{} push #{} prio {}", q.name, n, p));
                    q.ms.insert(n, M { payload: pl, prio: p, id: None, attempts: 0, st: St::Ready(rank, rank), reason: String::new() });
                }
            } else if x < w[1] {
                let b = match ctx.rng.below(10) {
                    0..=1 => None,
                    2..=4 => Some(1),
                    9 => Some(*ctx.rng.pick(&[0u64, 1000, 64])),
                    _ => Some(ctx.rng.range(1, 8)),
                };
                let wait = if !q.ready().is_empty() && b != Some(0) && ctx.rng.chance(200) { Some(60_000) } else { None };
                let got = c.q_consume(&q.name, b, wait)?;
                let want = (b.unwrap_or(defb) as usize).min(q.ready().len());
                ctx.t(format!("{} t={} consume {:?} -> {:?}", q.name, now, b, got.iter().map(|m| key(&m.payload)).collect::<Vec<_>>()));
                ctx.rep.eval(1);
                ensure!(got.len() == want, "batch-size", "consume of {:?} from {} with {} ready messages returned {} messages", b, q.name, q.ready().len(), got.len());
                let mut pat = vec![];
                for m in &got {
                    let k = key(&m.payload);
                    let r = q.ready();
                    match q.ms.get(&k) {
                        Some(x) if matches!(x.st, St::Ready(..)) => {
                            ensure!(x.payload == m.payload, "content", "message #{} was delivered with other bytes than pushed", k);
                            if let Some(id) = x.id {
                                ensure!(id == m.id, "identity", "message #{} is delivered with another id than before", k);
                            }
                        }
                        Some(x) => viol!("not-ready", "{} delivered message #{} which is {:?} (t={}, delivered {} times before)", q.name, k, x.st, now, x.attempts),
                        None => viol!("foreign", "{} delivered a message it was never given ({} bytes)", q.name, m.payload.len()),
                    }
                    if let Some(b) = r.iter().find(|a| q.before(**a, k)) {
                        let (x, y) = (&q.ms[b], &q.ms[&k]);
                        viol!("order", "{} delivered #{} (prio {}, {:?}) before #{} (prio {}, {:?})", q.name, k, y.prio, y.st, b, x.prio, x.st)
                    }
                    let vt = q.vt;
                    let x = q.ms.get_mut(&k).unwrap();
                    x.id = Some(m.id);
                    x.attempts += 1;
                    x.st = St::Flight(now + vt);
                    pat.push(x.prio);
                    pat.push(x.attempts as u8);
                    ensure!(x.attempts <= q.max.max(1), "too-many", "message #{} delivered {} times with max_retries {}", k, x.attempts, q.max);
                }
                ctx.rep.count("deliveries", got.len() as u64);
                pat.push(b.unwrap_or(99) as u8);
                ctx.rep.distinct(hash64(&pat));
            } else if x < w[2] {
                // ack something in flight (sometimes something else)
                let v = q.flights();
                let k = if !v.is_empty() && ctx.rng.chance(850) { Some(*ctx.rng.pick(&v)) } else { q.ms.iter().filter(|x| x.1.id.is_some()).map(|x| *x.0).nth(ctx.rng.below(20) as usize) };
                if let Some(k) = k {
                    let id = q.ms[&k].id.unwrap();
                    let ok = c.q_ack(&q.name, &id)?;
                    ctx.t(format!("{} ack #{} ({:?}) -> {}", q.name, k, q.ms[&k].st, ok));
                    ctx.rep.eval(1);
                    match (&q.ms[&k].st, ok) {
                        (St::Flight(_), false) => viol!("ack", "ack of in-flight message #{} failed", k),
                        (St::Gone, true) => viol!("ack", "ack of message #{} succeeded although it had been removed before", k),
                        (_, true) => {
                            q.ms.get_mut(&k).unwrap().st = St::Gone;
                            q.dlq.retain(|x| x.1 != k);
                        }
                        _ => {}
                    }
                } else {
                    let id: Id = ctx.rng.bytes(16).try_into().unwrap();
                    ensure!(!c.q_ack(&q.name, &id)?, "ack", "ack of an unknown id succeeded");
                }
            } else if x < w[3] {
                let v = q.flights();
                let late: Vec<u64> = q.ms.iter().filter(|x| matches!(x.1.st, St::Ready(..)) && x.1.id.is_some()).map(|x| *x.0).collect();
                let k = if !v.is_empty() {
                    *ctx.rng.pick(&v)
                } else if !late.is_empty() && q.max > 0 {
                    *ctx.rng.pick(&late)
                } else {
                    continue;
                };
                let reason = match ctx.rng.below(5) {
                    0 => String::new(),
                    1 => "größer ∞ \u{0}\n\"quoted\"".to_string(),
                    2 => "x".repeat(ctx.rng.below(3000) as usize),
                    _ => format!("reason {}", step),
                };
                let id = q.ms[&k].id.unwrap();
                let ok = c.q_nack(&q.name, &id, &reason)?;
                ctx.t(format!("{} nack #{} ({:?}, {} deliveries) -> {}", q.name, k, q.ms[&k].st, q.ms[&k].attempts, ok));
                let max = q.max;
                let m = q.ms.get_mut(&k).unwrap();
                match m.st.clone() {
                    St::Flight(_) => {
                        ensure!(ok, "nack", "nack of in-flight message #{} failed", k);
                        if m.attempts >= max {
                            q.fail(k, &reason);
                        } else {
                            m.st = St::Ready(rank, rank);
                        }
                    }
                    St::Ready(lo, _) if ok => m.st = St::Ready(lo, rank),
                    _ => {}
                }
            } else if x < w[4] {
                // stranger ids and ids of other queues
                let o = ctx.rng.below(qs.len() as u64) as usize;
                if o != qi {
                    let ids: Vec<Id> = qs[o].ms.values().filter_map(|m| m.id).collect();
                    if !ids.is_empty() {
                        let id = *ctx.rng.pick(&ids);
                        let name = qs[qi].name.clone();
                        let any = c.q_ack(&name, &id)? | c.q_nack(&name, &id, "x")? | c.q_move(&name, &id)? | c.q_del_dlq(&name, &id)?;
                        ensure!(!any, "foreign", "an operation on {} with the id of a message of {} succeeded", name, qs[o].name);
                    }
                }
            } else if x < w[5] {
                let v: Vec<u64> = q.dlq.iter().map(|x| x.1).collect();
                if !v.is_empty() {
                    let k = *ctx.rng.pick(&v);
                    let id = q.ms[&k].id.unwrap();
                    let ok = c.q_del_dlq(&q.name, &id)?;
                    ctx.t(format!("{} delete dead #{} -> {}", q.name, k, ok));
                    ensure!(ok, "dlq-delete", "deleting dead-lettered #{} reports false", k);
                    q.dlq.retain(|x| x.1 != k);
                    q.ms.get_mut(&k).unwrap().st = St::Gone;
                    ensure!(!c.q_del_dlq(&q.name, &id)?, "dlq-delete", "deleting #{} a second time reports true", k);
                    ensure!(!c.q_move(&q.name, &id)?, "dlq-move", "moving #{} after its deletion reports true", k);
                }
            } else if x < w[6] {
                let v: Vec<u64> = q.dlq.iter().map(|x| x.1).collect();
                for _ in 0..ctx.rng.range(1, 3) {
                    rank += 1;
                    let v: Vec<u64> = v.iter().cloned().filter(|k| q.ms[k].st == St::Dlq).collect();
                    if v.is_empty() {
                        break;
                    }
                    let k = *ctx.rng.pick(&v);
                    let id = q.ms[&k].id.unwrap();
                    let ok = c.q_move(&q.name, &id)?;
                    ctx.t(format!("{} replay #{} -> {}", q.name, k, ok));
                    ensure!(ok, "dlq-move", "replaying dead-lettered #{} reports false", k);
                    q.dlq.retain(|x| x.1 != k);
                    let m = q.ms.get_mut(&k).unwrap();
                    m.st = St::Ready(rank, rank);
                    m.attempts = 0;
                    ensure!(!c.q_move(&q.name, &id)?, "dlq-move", "replaying #{} a second time reports true", k);
                }
                // ids that are not dead-lettered
                let live: Vec<Id> = q.ms.values().filter(|m| m.st != St::Dlq).filter_map(|m| m.id).collect();
                if !live.is_empty() {
                    let id = *ctx.rng.pick(&live);
                    ensure!(!c.q_move(&q.name, &id)?, "dlq-move", "moving a message that is not dead-lettered reports true");
                    ensure!(!c.q_del_dlq(&q.name, &id)?, "dlq-delete", "deleting a message that is not dead-lettered reports true");
                }
            } else if x < w[7] {
                if q.dlq.len() > 2 || ctx.rng.chance(100) {
                    let cnt = c.q_purge(&q.name)?;
                    ctx.t(format!("{} purge -> {}", q.name, cnt));
                    ensure!(cnt as usize == q.dlq.len(), "purge", "purge of {} dead-lettered messages reports {}", q.dlq.len(), cnt);
                    let v: Vec<u64> = q.dlq.drain(..).map(|x| x.1).collect();
                    for k in v {
                        q.ms.get_mut(&k).unwrap().st = St::Gone;
                    }
                }
            } else if x < w[8] {
                // restart after everything is flushed; time may pass meanwhile
                if ctx.rng.chance(if retry { 500 } else { 100 }) {
                    srv.flushed(flush)?;
                    expire(ctx, srv, &mut qs, &mut rank)?;
                    srv.flushed(flush)?;
                    expire(ctx, srv, &mut qs, &mut rank)?;
                    srv.kill();
                    let down = *ctx.rng.pick(&[0u64, 0, 1500, 5200, 100_000, 4_000_000]);
                    srv.adv(down);
                    ctx.t(format!("restart, {} ms down", down));
                    srv.restart()?;
                    c = srv.conn()?;
                    ctx.rep.count("restarts", 1);
                    for q in qs.iter_mut() {
                        for m in q.ms.values_mut() {
                            if let St::Ready(lo, _) = m.st {
                                if m.attempts > 0 {
                                    // the position of a message that was delivered before is not kept
                                    m.st = St::Ready(0, rank);
                                }
                                let _ = lo;
                            }
                        }
                    }
                    let r0 = rank;
                    expire(ctx, srv, &mut qs, &mut rank)?;
                    for q in qs.iter_mut() {
                        for m in q.ms.values_mut() {
                            if let St::Ready(lo, _) = m.st {
                                if lo > r0 {
                                    m.st = St::Ready(0, rank);
                                }
                            }
                        }
                    }
                }
            } else if x < w[9] {
                // time
                let mut ts: Vec<u64> = qs.iter().flat_map(|q| q.ms.values()).filter_map(|m| if let St::Flight(t) = m.st { Some(t) } else { None }).collect();
                ts.sort();
                let d = match ctx.rng.below(6) {
                    0 => 1,
                    1 => ctx.rng.range(1, 300),
                    2 | 3 if !ts.is_empty() => {
                        // just short of, or just past, a timeout
                        let t = *ctx.rng.pick(&ts);
                        let t = t.saturating_sub(now);
                        if ctx.rng.chance(500) { t.saturating_sub(1) } else { t + 55 }
                    }
                    _ => *ctx.rng.pick(&[60u64, 250, 1100, 5100, 61_000]),
                };
                srv.adv(d);
                ctx.t(format!("advance {}", d));
                expire(ctx, srv, &mut qs, &mut rank)?;
            } else {
                compare(ctx, srv, &c, &qs[qi])?;
            }
            if step % 40 == 39 || retry && step % 7 == 6 {
                compare(ctx, srv, &c, &qs[qi])?;
            }
        }
        for q in &qs {
            compare(ctx, srv, &c, q)?;
        }
        c.check()?;
        ctx.rep.sample(json!({"scenario": "model", "queues": qs.iter().map(|q| format!("{} vt={} max={} messages={} dead={}", q.name, q.vt, q.max, q.ms.len(), q.dlq.len())).collect::<Vec<_>>(), "program": ctx.trace.lock().unwrap().iter().rev().take(8).rev().cloned().collect::<Vec<_>>()}));
        Ok(())
    })
}

/// Bring model and server past all timeouts that are due (never leaving one within the timer granularity).
fn expire(ctx: &mut Ctx, srv: &Server, qs: &mut [Q], rank: &mut u64) -> Result<(), Fail> {
    loop {
        let now = srv.ctl.virtual_ms();
        let amb = qs.iter().flat_map(|q| q.ms.values()).any(|m| matches!(m.st, St::Flight(t) if t <= now && t + 55 > now));
        if !amb {
            break;
        }
        srv.adv(56);
    }
    let now = srv.ctl.virtual_ms();
    for q in qs.iter_mut() {
        let mut due: Vec<(u64, u64)> = q.ms.iter().filter_map(|(k, m)| if let St::Flight(t) = m.st { if t <= now { Some((t, *k)) } else { None } } else { None }).collect();
        if due.is_empty() {
            continue;
        }
        due.sort();
        q.group += 1;
        let mut last = 0;
        for (t, k) in &due {
            if *t != last {
                *rank += 1;
                last = *t;
            }
            let max = q.max;
            let m = q.ms.get_mut(k).unwrap();
            if m.attempts >= max {
                q.fail(*k, "Timeout");
            } else {
                m.st = St::Ready(*rank, *rank);
            }
        }
        ctx.rep.count("timeouts", due.len() as u64);
        ctx.t(format!("{} t={} timed out {:?}", q.name, now, due));
        // the sweep runs in the server's own time: wait for it
        let want = (q.ready().len() as u64, q.flights().len() as u64, q.dlq.len() as u64);
        let end = Instant::now() + ctx.patience;
        loop {
            let got = counts(srv, &q.name)?;
            if got == want {
                break;
            }
            if got.1 < want.1 {
                viol!("early", "{} at t={}: counts (ready, in flight, dead) are {:?}, the model has {:?}", q.name, now, got, want);
            }
            if Instant::now() > end {
                if got.0 + got.1 + got.2 != want.0 + want.1 + want.2 || got.1 == want.1 {
                    viol!("counts", "{} at t={}: counts (ready, in flight, dead) are {:?}, the model has {:?}", q.name, now, got, want);
                }
                return Err(Fail::Suspect(format!("{}: visibility timeouts are not processed: counts {:?}, expected {:?}", q.name, got, want)));
            }
            if got.1 == want.1 {
                // all timeouts processed but elsewhere than expected: look again once, then it is final
                std::thread::sleep(Duration::from_millis(50));
                let got = counts(srv, &q.name)?;
                if got != want {
                    viol!("counts", "{} at t={}: counts (ready, in flight, dead) are {:?}, the model has {:?}", q.name, now, got, want);
                }
                break;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    Ok(())
}

fn compare(ctx: &mut Ctx, srv: &Server, c: &Conn, q: &Q) -> Result<(), Fail> {
    let pg = *ctx.rng.pick(&[1u64, 3, 10, 50, 1000]);
    let pg = if q.ms.len() > 100 { pg.max(10) } else { pg };
    for (state, want) in [("pending", q.ready()), ("inflight", q.flights())] {
        let got = list(srv, &q.name, state, pg)?;
        ctx.rep.eval(1);
        let g: BTreeMap<u64, &Item> = got.iter().map(|i| (key(&i.payload), i)).collect();
        ensure!(g.len() == got.len(), "duplicate", "the {} listing of {} contains a message twice", state, q.name);
        let gs: Vec<u64> = g.keys().cloned().collect();
        ensure!(gs == want, "listing", "{} messages of {}: listed {:?}, expected {:?}", state, q.name, gs, want);
        for (k, i) in g {
            let m = &q.ms[&k];
            ensure!(i.payload == m.payload && i.prio == m.prio as u64 && i.attempts == m.attempts && m.id.map(|x| x == i.id).unwrap_or(true), "listing", "{} listing of {}: #{} shown with prio {} attempts {} where prio {} attempts {} are due (payload equal: {})", state, q.name, k, i.prio, i.attempts, m.prio, m.attempts, i.payload == m.payload);
        }
    }
    // dead letters over TCP and HTTP
    let mut tcp: Vec<DMsg> = vec![];
    let l = ctx.rng.range(1, 8) as u32;
    loop {
        let (tot, v) = c.q_dlq(&q.name, l, tcp.len() as u32)?;
        ensure!(tot as usize == q.dlq.len(), "dlq-total", "dead-letter total of {} is {} with {} dead-lettered messages", q.name, tot, q.dlq.len());
        let n = v.len();
        tcp.extend(v);
        if n < l as usize {
            break;
        }
    }
    let http = list(srv, &q.name, "dlq", pg)?;
    ctx.rep.eval(2);
    for (src, got) in [
        ("TCP", tcp.iter().map(|d| (d.id, d.payload.clone(), d.attempts as u64, d.reason.clone())).collect::<Vec<_>>()),
        ("HTTP", http.iter().map(|d| (d.id, d.payload.clone(), d.attempts, d.reason.clone())).collect()),
    ] {
        let ks: Vec<u64> = got.iter().map(|g| key(&g.1)).collect();
        ensure!(got.len() == q.dlq.len() && ks.iter().collect::<HashSet<_>>().len() == ks.len(), "dlq-list", "dead letters of {} over {}: listed {:?}, expected {:?}", q.name, src, ks, q.dlq);
        // newest first; a group is unordered
        let mut want: Vec<(u64, u64)> = q.dlq.clone();
        want.reverse();
        let grp: HashMap<u64, u64> = q.dlq.iter().map(|x| (x.1, x.0)).collect();
        for (i, k) in ks.iter().enumerate() {
            match grp.get(k) {
                Some(g) if *g == want[i].0 => {}
                _ => viol!("dlq-order", "dead letters of {} over {} are listed as {:?}, newest first would be {:?}", q.name, src, ks, want.iter().map(|x| x.1).collect::<Vec<_>>()),
            }
            let m = &q.ms[k];
            let g = &got[i];
            ensure!(g.1 == m.payload && Some(g.0) == m.id, "dlq-content", "dead letter #{} of {} has other content or id", k, q.name);
            ensure!(g.2 == m.attempts, "dlq-attempts", "dead letter #{} of {} shows {} deliveries, it had {}", k, q.name, g.2, m.attempts);
            if m.reason == "Timeout" {
                ensure!(g.3.to_lowercase().contains("time"), "dlq-reason", "dead letter #{} of {} timed out but shows reason {:?}", k, q.name, g.3);
            } else {
                ensure!(g.3 == m.reason, "dlq-reason", "dead letter #{} of {} shows reason {:?} instead of {:?}", k, q.name, preview(g.3.as_bytes()), preview(m.reason.as_bytes()));
            }
        }
        ctx.rep.distinct(hash64(format!("{:?}{:?}", src, got.iter().map(|g| (g.2, &g.3)).collect::<Vec<_>>()).as_bytes()));
    }
    let got = counts(srv, &q.name)?;
    let want = (q.ready().len() as u64, q.flights().len() as u64, q.dlq.len() as u64);
    ensure!(got == want, "counts", "{}: counts (ready, in flight, dead) are {:?}, the model has {:?}", q.name, got, want);
    Ok(())
}

// ------------------------------------------------------------------ C06 inversion
fn clock() -> impl Fn() -> u64 + Copy + Send + Sync {
    let t0 = Instant::now();
    move || t0.elapsed().as_nanos() as u64 + 1
}

fn inversion_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    ctx.server(Cfg::frozen(), |ctx, srv| {
        struct Pu {
            prio: u8,
            call: u64,
            ret: u64,
        }
        struct Co {
            call: u64,
            ret: u64,
            want: usize,
            got: Vec<u64>,
        }
        let setup = srv.conn()?;
        let rounds = if ctx.thorough { 60 } else { 14 };
        let us = clock();
        for round in 0..rounds {
            let q = format!("inv{}", round);
            setup.q_create(&q, "{\"visibilityTimeoutMs\":3600000,\"maxRetries\":3}")?;
            if ctx.rng.chance(750) {
                srv.ctl.preempt(ctx.rng.range(60, 500), ctx.rng.range(200, 4000));
            } else {
                srv.ctl.calm();
            }
            let np = ctx.rng.range(1, 3) as usize;
            let nc = ctx.rng.range(1, 4) as usize;
            let per = ctx.rng.range(20, 120) as usize;
            let nprio = *ctx.rng.pick(&[1u64, 2, 3, 8]);
            let uniq = AtomicU64::new(0);
            let producing = AtomicU64::new(np as u64);
            let pushes: Mutex<BTreeMap<u64, Pu>> = Mutex::new(BTreeMap::new());
            let cons: Mutex<Vec<Co>> = Mutex::new(vec![]);
            let errs: Mutex<Vec<Fail>> = Mutex::new(vec![]);
            let bodies: Mutex<HashMap<u64, Vec<u8>>> = Mutex::new(HashMap::new());
            let mut rngs: Vec<Rng> = (0..np + nc).map(|_| ctx.rng.fork()).collect();
            let conns: Vec<Conn> = (0..np + nc).map(|_| srv.conn()).collect::<Result<_, _>>()?;
            std::thread::scope(|sc| {
                for k in 0..np + nc {
                    let c = conns[k].clone();
                    let mut r = rngs.remove(0);
                    let (q, uniq, producing, pushes, cons, errs, bodies) = (&q, &uniq, &producing, &pushes, &cons, &errs, &bodies);
                    sc.spawn(move || {
                        let mut run = || -> Result<(), Fail> {
                            if k < np {
                                for _ in 0..per {
                                    let n = uniq.fetch_add(1, SeqCst);
                                    let prio = r.below(nprio) as u8;
                                    let pl = payload(&mut r, n);
                                    bodies.lock().unwrap().insert(n, pl.clone());
                                    let call = us();
                                    let x = c.q_push(q, Some(prio), &pl)?;
                                    let ret = us();
                                    ensure!(x == Resp::Ok, "reply", "push answered {}", x.short());
                                    pushes.lock().unwrap().insert(n, Pu { prio, call, ret });
                                }
                                return Ok(());
                            }
                            let mut ids: Vec<Id> = vec![];
                            loop {
                                let done = producing.load(SeqCst) == 0;
                                let want = r.range(1, 6) as usize;
                                let wait = if r.chance(300) { Some(0) } else { None };
                                let call = us();
                                let got = c.q_consume(q, Some(want as u64), wait)?;
                                let ret = us();
                                let mut ks = vec![];
                                for m in &got {
                                    let k = key(&m.payload);
                                    match bodies.lock().unwrap().get(&k) {
                                        Some(b) if *b == m.payload => {}
                                        _ => viol!("content", "a consumed message (number {}) has bytes that were never pushed", k),
                                    }
                                    ks.push(k);
                                    ids.push(m.id);
                                }
                                let empty = ks.is_empty();
                                cons.lock().unwrap().push(Co { call, ret, want, got: ks });
                                while ids.len() > 10 || !ids.is_empty() && r.chance(300) {
                                    let id = ids.swap_remove(r.below(ids.len() as u64) as usize);
                                    ensure!(c.q_ack(q, &id)?, "ack", "ack by the only holder failed");
                                }
                                if empty && done {
                                    return Ok(());
                                }
                            }
                        };
                        if let Err(e) = run() {
                            errs.lock().unwrap().push(e);
                        }
                        if k < np {
                            producing.fetch_sub(1, SeqCst);
                        }
                    });
                }
            });
            srv.ctl.calm();
            if let Some(e) = errs.into_inner().unwrap().pop() {
                return Err(e);
            }
            let pushes = pushes.into_inner().unwrap();
            let mut cons = cons.into_inner().unwrap();
            cons.sort_by_key(|c| c.call);
            // delivering operation of each message
            let mut by: HashMap<u64, usize> = HashMap::new();
            for (i, o) in cons.iter().enumerate() {
                for m in &o.got {
                    if let Some(j) = by.insert(*m, i) {
                        viol!("twice", "message #{} was delivered by two consumes ({}..{} and {}..{} ns) without a nack or timeout in between", m, cons[j].call, cons[j].ret, o.call, o.ret)
                    }
                }
            }
            ensure!(by.len() == pushes.len(), "missing", "{} of {} pushed messages were never delivered although the queue was drained", pushes.len() - by.len(), pushes.len());
            let mut overlaps = 0u64;
            for (i, o) in cons.iter().enumerate() {
                ctx.rep.eval(1);
                ensure!(o.got.len() <= o.want, "too-many", "consume of {} returned {}", o.want, o.got.len());
                // messages that were surely ready during the whole operation and delivered later
                for (x, p) in &pushes {
                    if p.ret >= o.call {
                        if p.call < o.ret {
                            overlaps += 1;
                        }
                        continue;
                    }
                    let d = by[x];
                    let later = cons[d].call > o.ret;
                    if later {
                        ensure!(o.got.len() == o.want, "short", "a consume of {} ({}..{} ns) returned {} messages while #{} (pushed by {}) was ready and delivered only later ({}..)", o.want, o.call, o.ret, o.got.len(), x, p.ret, cons[d].call);
                    }
                    let px = o.got.iter().position(|m| m == x);
                    for (j, m) in o.got.iter().enumerate() {
                        let y = &pushes[m];
                        let first = p.prio > y.prio || p.prio == y.prio && p.ret < y.call;
                        if first && (later || px.map(|z| z > j).unwrap_or(false)) {
                            viol!("overtaken", "message #{} (prio {}, pushed {}..{}) was delivered at {}..{} before #{} (prio {}, pushed {}..{}) which was ready", m, y.prio, y.call, y.ret, o.call, o.ret, x, p.prio, p.call, p.ret)
                        }
                    }
                }
                let _ = i;
                ctx.rep.distinct(hash64(format!("{}{:?}", o.want, o.got.iter().map(|m| (pushes[m].prio, pushes[m].ret > o.call)).collect::<Vec<_>>()).as_bytes()));
            }
            ctx.rep.count("concurrent_consumes", cons.len() as u64);
            ctx.rep.count("push_consume_overlaps", overlaps);
            for c in &conns {
                c.check()?;
                c.close();
            }
            setup.call(Q_DELETE, &W::new().s(&q).0)?;
            ctx.rep.sample(json!({"scenario": "inversion", "producers": np, "consumers": nc, "messages": pushes.len(), "consumes": cons.len(), "overlaps": overlaps}));
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C07
#[derive(Debug, Clone, Copy, PartialEq)]
enum K {
    Deliver,
    Ack(bool),
    Nack(bool),
    Move(bool),
    Del(bool),
    Jump,
}
#[derive(Debug, Clone, Copy)]
struct Ev {
    k: K,
    m: u64,
    call: u64,
    ret: u64,
}

fn conserve_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    ctx.server(Cfg::frozen(), |ctx, srv| {
        let setup = srv.conn()?;
        let us = clock();
        let rounds = if ctx.thorough { 40 } else { 10 };
        // bystander with messages in every state
        setup.q_create("by", "{\"visibilityTimeoutMs\":999999999,\"maxRetries\":1}")?;
        for i in 0..9u64 {
            let pl = payload(&mut ctx.rng, 1 << 40 | i);
            setup.q_push("by", Some((i % 3) as u8), &pl)?;
        }
        for (i, m) in setup.q_consume("by", Some(6), None)?.iter().enumerate() {
            if i % 2 == 0 {
                setup.q_nack("by", &m.id, "by")?;
            }
        }
        let all = |srv: &Server, q: &str| -> Result<(Vec<Item>, Vec<Item>, Vec<Item>), Fail> { Ok((list(srv, q, "pending", 1000)?, list(srv, q, "inflight", 1000)?, list(srv, q, "dlq", 1000)?)) };
        let by0 = all(srv, "by")?;
        for round in 0..rounds {
            let q = format!("c{}", round);
            let vt = 10_000u64;
            let max = *ctx.rng.pick(&[0u64, 1, 2, 3]);
            setup.q_create(&q, &format!("{{\"visibilityTimeoutMs\":{},\"maxRetries\":{}}}", vt, max))?;
            let jumps = ctx.rng.chance(600);
            let purges = ctx.rng.chance(400);
            if ctx.rng.chance(800) {
                srv.ctl.preempt(ctx.rng.range(60, 500), ctx.rng.range(200, 4000));
            }
            let (np, nc, na) = (ctx.rng.range(1, 2) as usize, ctx.rng.range(2, 4) as usize, ctx.rng.range(1, 2) as usize);
            let per = ctx.rng.range(20, 80) as usize;
            let evs: Mutex<Vec<Ev>> = Mutex::new(vec![]);
            let ids: Mutex<HashMap<u64, Id>> = Mutex::new(HashMap::new());
            let back: Mutex<HashMap<Id, u64>> = Mutex::new(HashMap::new());
            let uniq = AtomicU64::new(0);
            let purged = AtomicU64::new(0);
            let bodies: Mutex<HashMap<u64, Vec<u8>>> = Mutex::new(HashMap::new());
            let producing = AtomicU64::new(np as u64);
            let stop = AtomicBool::new(false);
            let errs: Mutex<Vec<Fail>> = Mutex::new(vec![]);
            let mut rngs: Vec<Rng> = (0..np + nc + na).map(|_| ctx.rng.fork()).collect();
            let conns: Vec<(Conn, Conn)> = (0..np + nc + na).map(|_| Ok((srv.conn()?, srv.conn()?))).collect::<Result<_, Fail>>()?;
            let mut jump_rng = ctx.rng.fork();
            let njumps = AtomicU64::new(0);
            let frozen_phase = !jumps;
            std::thread::scope(|sc| {
                for k in 0..np + nc + na {
                    let (c, c2) = conns[k].clone();
                    let mut r = rngs.remove(0);
                    let (q, uniq, producing, evs, ids, back, errs, bodies, stop, purged) = (&q, &uniq, &producing, &evs, &ids, &back, &errs, &bodies, &stop, &purged);
                    sc.spawn(move || {
                        let mut run = || -> Result<(), Fail> {
                            if k < np {
                                for _ in 0..per {
                                    let n = uniq.fetch_add(1, SeqCst);
                                    let pl = payload(&mut r, n);
                                    bodies.lock().unwrap().insert(n, pl.clone());
                                    let x = c.q_push(q, Some(r.below(3) as u8), &pl)?;
                                    ensure!(x == Resp::Ok, "reply", "push answered {}", x.short());
                                }
                                return Ok(());
                            }
                            if k >= np + nc {
                                // administrator
                                while !stop.load(SeqCst) {
                                    let (_, v) = c.q_dlq(q, 20, if r.chance(300) { 1 } else { 0 })?;
                                    let l = v.iter().map(|d| d.id).collect::<HashSet<_>>();
                                    ensure!(l.len() == v.len(), "dlq-dup", "one dead-letter page lists a message twice");
                                    for d in v.iter() {
                                        let m = key(&d.payload);
                                        match r.below(6) {
                                            0 => {
                                                let call = us();
                                                let (a, b) = (c.send(Q_MOVE, &W::new().s(q).raw(&d.id).0), c2.send(Q_DEL_DLQ, &W::new().s(q).raw(&d.id).0));
                                                let (a, b) = (as_bool(c.wait(a)?)?, as_bool(c2.wait(b)?)?);
                                                let ret = us();
                                                evs.lock().unwrap().extend([Ev { k: K::Move(a), m, call, ret }, Ev { k: K::Del(b), m, call, ret }]);
                                            }
                                            1 => {
                                                let call = us();
                                                let (a, b) = (c.send(Q_MOVE, &W::new().s(q).raw(&d.id).0), c2.send(Q_MOVE, &W::new().s(q).raw(&d.id).0));
                                                let (a, b) = (as_bool(c.wait(a)?)?, as_bool(c2.wait(b)?)?);
                                                let ret = us();
                                                evs.lock().unwrap().extend([Ev { k: K::Move(a), m, call, ret }, Ev { k: K::Move(b), m, call, ret }]);
                                            }
                                            2 if r.chance(300) => {
                                                let call = us();
                                                let a = c.q_del_dlq(q, &d.id)?;
                                                evs.lock().unwrap().push(Ev { k: K::Del(a), m, call, ret: us() });
                                            }
                                            3 => {
                                                let call = us();
                                                let a = c.q_move(q, &d.id)?;
                                                evs.lock().unwrap().push(Ev { k: K::Move(a), m, call, ret: us() });
                                            }
                                            _ => {}
                                        }
                                    }
                                    if purges && r.chance(30) {
                                        purged.fetch_add(c.q_purge(q)? as u64, SeqCst);
                                    }
                                    std::thread::sleep(Duration::from_micros(r.below(1500)));
                                }
                                return Ok(());
                            }
                            // consumer
                            let mut idle = 0;
                            while idle < 4 {
                                let done = producing.load(SeqCst) == 0;
                                let call = us();
                                let got = c.q_consume(q, Some(r.range(1, 5)), None)?;
                                let ret = us();
                                idle = if done && got.is_empty() { idle + 1 } else { 0 };
                                for m in &got {
                                    let k = key(&m.payload);
                                    ensure!(bodies.lock().unwrap().get(&k) == Some(&m.payload), "content", "a consumed message (number {}) has bytes that were never pushed", k);
                                    ids.lock().unwrap().insert(k, m.id);
                                    if let Some(o) = back.lock().unwrap().insert(m.id, k) {
                                        ensure!(o == k, "identity", "two messages share one id");
                                    }
                                    evs.lock().unwrap().push(Ev { k: K::Deliver, m: k, call, ret });
                                }
                                for m in &got {
                                    let k = key(&m.payload);
                                    let call = us();
                                    match r.below(10) {
                                        0..=2 => {
                                            let a = c.q_ack(q, &m.id)?;
                                            evs.lock().unwrap().push(Ev { k: K::Ack(a), m: k, call, ret: us() });
                                        }
                                        3..=4 => {
                                            // contested
                                            let b = W::new().raw(&m.id).s(q).0;
                                            let (x, y) = (c.send(Q_ACK, &b), c2.send(Q_ACK, &b));
                                            let (x, y) = (as_ok(c.wait(x)?)?, as_ok(c2.wait(y)?)?);
                                            let ret = us();
                                            evs.lock().unwrap().extend([Ev { k: K::Ack(x), m: k, call, ret }, Ev { k: K::Ack(y), m: k, call, ret }]);
                                            if frozen_phase {
                                                ensure!(x != y, "contested-ack", "of two acknowledgements of in-flight message #{} {} succeeded", k, x as u8 + y as u8);
                                            }
                                        }
                                        5..=7 => {
                                            let a = c.q_nack(q, &m.id, "n")?;
                                            evs.lock().unwrap().push(Ev { k: K::Nack(a), m: k, call, ret: us() });
                                            if frozen_phase {
                                                ensure!(a, "nack", "nack of in-flight message #{} failed", k);
                                            }
                                        }
                                        8 if !frozen_phase => {
                                            // nack contested by an ack
                                            let (x, y) = (c.send(Q_NACK, &W::new().raw(&m.id).s(q).s("cn").0), c2.send(Q_ACK, &W::new().raw(&m.id).s(q).0));
                                            let (x, y) = (as_ok(c.wait(x)?)?, as_ok(c2.wait(y)?)?);
                                            let ret = us();
                                            evs.lock().unwrap().extend([Ev { k: K::Nack(x), m: k, call, ret }, Ev { k: K::Ack(y), m: k, call, ret }]);
                                        }
                                        _ => {} // left to time out
                                    }
                                }
                                if idle > 0 {
                                    std::thread::sleep(Duration::from_millis(2));
                                }
                            }
                            Ok(())
                        };
                        if let Err(e) = run() {
                            errs.lock().unwrap().push(e);
                            stop.store(true, SeqCst);
                        }
                        if k < np {
                            producing.fetch_sub(1, SeqCst);
                        }
                    });
                }
                // time jumps race with the acknowledgements
                let t0 = Instant::now();
                let budget = Duration::from_millis(jump_rng.range(60, 250));
                while t0.elapsed() < budget && !stop.load(SeqCst) {
                    std::thread::sleep(Duration::from_micros(jump_rng.range(500, 12_000)));
                    if jumps {
                        let call = us();
                        srv.adv(vt + 60);
                        njumps.fetch_add(1, SeqCst);
                        evs.lock().unwrap().push(Ev { k: K::Jump, m: 0, call, ret: u64::MAX });
                    }
                }
                while producing.load(SeqCst) > 0 && !stop.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(2));
                }
                std::thread::sleep(Duration::from_millis(10));
                stop.store(true, SeqCst);
            });
            srv.ctl.calm();
            if let Some(e) = errs.into_inner().unwrap().pop() {
                return Err(e);
            }
            if !srv.quiet() {
                return Err(Fail::Inconclusive("the server does not come to rest".into()));
            }
            let evs = evs.into_inner().unwrap();
            let total = uniq.load(SeqCst);
            let bodies = bodies.into_inner().unwrap();
            let jumps_v: Vec<Ev> = evs.iter().filter(|e| e.k == K::Jump).cloned().collect();
            // final places
            let (p, f, d) = all(srv, &q)?;
            let mut place: HashMap<u64, &str> = HashMap::new();
            for (n, v) in [("ready", &p), ("in flight", &f), ("dead", &d)] {
                for i in v {
                    let k = key(&i.payload);
                    ensure!(bodies.get(&k) == Some(&i.payload), "content", "the {} listing has a message (number {}) with bytes that were never pushed", n, k);
                    if let Some(o) = place.insert(k, n) {
                        viol!("two-places", "message #{} is listed as {} and as {}", k, o, n)
                    }
                }
            }
            let mut missing = 0u64;
            let mut per: BTreeMap<u64, Vec<Ev>> = (0..total).map(|k| (k, vec![])).collect();
            for e in &evs {
                if e.k != K::Jump {
                    per.entry(e.m).or_default().push(*e);
                }
            }
            for (m, v) in per.iter_mut() {
                v.sort_by_key(|e| (e.call, e.ret));
                ctx.rep.eval(1);
                ctx.rep.distinct(hash64(format!("{:?}{:?}", v.iter().map(|e| e.k).collect::<Vec<_>>(), place.get(m)).as_bytes()));
                let removed: Vec<&Ev> = v.iter().filter(|e| matches!(e.k, K::Ack(true) | K::Del(true))).collect();
                let hist = || format!("{:?}", v.iter().map(|e| (e.k, e.call, e.ret)).collect::<Vec<_>>());
                ensure!(removed.len() <= 1, "removed-twice", "message #{} was removed successfully {} times: {}", m, removed.len(), hist());
                if let Some(r) = removed.first() {
                    if let Some(pl) = place.get(m) {
                        viol!("resurrected", "message #{} was removed (reported successful at {}) but is listed as {} at the end: {}", m, r.ret, pl, hist())
                    }
                    for e in v.iter() {
                        if e.call > r.ret && matches!(e.k, K::Deliver | K::Nack(true) | K::Move(true)) {
                            viol!("resurrected", "message #{} took part in {:?} after its removal at {}: {}", m, e.k, r.ret, hist())
                        }
                    }
                } else if !place.contains_key(m) {
                    missing += 1;
                    ensure!(purges, "lost", "message #{} was pushed, never removed, and is in no listing at the end: {}", m, hist());
                }
                let nd = v.iter().filter(|e| e.k == K::Deliver).count();
                let nn = v.iter().filter(|e| matches!(e.k, K::Nack(true))).count();
                let nm = v.iter().filter(|e| matches!(e.k, K::Move(true))).count();
                let rel = nn + jumps_v.len();
                ensure!(nd <= 1 + rel, "exclusive", "message #{} was delivered {} times with {} nacks and {} timeout instants: {}", m, nd, nn, jumps_v.len(), hist());
                ensure!(nm <= rel, "moves", "message #{} was replayed {} times with {} nacks and {} timeout instants: {}", m, nm, nn, jumps_v.len(), hist());
                // between replays it may be delivered at most max(1, max) times
                ensure!(nd as u64 <= (nm as u64 + 1) * max.max(1), "retries", "message #{} was delivered {} times with max_retries {} and {} replays: {}", m, nd, max, nm, hist());
                let mut ds: Vec<&Ev> = v.iter().filter(|e| e.k == K::Deliver).collect();
                ds.sort_by_key(|e| e.ret);
                for w in ds.windows(2) {
                    let ok = jumps_v.iter().any(|j| j.call < w[1].ret) && jumps || v.iter().any(|e| matches!(e.k, K::Nack(true)) && e.call < w[1].ret && e.ret > w[0].call);
                    ensure!(ok, "exclusive", "message #{} was delivered at {}..{} and again at {}..{} with no nack or timeout in between: {}", m, w[0].call, w[0].ret, w[1].call, w[1].ret, hist());
                }
            }
            let pg = purged.load(SeqCst);
            ensure!(missing == pg, "lost", "purges report {} removed messages in total but {} messages are gone without being acknowledged or deleted", pg, missing);
            let (cp, cf, cd) = counts(srv, &q)?;
            ensure!((cp, cf, cd) == (p.len() as u64, f.len() as u64, d.len() as u64), "counts", "counts {:?} do not match listings of {}/{}/{}", (cp, cf, cd), p.len(), f.len(), d.len());
            let by1 = all(srv, "by")?;
            if !jumps {
                ensure!(by0 == by1, "bystander", "an untouched queue changed");
            } else {
                let h = |b: &(Vec<Item>, Vec<Item>, Vec<Item>)| b.0.iter().chain(&b.1).chain(&b.2).map(|i| i.payload.clone()).collect::<BTreeSet<_>>();
                ensure!(h(&by0) == h(&by1), "bystander", "an untouched queue lost or gained messages");
            }
            ctx.rep.count("messages", total);
            ctx.rep.count("events", evs.len() as u64);
            ctx.rep.count("timeout_jumps", jumps_v.len() as u64);
            for c in &conns {
                c.0.check()?;
                c.1.check()?;
                c.0.close();
                c.1.close();
            }
            ctx.rep.sample(json!({"scenario": "conserve", "messages": total, "events": evs.len(), "jumps": jumps_v.len(), "final": [p.len(), f.len(), d.len()], "purged": pg}));
            setup.call(Q_DELETE, &W::new().s(&q).0)?;
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C08 races on the dead-letter queue
fn dlqrace_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    ctx.server(Cfg::frozen(), |ctx, srv| {
        let setup = srv.conn()?;
        let rounds = if ctx.thorough { 60 } else { 15 };
        setup.q_create("d", "{\"visibilityTimeoutMs\":999999999,\"maxRetries\":1}")?;
        let mut n = 0u64;
        for _ in 0..rounds {
            let cnt = ctx.rng.range(4, 60);
            let mut ids: Vec<(Id, u64)> = vec![];
            for _ in 0..cnt {
                n += 1;
                let pl = payload(&mut ctx.rng, n);
                setup.q_push("d", None, &pl)?;
            }
            for m in setup.q_consume("d", Some(1000), None)? {
                ensure!(setup.q_nack("d", &m.id, "r")?, "nack", "nack failed");
                ids.push((m.id, key(&m.payload)));
            }
            ensure!(ids.len() as u64 == cnt, "batch-size", "{} of {} delivered", ids.len(), cnt);
            if ctx.rng.chance(800) {
                srv.ctl.preempt(ctx.rng.range(60, 400), ctx.rng.range(200, 3000));
            }
            let nt = ctx.rng.range(2, 4) as usize;
            let with_purge = ctx.rng.chance(500);
            let wins: Mutex<Vec<(Id, bool)>> = Mutex::new(vec![]);
            let purge_sum = AtomicU64::new(0);
            let errs: Mutex<Vec<Fail>> = Mutex::new(vec![]);
            let mut rngs: Vec<Rng> = (0..nt + 1).map(|_| ctx.rng.fork()).collect();
            let conns: Vec<Conn> = (0..nt + 1).map(|_| srv.conn()).collect::<Result<_, _>>()?;
            std::thread::scope(|sc| {
                for k in 0..nt + 1 {
                    let c = conns[k].clone();
                    let mut r = rngs.remove(0);
                    let mut mine = ids.clone();
                    let (wins, errs, purge_sum) = (&wins, &errs, &purge_sum);
                    sc.spawn(move || {
                        let mut run = || -> Result<(), Fail> {
                            if k == nt {
                                for _ in 0..r.range(1, 4) {
                                    std::thread::sleep(Duration::from_micros(r.below(4000)));
                                    if with_purge {
                                        purge_sum.fetch_add(c.q_purge("d")? as u64, SeqCst);
                                    } else {
                                        let (t, v) = c.q_dlq("d", 1000, 0)?;
                                        ensure!(t as usize == v.len(), "dlq-total", "a dead-letter page from offset 0 has {} entries with total {}", v.len(), t);
                                        ensure!(v.iter().map(|d| d.id).collect::<HashSet<_>>().len() == v.len(), "dlq-dup", "one dead-letter page lists a message twice");
                                    }
                                }
                                return Ok(());
                            }
                            if r.chance(700) {
                                r.shuffle(&mut mine);
                            }
                            // pipelined so that requests of several connections meet
                            let mut sent = vec![];
                            for (id, _) in &mine {
                                let mv = r.chance(600);
                                sent.push((c.send(if mv { Q_MOVE } else { Q_DEL_DLQ }, &W::new().s("d").raw(id).0), *id, mv));
                                if sent.len() >= 4 {
                                    for (x, id, mv) in sent.drain(..) {
                                        if as_bool(c.wait(x)?)? {
                                            wins.lock().unwrap().push((id, mv));
                                        }
                                    }
                                }
                            }
                            for (x, id, mv) in sent.drain(..) {
                                if as_bool(c.wait(x)?)? {
                                    wins.lock().unwrap().push((id, mv));
                                }
                            }
                            Ok(())
                        };
                        if let Err(e) = run() {
                            errs.lock().unwrap().push(e);
                        }
                    });
                }
            });
            srv.ctl.calm();
            if let Some(e) = errs.into_inner().unwrap().pop() {
                return Err(e);
            }
            let wins = wins.into_inner().unwrap();
            let mut seen: HashMap<Id, bool> = HashMap::new();
            for (id, mv) in &wins {
                ctx.rep.eval(1);
                if seen.insert(*id, *mv).is_some() {
                    viol!("two-winners", "one dead-lettered message was moved or deleted successfully twice")
                }
            }
            let left = list(srv, "d", "dlq", 1000)?;
            ensure!(left.is_empty(), "dlq-left", "{} messages are still dead-lettered after every one was moved, deleted or purged", left.len());
            let ps = purge_sum.load(SeqCst);
            ensure!(ps + wins.len() as u64 == cnt, "purge", "{} dead-lettered messages: {} moved or deleted, purges report {}", cnt, wins.len(), ps);
            let ready: BTreeSet<Id> = list(srv, "d", "pending", 1000)?.iter().map(|i| i.id).collect();
            let moved: BTreeSet<Id> = seen.iter().filter(|x| *x.1).map(|x| *x.0).collect();
            ensure!(ready == moved, "moved-set", "{} messages are ready after {} successful replays", ready.len(), moved.len());
            for m in setup.q_consume("d", Some(1000), None)? {
                ensure!(setup.q_ack("d", &m.id)?, "ack", "ack of a replayed message failed");
            }
            ctx.rep.count("race_rounds", 1);
            ctx.rep.count("moved", moved.len() as u64);
            ctx.rep.count("purged", ps);
            ctx.rep.distinct(hash64(format!("{}{}{}", cnt, moved.len(), ps).as_bytes()));
            for c in &conns {
                c.check()?;
                c.close();
            }
        }
        ctx.rep.sample(json!({"scenario": "dlqrace", "rounds": rounds, "messages": n}));
        Ok(())
    })
}

// ------------------------------------------------------------------ C09
#[derive(Debug, Clone, PartialEq)]
enum CK {
    Push,
    Deliver,
    Ack,
    Nack(String),
    Move,
    Del,
}
#[derive(Debug, Clone)]
struct CE {
    k: CK,
    call: u64,
    ret: u64,
}
#[derive(Debug, Clone, PartialEq)]
enum CS {
    Absent,
    Ready(u64),
    Flight(u64),
    Dead(u64, String),
}
impl CS {
    fn step(&self, k: &CK, max: u64) -> Option<CS> {
        Some(match (self, k) {
            (CS::Absent, CK::Push) => CS::Ready(0),
            (CS::Ready(a), CK::Deliver) => CS::Flight(a + 1),
            (CS::Flight(_), CK::Ack) => CS::Absent,
            (CS::Flight(a), CK::Nack(r)) => {
                if *a >= max {
                    CS::Dead(*a, r.clone())
                } else {
                    CS::Ready(*a)
                }
            }
            (CS::Dead(..), CK::Move) => CS::Ready(0),
            (CS::Dead(..), CK::Del) => CS::Absent,
            _ => return None,
        })
    }
}
struct CM {
    payload: Vec<u8>,
    prio: u8,
    /// call and return of the push, over all lives
    pushed: (u64, u64),
    base: CS,
    evs: Vec<CE>,
    /// operations that were never answered in this life
    pend: Vec<CE>,
    virgin: bool,
}
enum Pend {
    Op(u64, CE),
    Consume(u64),
}

fn crash_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let wb = *ctx.rng.pick(&[1u64, 2, 5, 50, 50_000, 50_000]);
    let flush = 100u64;
    let cfg = Cfg::frozen().set("QUEUE_DEFAULT_FLUSH_MS", flush).set("QUEUE_WRITER_BATCH_SIZE", wb);
    ctx.server(cfg, |ctx, srv| {
        let q = "crash";
        let max = ctx.rng.range(1, 3);
        let vt = 3_600_000u64;
        let nprio = *ctx.rng.pick(&[1u64, 2, 3]);
        srv.conn()?.q_create(q, &format!("{{\"visibilityTimeoutMs\":{},\"maxRetries\":{}}}", vt, max))?;
        let us = clock();
        let uniq = AtomicU64::new(1);
        let ms: Mutex<BTreeMap<u64, CM>> = Mutex::new(BTreeMap::new());
        let mut ids: HashMap<u64, Id> = HashMap::new();
        let lives = if ctx.thorough { 16 } else { 6 };
        for life in 0..lives {
            let mut floor = 0u64;
            let mut crashed = String::new();
            let mut pend_consumes: Vec<u64> = vec![];
            let phases = ctx.rng.range(1, 3);
            // messages in flight from an earlier life are adopted
            let mut held: Vec<(u64, Id)> = ms.lock().unwrap().iter().filter(|x| matches!(x.1.base, CS::Flight(_))).filter_map(|x| ids.get(x.0).map(|i| (*x.0, *i))).collect();
            for phase in 0..phases {
                let last = phase + 1 == phases;
                let nk = ctx.rng.range(1, 4) as usize;
                let nops = ctx.rng.range(3, 60) as usize;
                // 0: idle kill, 1: kill while running, 2: crash at a file operation while running, 3: crash at a file operation of the flush afterwards
                let mode = if last { ctx.rng.below(4) } else { 9 };
                if ctx.rng.chance(600) {
                    srv.ctl.preempt(ctx.rng.range(60, 400), ctx.rng.range(200, 4000));
                }
                let stop = AtomicBool::new(false);
                let errs: Mutex<Vec<Fail>> = Mutex::new(vec![]);
                let pends: Mutex<Vec<Pend>> = Mutex::new(vec![]);
                let allids: Mutex<HashMap<u64, Id>> = Mutex::new(HashMap::new());
                let running = AtomicU64::new(nk as u64);
                let mut rngs: Vec<Rng> = (0..nk).map(|_| ctx.rng.fork()).collect();
                let mut parts: Vec<Vec<(u64, Id)>> = vec![vec![]; nk];
                for (i, h) in held.drain(..).enumerate() {
                    parts[i % nk].push(h);
                }
                let back: Mutex<Vec<(u64, Id)>> = Mutex::new(vec![]);
                let conns: Vec<Conn> = (0..nk).map(|_| srv.conn()).collect::<Result<_, _>>()?;
                if mode == 2 {
                    srv.ctl.crash_after(ctx.rng.range(0, 80) as i64, if ctx.rng.chance(300) { ctx.rng.below(1000) } else { 0 });
                }
                let kill_at = Duration::from_micros(ctx.rng.below(30_000));
                let mut dead = false;
                let bias = ctx.rng.range(20, 60);
                std::thread::scope(|sc| {
                    for k in 0..nk {
                        let c = conns[k].clone();
                        let mut r = rngs.remove(0);
                        let mut mine = std::mem::take(&mut parts[k]);
                        let (uniq, ms, errs, pends, stop, allids, running, back) = (&uniq, &ms, &errs, &pends, &stop, &allids, &running, &back);
                        sc.spawn(move || {
                            // None: the server is gone
                            let mut run = |mine: &mut Vec<(u64, Id)>| -> Result<Option<()>, Fail> {
                                macro_rules! rpc {
                                    ($op:expr, $body:expr, $pend:expr) => {{
                                        let id = c.send($op, &$body);
                                        match c.wait_for(id, c.patience) {
                                            Ok((r, _)) => r,
                                            Err(_) => {
                                                pends.lock().unwrap().push($pend);
                                                return Ok(None);
                                            }
                                        }
                                    }};
                                }
                                let mut dead: Vec<(u64, Id)> = vec![];
                                for _ in 0..nops {
                                    if stop.load(SeqCst) {
                                        return Ok(Some(()));
                                    }
                                    let x = r.below(100);
                                    if x < bias {
                                        let n = uniq.fetch_add(1, SeqCst);
                                        let prio = r.below(nprio) as u8;
                                        let pl = payload(&mut r, n);
                                        let call = us();
                                        ms.lock().unwrap().insert(n, CM { payload: pl.clone(), prio, pushed: (call, u64::MAX), base: CS::Absent, evs: vec![], pend: vec![], virgin: true });
                                        let rsp = rpc!(Q_PUSH, enc_push(q, Some(prio), &pl), Pend::Op(n, CE { k: CK::Push, call, ret: u64::MAX }));
                                        let ret = us();
                                        ensure!(rsp == Resp::Ok, "reply", "push answered {}", rsp.short());
                                        let mut g = ms.lock().unwrap();
                                        let m = g.get_mut(&n).unwrap();
                                        m.pushed.1 = ret;
                                        m.evs.push(CE { k: CK::Push, call, ret });
                                    } else if x < 75 || mine.is_empty() && dead.is_empty() && k != 0 {
                                        let call = us();
                                        let rsp = rpc!(Q_CONSUME, enc_consume(q, Some(r.range(1, 3)), None), Pend::Consume(call));
                                        let ret = us();
                                        for m in as_batch(rsp)? {
                                            let n = key(&m.payload);
                                            let mut g = ms.lock().unwrap();
                                            let e = g.get_mut(&n);
                                            match e {
                                                Some(e) if e.payload == m.payload => {
                                                    e.evs.push(CE { k: CK::Deliver, call, ret });
                                                    e.virgin = false;
                                                }
                                                _ => viol!("content", "a delivered message (number {}) has bytes that were never pushed", n),
                                            }
                                            allids.lock().unwrap().insert(n, m.id);
                                            mine.push((n, m.id));
                                        }
                                    } else if k == 0 && (x < 85 || mine.is_empty()) {
                                        // administrator of dead letters
                                        if dead.is_empty() {
                                            if let Resp::Data(d) = rpc!(Q_PEEK_DLQ, W::new().s(q).u32(10).u32(0).0, Pend::Consume(u64::MAX)) {
                                                for d in dec_dlq(&d).ok_or_else(|| Fail::v("decode", "undecodable DLQ listing".into()))?.1 {
                                                    dead.push((key(&d.payload), d.id));
                                                }
                                            }
                                        }
                                        if !dead.is_empty() {
                                            let (n, id) = dead.swap_remove(r.below(dead.len() as u64) as usize);
                                            let mv = r.chance(650);
                                            let ck = if mv { CK::Move } else { CK::Del };
                                            let call = us();
                                            let rsp = rpc!(if mv { Q_MOVE } else { Q_DEL_DLQ }, W::new().s(q).raw(&id).0, Pend::Op(n, CE { k: ck.clone(), call, ret: u64::MAX }));
                                            let ret = us();
                                            let ok = as_bool(rsp)?;
                                            ensure!(ok, "dlq-op", "the only administrator's {:?} of dead-lettered #{} reports false", ck, n);
                                            ms.lock().unwrap().get_mut(&n).ok_or_else(|| Fail::v("foreign", format!("unknown dead letter {}", n)))?.evs.push(CE { k: ck, call, ret });
                                        }
                                    } else if !mine.is_empty() {
                                        let (n, id) = mine.swap_remove(r.below(mine.len() as u64) as usize);
                                        let call = us();
                                        if r.chance(500) {
                                            let rsp = rpc!(Q_ACK, W::new().raw(&id).s(q).0, Pend::Op(n, CE { k: CK::Ack, call, ret: u64::MAX }));
                                            let ret = us();
                                            ensure!(rsp == Resp::Ok, "ack", "ack of held message #{} answered {}", n, rsp.short());
                                            ms.lock().unwrap().get_mut(&n).unwrap().evs.push(CE { k: CK::Ack, call, ret });
                                        } else {
                                            let reason = format!("r{}", call);
                                            let rsp = rpc!(Q_NACK, W::new().raw(&id).s(q).s(&reason).0, Pend::Op(n, CE { k: CK::Nack(reason.clone()), call, ret: u64::MAX }));
                                            let ret = us();
                                            ensure!(rsp == Resp::Ok, "nack", "nack of held message #{} answered {}", n, rsp.short());
                                            ms.lock().unwrap().get_mut(&n).unwrap().evs.push(CE { k: CK::Nack(reason), call, ret });
                                        }
                                    }
                                }
                                Ok(Some(()))
                            };
                            match run(&mut mine) {
                                Err(e) => errs.lock().unwrap().push(e),
                                _ => {}
                            }
                            back.lock().unwrap().extend(mine);
                            running.fetch_sub(1, SeqCst);
                        });
                    }
                    let t0 = Instant::now();
                    while running.load(SeqCst) > 0 {
                        std::thread::sleep(Duration::from_micros(700));
                        if mode == 1 && !dead && t0.elapsed() > kill_at {
                            srv.kill();
                            dead = true;
                        }
                        if mode == 2 || mode == 1 && wb > 10 {
                            srv.adv(flush + 5);
                        }
                    }
                });
                if let Some(e) = errs.into_inner().unwrap().pop() {
                    return Err(e);
                }
                for (n, id) in allids.into_inner().unwrap() {
                    if let Some(o) = ids.insert(n, id) {
                        ensure!(o == id, "identity", "message #{} was delivered under two ids", n);
                    }
                }
                held = back.into_inner().unwrap();
                for p in pends.into_inner().unwrap() {
                    match p {
                        Pend::Consume(t) => pend_consumes.push(t),
                        Pend::Op(n, e) => ms.lock().unwrap().get_mut(&n).unwrap().pend.push(e),
                    }
                }
                if dead {
                    crashed = "kill while running".into();
                    break;
                }
                match mode {
                    2 => {
                        for _ in 0..6 {
                            srv.adv(flush + 5);
                            if srv.wait_dead(Duration::from_millis(25)) {
                                break;
                            }
                        }
                        if !srv.alive() {
                            crashed = format!("file operation kind {}", srv.ctl.crashed_kind_peek());
                            ctx.rep.count("crashes_at_file_operations", 1);
                            srv.wait_dead(Duration::from_secs(1));
                        } else {
                            crashed = "kill after the last operation".into();
                        }
                        break;
                    }
                    3 => {
                        let n = ctx.rng.range(0, 40) as i64;
                        srv.ctl.crash_after(n, if ctx.rng.chance(400) { ctx.rng.below(1000) } else { 0 });
                        for _ in 0..3 {
                            srv.adv(flush + 5);
                            if srv.wait_dead(Duration::from_millis(40)) {
                                crashed = format!("flush file operation {} kind {}", n, srv.ctl.crashed_kind_peek());
                                ctx.rep.count("crashes_at_file_operations", 1);
                                break;
                            }
                        }
                        break;
                    }
                    0 => break,
                    _ => {
                        let t = us();
                        srv.flushed(flush)?;
                        floor = t;
                        ctx.rep.count("completed_flushes", 1);
                        if ctx.rng.chance(150) {
                            // nothing else is running: a purge removes exactly what is dead now
                            let c = srv.conn()?;
                            let call = us();
                            let n = c.q_purge(q)? as usize;
                            let ret = us();
                            let mut g = ms.lock().unwrap();
                            let mut cnt = 0;
                            for (k, m) in g.iter_mut() {
                                if let CS::Dead(..) = chain(m, max, *k)?.last().unwrap().1 {
                                    m.evs.push(CE { k: CK::Del, call, ret });
                                    cnt += 1;
                                }
                            }
                            ensure!(cnt == n, "purge", "purge reports {} of {} dead letters", n, cnt);
                        }
                    }
                }
            }
            srv.kill();
            if crashed.is_empty() {
                crashed = "kill when idle".into();
            }
            let end_of_life = us();
            if ctx.rng.chance(150) {
                // dies again while recovering
                srv.ctl.calm();
                srv.ctl.crashed_kind();
                srv.ctl.crash_after(ctx.rng.range(0, 25) as i64, 0);
                match srv.reboot() {
                    Ok(()) => {}
                    Err(Fail::Inconclusive(_)) => ctx.rep.count("crashes_during_recovery", 1),
                    Err(e) => return Err(e),
                }
            }
            srv.restart()?;
            ctx.t(format!("life {}: {}; floor {}", life, crashed, floor));
            // recovered state
            let mut rec: BTreeMap<u64, CS> = BTreeMap::new();
            let mut g = ms.lock().unwrap();
            for st in ["pending", "inflight", "dlq"] {
                for i in list(srv, q, st, 1000)? {
                    let k = key(&i.payload);
                    match g.get(&k) {
                        Some(m) if m.payload == i.payload => ensure!(st == "dlq" || m.prio as u64 == i.prio, "priority", "message #{} was pushed with priority {} and recovered with {}", k, m.prio, i.prio),
                        _ => viol!("content", "after a crash the {} listing has a message (number {}) with bytes that were never pushed", st, k),
                    }
                    if let Some(o) = ids.insert(k, i.id) {
                        ensure!(o == i.id, "identity", "message #{} came back under another id", k);
                    }
                    let s = match st {
                        "pending" => CS::Ready(i.attempts),
                        "inflight" => CS::Flight(i.attempts),
                        _ => CS::Dead(i.attempts, i.reason),
                    };
                    if let Some(o) = rec.insert(k, s.clone()) {
                        viol!("two-places", "after a crash message #{} is in two places: {:?} and {:?}", k, o, s)
                    }
                }
            }
            let v = srv.get("/api/queue")?;
            ensure!(v[0]["name"] == q && v[0]["config"] == json!({"visibility_timeout_ms": vt, "max_retries": max}), "options", "after a crash the queues are {}", v);
            // consistent cut
            ctx.rep.eval(1);
            ctx.rep.count("recoveries_checked", 1);
            judge(&g, &rec, max, floor, &pend_consumes, &crashed)?;
            ctx.rep.count("messages_judged", g.len() as u64);
            ctx.rep.distinct(hash64(format!("{}{:?}", crashed, rec).as_bytes()));
            // next life starts from here
            g.retain(|k, _| rec.contains_key(k));
            for (k, m) in g.iter_mut() {
                m.base = rec[k].clone();
                m.virgin = m.virgin && m.base == CS::Ready(0);
                if m.pushed.1 == u64::MAX {
                    m.pushed.1 = end_of_life;
                }
                m.evs.clear();
                m.pend.clear();
            }
            // delivery order of what is ready
            if ctx.rng.chance(400) || life + 1 == lives {
                let c = srv.conn()?;
                let mut left: BTreeSet<u64> = g.iter().filter(|m| matches!(m.1.base, CS::Ready(_))).map(|m| *m.0).collect();
                while !left.is_empty() {
                    let call = us();
                    let got = c.q_consume(q, Some(ctx.rng.range(1, 20)), None)?;
                    let ret = us();
                    ensure!(!got.is_empty(), "short", "{} recovered ready messages are not delivered", left.len());
                    for m in got {
                        let k = key(&m.payload);
                        ensure!(left.remove(&k), "foreign", "message #{} was delivered but not listed as ready after the crash", k);
                        let a = &g[&k];
                        for o in &left {
                            let b = &g[o];
                            ensure!(b.prio <= a.prio, "order", "after a crash #{} (prio {}) is delivered before #{} (prio {})", k, a.prio, o, b.prio);
                            ensure!(!(a.prio == b.prio && a.virgin && b.virgin && b.pushed.1 < a.pushed.0), "order", "after a crash #{} (pushed {:?}) is delivered before #{} (pushed {:?})", k, a.pushed, o, b.pushed);
                        }
                        let a = g.get_mut(&k).unwrap();
                        a.evs.push(CE { k: CK::Deliver, call, ret });
                        a.virgin = false;
                    }
                }
                ctx.rep.count("drains_checked", 1);
            }
        }
        ctx.rep.sample(json!({"scenario": "crash", "writer_batch": wb, "lives": lives, "messages": uniq.load(SeqCst), "log": ctx.trace.lock().unwrap().clone()}));
        Ok(())
    })
}

/// The message's positions in this life: (latest call needed, state) after each event, in order of effect.
fn chain(m: &CM, max: u64, n: u64) -> Result<Vec<(CE, CS)>, Fail> {
    let mut evs = m.evs.clone();
    evs.sort_by_key(|e| match e.k {
        CK::Push => 0,
        CK::Deliver => e.ret,
        _ => e.call,
    });
    let mut pend = m.pend.clone();
    let mut out = vec![(CE { k: CK::Push, call: 0, ret: 0 }, m.base.clone())];
    for e in evs {
        let mut s = out.last().unwrap().1.clone();
        if s.step(&e.k, max).is_none() {
            // an operation that was never answered took effect before
            if let Some((i, t)) = pend.iter().enumerate().find_map(|(i, p)| s.step(&p.k, max).filter(|t| t.step(&e.k, max).is_some()).map(|t| (i, t))) {
                out.push((pend.remove(i), t.clone()));
                s = t;
            }
        }
        match s.step(&e.k, max) {
            Some(t) => out.push((e, t)),
            None => viol!("history", "message #{} in state {:?} took part in {:?}; history {:?}", n, s, e, m.evs),
        }
    }
    // what is left may or may not have happened at the end
    for _ in 0..pend.len() {
        let s = out.last().unwrap().1.clone();
        if let Some((i, t)) = pend.iter().enumerate().find_map(|(i, p)| s.step(&p.k, max).map(|t| (i, t))) {
            out.push((pend.remove(i), t));
        }
    }
    Ok(out)
}

fn judge(g: &BTreeMap<u64, CM>, rec: &BTreeMap<u64, CS>, max: u64, floor: u64, pend_consumes: &[u64], crashed: &str) -> Result<(), Fail> {
    struct P {
        ch: Vec<(CE, CS)>,
        ok: Vec<bool>,
        x: usize,
    }
    let pc = pend_consumes.iter().min().cloned().filter(|t| *t != u64::MAX);
    let mut ps: BTreeMap<u64, P> = BTreeMap::new();
    for (n, m) in g {
        let mut ch = chain(m, max, *n)?;
        // an unanswered consume may have taken a ready message (also one made ready by an unanswered operation)
        if let (Some(t), CS::Ready(a)) = (pc, ch.last().unwrap().1.clone()) {
            ch.push((CE { k: CK::Deliver, call: t, ret: u64::MAX }, CS::Flight(a + 1)));
        }
        let r = rec.get(n).cloned().unwrap_or(CS::Absent);
        let ok: Vec<bool> = ch.iter().map(|c| c.1 == r).collect();
        if !ok.iter().any(|x| *x) {
            viol!("state", "after {} message #{} is {:?}, a state it was never in: {:?}", crashed, n, r, ch)
        }
        ps.insert(*n, P { ch, ok, x: 0 });
    }
    let mut t = floor;
    let mut why: String = format!("the flush completed before {}", floor);
    loop {
        let mut changed = false;
        let mut nt = t;
        let mut nwhy = why.clone();
        for (n, p) in ps.iter_mut() {
            let need = (0..p.ch.len()).rev().find(|i| *i > 0 && p.ch[*i].0.ret < t).unwrap_or(0).max(p.x);
            match (need..p.ch.len()).find(|i| p.ok[*i]) {
                Some(x) => {
                    if x != p.x {
                        changed = true;
                        p.x = x;
                    }
                }
                None => {
                    let r = rec.get(n).cloned().unwrap_or(CS::Absent);
                    viol!(
                        "cut",
                        "after {} message #{} is {:?}, which lacks {:?} although that completed before {} began or was flushed ({}); its history: {:?}",
                        crashed,
                        n,
                        r,
                        p.ch[need].0,
                        t,
                        why,
                        p.ch.iter().map(|c| format!("{:?} {}..{} => {:?}", c.0.k, c.0.call, c.0.ret, c.1)).collect::<Vec<_>>()
                    )
                }
            }
            for i in 1..=p.x {
                if p.ch[i].0.call > nt {
                    nt = p.ch[i].0.call;
                    nwhy = format!("{:?} of message #{} at {}..{} is reflected", p.ch[i].0.k, n, p.ch[i].0.call, p.ch[i].0.ret);
                }
            }
        }
        if nt > t {
            t = nt;
            why = nwhy;
            changed = true;
        }
        if !changed {
            return Ok(());
        }
    }
}
