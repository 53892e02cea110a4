//! C22: storage errors and exhausted descriptors.
use super::queue::{list, Item};
use super::stream::{body, contiguous, groups, num, read, read_all};
use crate::client::*;
use crate::ctl::kind;
use crate::proto::*;
use crate::report::Fail;
use crate::rng::{hash64, Rng};
use crate::run::{Ctx, Spec};
use crate::server::{Cfg, Server};
use crate::{ensure, viol};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::net::TcpStream;

pub fn spec() -> Spec {
    Spec {
        scenarios: vec![("errors", 3, errors_scn), ("descriptors", 1, descriptors_scn)],
        par: 6,
        quick_s: 45,
        thorough_s: 420,
        level: "fault_enumeration",
        rule: "Queues, streams with tiny segments, small RAM windows and few cached handles, groups and retained values are worked on while file operations fail at random (ENOSPC, EIO, EMFILE, EACCES on random subsets of write, pwrite, truncate, rename, unlink, create, mkdir, sync, open, read; part of a failing write may get through), or while a flood of connections uses up the descriptors. The monitor keeps the exact state. While it lasts: every request is answered, only creations and deletions may be refused, reads and group deliveries have no gaps. Then either the condition ends, the flush intervals pass, and the listings must equal the model, survive kill and restart unchanged, and groups must get everything from their position on; or the server is killed in the middle, and every message, position and retained value must be one of those it had since it was last known to be on disk, confirmed creations and deletions in effect. One evaluation = one judged queue, stream, group or retained state; distinct by fault kind and state.",
        assumptions: vec!["errors are injected at the C library's file calls below the data directory (SQLite's included), not while the server starts", "crash = SIGKILL of the process (page cache survives)"],
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ex {
    No,
    Yes,
    /// an operation on it was refused
    Unknown,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum M {
    Pending,
    Flying,
    Dead,
    Gone,
}
struct Msg {
    id: Option<Id>,
    payload: Vec<u8>,
    attempts: u64,
    st: M,
    /// states since it was last known to be on disk
    hist: Vec<M>,
}
struct Queue {
    name: String,
    ex: Ex,
    retries: u64,
    m: BTreeMap<u64, Msg>,
}
impl Queue {
    fn set(&mut self, n: u64, s: M) {
        let m = self.m.get_mut(&n).unwrap();
        m.st = s;
        m.hist.push(s);
    }
    fn in_state(&self, s: M) -> Vec<u64> {
        self.m.iter().filter(|x| x.1.st == s).map(|x| *x.0).collect()
    }
}
struct Group {
    name: String,
    join: Option<Joined>,
    /// next position to be delivered
    next: u64,
    floor: u64,
    saved: u64,
    open: BTreeSet<u64>,
}
impl Group {
    /// Where the floor is once everything before `first` has been removed by retention.
    fn beyond(&self, first: u64) -> u64 {
        let next = self.next.max(first);
        self.open.iter().find(|p| **p >= first).map_or(next - 1, |p| p - 1).max(self.floor)
    }
}
struct Stream {
    name: String,
    ex: Ex,
    log: Vec<(u64, u64)>, // number, hash of the payload
    sizes: Vec<u64>,
    durable: u64,
    bytes: Option<u64>,
    /// the most bytes appended between two points known to be on disk: they may share a segment
    window: u64,
    head: u64,
    groups: Vec<Group>,
}
struct World {
    q: Vec<Queue>,
    s: Vec<Stream>,
    kept: BTreeMap<String, Vec<Option<Vec<u8>>>>, // values since the last one known to be on disk
    uniq: u64,
    tag: u64,
    big: usize,
    segment: u64,
}
#[derive(Clone, Debug)]
enum Fault {
    None,
    Err(&'static str, i32, u64, u64),
    Flood,
}
const ALL: [u64; 10] = [kind::WRITE, kind::PWRITE, kind::TRUNC, kind::RENAME, kind::UNLINK, kind::CREAT, kind::MKDIR, kind::SYNC, kind::OPEN, kind::READ];

fn pick_fault(r: &mut Rng) -> Fault {
    let some = |r: &mut Rng, v: &[u64], p: u64| {
        let mut m = 0;
        while m == 0 {
            m = v.iter().filter(|_| r.chance(p)).sum();
        }
        m
    };
    match r.below(9) {
        0 => Fault::None,
        1 | 2 => {
            let m = some(r, &[kind::WRITE, kind::PWRITE, kind::CREAT, kind::MKDIR, kind::TRUNC], 800);
            Fault::Err("ENOSPC", libc::ENOSPC, *r.pick(&[1000, 1000, 500, 100]), m)
        }
        3 | 4 => Fault::Err("EMFILE", libc::EMFILE, *r.pick(&[1000, 500, 200]), kind::OPEN),
        5 => {
            let m = if r.chance(400) { kind::UNLINK } else { some(r, &[kind::CREAT, kind::UNLINK, kind::RENAME, kind::MKDIR, kind::OPEN], 600) };
            Fault::Err("EACCES", libc::EACCES, *r.pick(&[1000, 500, 300]), m)
        }
        6 => {
            let m = *r.pick(&ALL);
            Fault::Err("EIO", libc::EIO, *r.pick(&[1000, 500, 100]), m)
        }
        _ => {
            let m = some(r, &ALL, 400);
            Fault::Err("EIO", libc::EIO, *r.pick(&[1000, 300, 60, 20]), m)
        }
    }
}
impl Fault {
    fn reads_fail(&self) -> bool {
        match self {
            Fault::None => false,
            Fault::Err(_, _, _, m) => m & (kind::OPEN | kind::READ) != 0,
            Fault::Flood => true,
        }
    }
    fn name(&self) -> String {
        match self {
            Fault::None => "no fault".into(),
            Fault::Err(n, _, p, m) => format!("{} {}/1000 on {:#x}", n, p, m),
            Fault::Flood => "no descriptors".into(),
        }
    }
}

// ------------------------------------------------------------------ work
fn due(r: &Resp, on: bool, what: &str) -> Result<bool, Fail> {
    match r {
        Resp::Ok => Ok(true),
        Resp::Err(e) if on => {
            let _ = e;
            Ok(false)
        }
        r => Err(Fail::v("reply", format!("{} answered {}", what, r.short()))),
    }
}
fn step(ctx: &mut Ctx, srv: &Server, c: &Conn, w: &mut World, f: &Fault) -> Result<(), Fail> {
    let faulty = !matches!(f, Fault::None);
    let r = &mut ctx.rng;
    let x = r.below(100);
    if x < 30 {
        let k = r.below(w.q.len() as u64) as usize;
        let q = &mut w.q[k];
        if q.ex != Ex::Yes {
            return create_queue(ctx, c, w, k, faulty);
        }
        let flying = q.in_state(M::Flying);
        match r.below(14) {
            0..=5 => {
                // at times more than any writer holds back for a while
                for _ in 0..if r.chance(40) && q.m.len() < 300 { r.range(30, 150) } else { 1 } {
                    w.uniq += 1;
                    let p = body(r, w.uniq, w.big);
                    ensure!(c.q_push(&q.name, if r.chance(300) { Some(r.below(4) as u8) } else { None }, &p)? == Resp::Ok, "reply", "push to {:?} refused", q.name);
                    q.m.insert(w.uniq, Msg { id: None, payload: p, attempts: 0, st: M::Pending, hist: vec![M::Gone, M::Pending] });
                }
            }
            6 | 7 => {
                let n = r.range(1, 5);
                let have = q.in_state(M::Pending).len() as u64;
                let got = c.q_consume(&q.name, Some(n), Some(0))?;
                ensure!(got.len() as u64 == n.min(have), "consume", "consume of up to {} from {:?} with {} available messages returned {}", n, q.name, have, got.len());
                for g in got {
                    let k = num(&g.payload).unwrap_or(0);
                    let ok = q.m.get(&k).map_or(false, |m| m.st == M::Pending && m.payload == g.payload);
                    ensure!(ok, "consume", "{:?} delivered {} which is not available there", q.name, preview(&g.payload));
                    q.set(k, M::Flying);
                    let m = q.m.get_mut(&k).unwrap();
                    m.id = Some(g.id);
                    m.attempts += 1;
                }
            }
            8 | 9 if !flying.is_empty() => {
                let k = *r.pick(&flying);
                let id = q.m[&k].id.unwrap();
                ensure!(c.q_ack(&q.name, &id)?, "reply", "ack of message {} in flight from {:?} refused", k, q.name);
                q.set(k, M::Gone);
            }
            10 if !flying.is_empty() => {
                let k = *r.pick(&flying);
                let id = q.m[&k].id.unwrap();
                ensure!(c.q_nack(&q.name, &id, "bad")?, "reply", "nack of message {} in flight from {:?} refused", k, q.name);
                let dead = q.m[&k].attempts >= q.retries;
                q.set(k, if dead { M::Dead } else { M::Pending });
            }
            11 => {
                let dead = q.in_state(M::Dead);
                if let Some(k) = dead.first().copied() {
                    let (_, l) = c.q_dlq(&q.name, 1000, 0)?;
                    ensure!(l.len() == dead.len(), "dlq", "{:?} lists {} dead letters of {}", q.name, l.len(), dead.len());
                    let id = match l.iter().find(|m| num(&m.payload) == Some(k)) {
                        Some(m) => m.id,
                        None => viol!("dlq", "{:?} does not list dead letter {}", q.name, k),
                    };
                    if r.chance(500) {
                        ensure!(c.q_move(&q.name, &id)?, "reply", "replay of dead letter {} of {:?} refused", k, q.name);
                        q.set(k, M::Pending);
                        q.m.get_mut(&k).unwrap().attempts = 0;
                    } else {
                        ensure!(c.q_del_dlq(&q.name, &id)?, "reply", "deletion of dead letter {} of {:?} refused", k, q.name);
                        q.set(k, M::Gone);
                    }
                }
            }
            12 if r.chance(200) => {
                let dead = q.in_state(M::Dead);
                let n = c.q_purge(&q.name)?;
                ensure!(n as usize == dead.len(), "dlq", "purge of {:?} with {} dead letters reports {}", q.name, dead.len(), n);
                for k in dead {
                    q.set(k, M::Gone);
                }
            }
            13 if r.chance(250) => {
                let x = c.call(Q_DELETE, &W::new().s(&q.name).0)?;
                q.ex = if due(&x, faulty, "queue deletion")? { Ex::No } else { Ex::Unknown };
                ctx.rep.count(if q.ex == Ex::No { "deletions" } else { "deletions_refused" }, 1);
                q.m.clear();
            }
            _ => {}
        }
        return Ok(());
    }
    if x < 75 {
        let k = r.below(w.s.len() as u64) as usize;
        if w.s[k].ex != Ex::Yes {
            return create_stream(ctx, c, w, k, faulty);
        }
        let s = &mut w.s[k];
        match r.below(20) {
            0..=9 => {
                for _ in 0..r.range(1, 4) {
                    w.uniq += 1;
                    let p = body(r, w.uniq, w.big.min(300));
                    let seq = c.s_pub(&s.name, &p)?;
                    ensure!(seq == s.log.len() as u64 + 1, "seq", "{:?} gave position {} to message {}", s.name, seq, s.log.len() + 1);
                    s.log.push((w.uniq, hash64(&p)));
                    s.sizes.push(p.len() as u64);
                }
            }
            10..=13 => {
                let k = r.below(s.groups.len() as u64) as usize;
                let last = s.log.len() as u64;
                let n = r.range(1, 12) as u32;
                fetch(ctx, c, s, k, n, !f.reads_fail())?;
                let _ = last;
            }
            14..=16 => {
                let k = r.below(s.groups.len() as u64) as usize;
                let name = s.name.clone();
                let limited = s.bytes.is_some();
                let g = &mut s.groups[k];
                if let (Some(j), false) = (&g.join, g.open.is_empty()) {
                    let v: Vec<u64> = g.open.iter().copied().take(3).collect();
                    let p = *r.pick(&v);
                    match c.s_ack(&name, &g.name, j, p)? {
                        Ok(()) => {}
                        Err(e) if limited && e.contains("not pending") => {} // retention took it
                        Err(e) => viol!("reply", "ack of position {} delivered to group {:?} of {:?} answered {}", p, g.name, name, e),
                    }
                    g.open.remove(&p);
                    g.floor = g.open.iter().next().map_or(g.next - 1, |x| x - 1);
                }
            }
            17 | 18 if !matches!(f, Fault::Flood) => {
                let last = s.log.len() as u64;
                let from = r.range(s.head, last + 1);
                let (l, v) = read(srv, &s.name, from, r.range(1, 60))?;
                ensure!(l == last, "last", "{:?} reports last position {} of {}", s.name, l, last);
                if let (Some(first), true) = (v.first(), s.bytes.is_some()) {
                    ensure!(first.seq >= from, "contiguity", "reading {:?} from {} returned position {}", s.name, from, first.seq);
                    contiguous(&s.name, "a read", &v, first.seq)?;
                } else {
                    contiguous(&s.name, "a read", &v, from)?;
                    ensure!(f.reads_fail() || !v.is_empty() || from > last || s.bytes.is_some(), "gap", "reading {:?} from {} returns nothing, its last position is {} ({})", s.name, from, last, f.name());
                }
                same(s, &v, "a read")?;
                ctx.rep.count("reads_judged", 1);
            }
            19 if r.chance(250) => {
                let x = c.call(S_DELETE, &W::new().s(&s.name).0)?;
                s.ex = if due(&x, faulty, "stream deletion")? { Ex::No } else { Ex::Unknown };
                ctx.rep.count(if s.ex == Ex::No { "deletions" } else { "deletions_refused" }, 1);
                clear(s);
            }
            _ => {}
        }
        return Ok(());
    }
    if x < 85 {
        let t = format!("r/{}", r.below(8));
        w.uniq += 1;
        let v = if r.chance(200) { None } else { Some(body(r, w.uniq, 50)) };
        c.publish(&t, "{\"retain\":true}", v.as_deref().unwrap_or(b""))?;
        w.kept.entry(t).or_insert_with(|| vec![None]).push(v);
        return Ok(());
    }
    let ms = *r.pick(&[1, 10, 25, 60, 120, 600]);
    srv.adv(ms);
    if r.chance(600) {
        std::thread::sleep(std::time::Duration::from_millis(r.range(1, 6)));
    }
    Ok(())
}
fn clear(s: &mut Stream) {
    s.log.clear();
    s.sizes.clear();
    s.durable = 0;
    s.head = 1;
    for g in s.groups.iter_mut() {
        *g = Group { name: g.name.clone(), join: None, next: 1, floor: 0, saved: 0, open: BTreeSet::new() };
    }
}
/// The messages are the published ones.
fn same(s: &Stream, v: &[SMsg], what: &str) -> Result<(), Fail> {
    for m in v {
        let e = s.log.get(m.seq as usize - 1);
        ensure!(e == Some(&(num(&m.payload).unwrap_or(0), hash64(&m.payload))), "content", "{} of {:?}: position {} holds {}, published was message {:?}", what, s.name, m.seq, preview(&m.payload), e.map(|x| x.0));
    }
    Ok(())
}
fn fetch(ctx: &mut Ctx, c: &Conn, s: &mut Stream, k: usize, n: u32, strict: bool) -> Result<usize, Fail> {
    let last = s.log.len() as u64;
    let name = s.name.clone();
    let limited = s.bytes.is_some();
    let g = &mut s.groups[k];
    if g.join.is_none() {
        let j = c.s_join(&name, &g.name)?;
        ensure!(j.floor == g.floor || limited && j.floor >= g.floor, "floor", "group {:?} of {:?} starts at position {} instead of {}", g.name, name, j.floor, g.floor);
        g.floor = j.floor;
        g.next = j.floor + 1;
        g.join = Some(j);
    }
    let v = match c.s_fetch(&name, &g.name, g.join.as_ref().unwrap(), n, 0)? {
        Ok(v) => v,
        Err(e) => viol!("reply", "a fetch of group {:?} of {:?} answered {}", g.name, name, e),
    };
    ensure!(v.len() as u64 <= n as u64, "limit", "a fetch with limit {} returned {}", n, v.len());
    if limited {
        // retention may have taken what comes next
        if let Some(m) = v.first() {
            ensure!(m.seq >= g.next, "contiguity", "group {:?} of {:?} got position {} after {}", g.name, name, m.seq, g.next - 1);
            contiguous(&name, "a fetch", &v, m.seq)?;
        }
    } else {
        contiguous(&name, &format!("a fetch of group {:?}", g.name), &v, g.next)?;
        ensure!(!strict || !v.is_empty() || g.next > last, "gap", "group {:?} of {:?} gets nothing behind {}, the last position is {}", g.name, name, g.next - 1, last);
    }
    for m in &v {
        g.open.insert(m.seq);
    }
    if let Some(m) = v.last() {
        g.next = m.seq + 1;
    }
    let v2 = v.len();
    same(s, &v, "a fetch")?;
    ctx.rep.count("fetches_judged", 1);
    Ok(v2)
}
fn create_queue(ctx: &mut Ctx, c: &Conn, w: &mut World, k: usize, faulty: bool) -> Result<(), Fail> {
    let q = &mut w.q[k];
    if q.ex == Ex::Unknown {
        let x = c.call(Q_DELETE, &W::new().s(&q.name).0)?;
        if due(&x, faulty, "queue deletion")? {
            q.ex = Ex::No;
        }
        return Ok(());
    }
    q.ex = if due(&c.q_create(&q.name, &format!("{{\"maxRetries\":{}}}", q.retries))?, faulty, "queue creation")? { Ex::Yes } else { Ex::Unknown };
    ctx.rep.count(if q.ex == Ex::Yes { "creations" } else { "creations_refused" }, 1);
    Ok(())
}
fn create_stream(ctx: &mut Ctx, c: &Conn, w: &mut World, k: usize, faulty: bool) -> Result<(), Fail> {
    let s = &mut w.s[k];
    if s.ex == Ex::Unknown {
        let x = c.call(S_DELETE, &W::new().s(&s.name).0)?;
        if due(&x, faulty, "stream deletion")? {
            s.ex = Ex::No;
        }
        return Ok(());
    }
    let o = s.bytes.map_or("{}".into(), |b| format!("{{\"retention\":{{\"maxBytes\":{}}}}}", b));
    s.ex = if due(&c.s_create(&s.name, &o)?, faulty, "stream creation")? { Ex::Yes } else { Ex::Unknown };
    ctx.rep.count(if s.ex == Ex::Yes { "creations" } else { "creations_refused" }, 1);
    Ok(())
}

// ------------------------------------------------------------------ audit
#[derive(Debug, PartialEq)]
struct Snap {
    q: BTreeMap<String, [Vec<(Id, Vec<u8>, u64, u64, String)>; 3]>,
    s: BTreeMap<String, (u64, Vec<SMsg>, BTreeMap<String, u64>)>,
    kept: BTreeMap<String, Vec<u8>>,
}
fn names(srv: &Server) -> Result<(BTreeSet<String>, BTreeSet<String>), Fail> {
    let get = |v: &serde_json::Value| -> BTreeSet<String> { v.as_array().map(|a| a.iter().filter_map(|x| x["name"].as_str().map(|s| s.to_string())).collect()).unwrap_or_default() };
    Ok((get(&srv.get("/api/queue")?), get(&srv.get("/api/stream")?["topics"])))
}
fn snap(srv: &Server, w: &mut World) -> Result<Snap, Fail> {
    let (qn, sn) = names(srv)?;
    let mut out = Snap { q: BTreeMap::new(), s: BTreeMap::new(), kept: BTreeMap::new() };
    for n in qn {
        let mut v: Vec<Vec<_>> = vec![];
        for st in ["pending", "inflight", "dlq"] {
            let mut l: Vec<_> = list(srv, &n, st, 500)?.into_iter().map(|i: Item| (i.id, i.payload, i.prio, i.attempts, i.reason)).collect();
            l.sort();
            v.push(l);
        }
        let [a, b, c]: [Vec<_>; 3] = v.try_into().unwrap();
        out.q.insert(n, [a, b, c]);
    }
    for n in sn {
        let (last, v) = match w.s.iter().any(|s| s.name == n && s.bytes.is_some()) {
            // retention may have taken all of it
            true => match read(srv, &n, 1, 1)? {
                (last, v) if v.is_empty() => (last, v),
                _ => read_all(srv, &n, 1, 500)?,
            },
            false => read_all(srv, &n, 1, 500)?,
        };
        if let Some(m) = v.first() {
            contiguous(&n, "a full read", &v, m.seq)?;
            ensure!(v.last().unwrap().seq == last, "gap", "{:?}: the last position is {} but reading ends at {}", n, last, v.last().unwrap().seq);
        }
        let (l2, g) = groups(srv, &n)?;
        ensure!(l2 == last, "last", "{:?}: last position {} in one listing, {} in the other", n, last, l2);
        out.s.insert(n, (last, v, g.into_iter().map(|x| (x.0, x.1 .0)).collect()));
    }
    w.tag += 1;
    out.kept = super::pubsub::snapshot(srv, &format!("snap{}", w.tag))?;
    Ok(out)
}
/// What the server shows is what it must hold.
fn exact(ctx: &mut Ctx, w: &mut World, a: &Snap, how: &str) -> Result<(), Fail> {
    for q in &w.q {
        match q.ex {
            Ex::Unknown => continue,
            Ex::No => {
                ensure!(!a.q.contains_key(&q.name), "back", "{}: queue {:?} is there, its deletion was confirmed", how, q.name);
                continue;
            }
            Ex::Yes => {}
        }
        let v = match a.q.get(&q.name) {
            Some(v) => v,
            None => viol!("lost", "{}: queue {:?} is gone", how, q.name),
        };
        for (i, st) in [M::Pending, M::Flying, M::Dead].into_iter().enumerate() {
            let want: BTreeSet<u64> = q.in_state(st).into_iter().collect();
            let have: BTreeSet<u64> = v[i].iter().map(|x| num(&x.1).unwrap_or(0)).collect();
            ensure!(have.len() == v[i].len(), "twice", "{}: {:?} lists a message twice", how, q.name);
            ensure!(want == have, "lost", "{}: {:?}: {:?} are {:?}; {:?} should be (missing {:?}, too many {:?})", how, q.name, have, st, want, want.difference(&have).collect::<Vec<_>>(), have.difference(&want).collect::<Vec<_>>());
            for x in &v[i] {
                let m = &q.m[&num(&x.1).unwrap_or(0)];
                ensure!(m.payload == x.1 && m.id.map_or(true, |id| id == x.0) && m.attempts == x.3, "content", "{}: {:?}: message {} became {} with {} of {} attempts", how, q.name, num(&x.1).unwrap_or(0), preview(&x.1), x.3, m.attempts);
            }
        }
        ctx.rep.eval(1);
        ctx.rep.count("queues_judged", 1);
    }
    for s in w.s.iter_mut() {
        match s.ex {
            Ex::Unknown => continue,
            Ex::No => {
                ensure!(!a.s.contains_key(&s.name), "back", "{}: stream {:?} is there, its deletion was confirmed", how, s.name);
                continue;
            }
            Ex::Yes => {}
        }
        let (last, v, g) = match a.s.get(&s.name) {
            Some(v) => v,
            None => viol!("lost", "{}: stream {:?} is gone", how, s.name),
        };
        ensure!(*last == s.log.len() as u64, "lost", "{}: {:?} ends at position {} instead of {}", how, s.name, last, s.log.len());
        same(s, v, how)?;
        let first = v.first().map_or(last + 1, |m| m.seq);
        match s.bytes {
            None => ensure!(first == 1 || s.log.is_empty(), "lost", "{}: {:?} begins at position {}", how, s.name, first),
            Some(b) => {
                ensure!(first >= s.head, "head", "{}: {:?} begins at {}, it had been at {}", how, s.name, first, s.head);
                let left: u64 = s.sizes[first as usize - 1..].iter().map(|x| x + 24).sum();
                let big = s.segment_bound(w.segment);
                ensure!(first == 1 || left + big >= b, "too much", "{}: {:?} keeps {} bytes from position {} on, its limit is {}", how, s.name, left, first, b);
                s.head = first;
            }
        }
        ctx.rep.eval(1);
        ctx.rep.count("streams_judged", 1);
        for x in s.groups.iter_mut() {
            if x.join.is_none() && x.floor == 0 && !g.contains_key(&x.name) {
                continue;
            }
            let f = g.get(&x.name).copied();
            let ok = match f {
                Some(f) => f == x.floor || s.bytes.is_some() && f >= x.floor && f <= x.beyond(first),
                None => x.floor == 0,
            };
            ensure!(ok, "floor", "{}: group {:?} of {:?} is at {:?} instead of {} (first position {})", how, x.name, s.name, f, x.floor, first);
            x.floor = f.unwrap_or(0);
            ctx.rep.eval(1);
        }
    }
    for (t, h) in &w.kept {
        ensure!(a.kept.get(t) == h.last().unwrap().as_ref(), "retained", "{}: {:?} retains {:?} instead of {:?}", how, t, a.kept.get(t).map(|x| hex(x)), h.last().unwrap().as_ref().map(|x| hex(x)));
    }
    for t in a.kept.keys() {
        ensure!(t == "~end" || w.kept.contains_key(t), "retained", "{}: {:?} is retained, nobody published it so", how, t);
    }
    ctx.rep.eval(1);
    Ok(())
}
impl Stream {
    fn segment_bound(&self, seg: u64) -> u64 {
        let w: u64 = self.sizes[self.durable as usize..].iter().map(|x| x + 24).sum();
        seg + self.window.max(w) + 400
    }
}
/// Everything is on disk now.
fn on_disk(w: &mut World) {
    for q in w.q.iter_mut() {
        q.m.retain(|_, m| m.st != M::Gone);
        for m in q.m.values_mut() {
            m.hist = vec![m.st];
        }
    }
    for s in w.s.iter_mut() {
        let w: u64 = s.sizes[s.durable as usize..].iter().map(|x| x + 24).sum();
        s.window = s.window.max(w);
        s.durable = s.log.len() as u64;
        for g in s.groups.iter_mut() {
            g.saved = g.floor;
        }
    }
    for h in w.kept.values_mut() {
        *h = vec![h.pop().unwrap()];
    }
}
/// A restart: members are gone.
fn rejoin(w: &mut World) {
    for s in w.s.iter_mut() {
        for g in s.groups.iter_mut() {
            g.join = None;
            g.next = g.floor + 1;
            g.open.clear();
        }
    }
}
/// The condition is over: everything gets to disk, survives a restart, and goes on working.
fn calm_audit(ctx: &mut Ctx, srv: &mut Server, w: &mut World, how: &str) -> Result<(), Fail> {
    srv.flushed(600)?;
    let a = snap(srv, w)?;
    exact(ctx, w, &a, &format!("after {}", how))?;
    if ctx.rng.chance(300) {
        srv.flushed(600)?;
    }
    srv.kill();
    srv.restart()?;
    rejoin(w);
    let mut b = snap(srv, w)?;
    ctx.rep.count("restarts_audited", 1);
    exact(ctx, w, &b, &format!("after {}, flushed, killed and restarted", how))?;
    for s in &w.s {
        if s.bytes.is_some() {
            b.s.remove(&s.name);
        }
    }
    for (n, v) in &a.q {
        if w.q.iter().any(|q| q.name == *n && q.ex == Ex::Yes) {
            ensure!(b.q.get(n) == Some(v), "changed", "after {}, flushed, killed and restarted queue {:?} holds {:?} instead of {:?}", how, n, b.q.get(n), v);
        }
    }
    for (n, v) in &b.s {
        if w.s.iter().any(|s| s.name == *n && s.ex == Ex::Yes) {
            ensure!(a.s[n].1 == v.1, "changed", "after {}, flushed, killed and restarted stream {:?} holds other messages or timestamps", how, n);
        }
    }
    on_disk(w);
    ctx.rep.distinct(hash64(format!("{}{:?}", how, b.s.values().map(|x| (x.0, &x.2)).collect::<Vec<_>>()).as_bytes()));
    let c = srv.conn()?;
    resolve(ctx, srv, &c, w)?;
    // groups get everything from their position on
    if ctx.rng.chance(400) {
        for s in w.s.iter_mut().filter(|s| s.ex == Ex::Yes) {
            for k in 0..s.groups.len() {
                let n = ctx.rng.range(1, 50) as u32;
                while fetch(ctx, &c, s, k, n, true)? > 0 {}
                let g = &s.groups[k];
                ensure!(g.next == s.log.len() as u64 + 1, "gap", "after {} group {:?} of {:?} gets messages up to {} only, {} were published", how, g.name, s.name, g.next - 1, s.log.len());
                ctx.rep.count("groups_drained", 1);
            }
        }
    }
    c.check()
}
/// Names with a refused operation get into a known state: without errors deleting works.
fn resolve(ctx: &mut Ctx, srv: &Server, c: &Conn, w: &mut World) -> Result<(), Fail> {
    let mut any = false;
    for (n, op) in w.q.iter_mut().filter(|q| q.ex == Ex::Unknown).map(|q| { q.ex = Ex::No; (q.name.clone(), Q_DELETE) }).chain(w.s.iter_mut().filter(|s| s.ex == Ex::Unknown).map(|s| { s.ex = Ex::No; (s.name.clone(), S_DELETE) })).collect::<Vec<_>>() {
        any = true;
        let x = c.call(op, &W::new().s(&n).0)?;
        ensure!(x == Resp::Ok, "reply", "deletion of {:?} without any fault answered {}", n, x.short());
        ctx.rep.count("refused_names_resolved", 1);
    }
    if any {
        let (q, s) = names(srv)?;
        for n in w.q.iter().filter(|x| x.ex == Ex::No).map(|x| &x.name) {
            ensure!(!q.contains(n), "back", "queue {:?} is listed after its deletion", n);
        }
        for n in w.s.iter().filter(|x| x.ex == Ex::No).map(|x| &x.name) {
            ensure!(!s.contains(n), "back", "stream {:?} is listed after its deletion", n);
        }
    }
    Ok(())
}
/// Killed while the condition lasts: what was on disk and not changed since is intact, the rest is some earlier state of itself.
fn crash_audit(ctx: &mut Ctx, srv: &mut Server, w: &mut World, how: &str) -> Result<(), Fail> {
    srv.kill();
    srv.restart()?;
    ctx.rep.count("kills_during_faults", 1);
    let a = snap(srv, w)?;
    for q in w.q.iter_mut() {
        let there = a.q.get(&q.name);
        match q.ex {
            Ex::Unknown => {
                continue;
            }
            Ex::No => {
                ensure!(there.is_none(), "back", "killed during {}: queue {:?} is back, its deletion was confirmed", how, q.name);
                continue;
            }
            Ex::Yes => {}
        }
        let v = match there {
            Some(v) => v,
            None => viol!("lost", "killed during {}: queue {:?} is gone, its creation was confirmed", how, q.name),
        };
        let mut seen: BTreeMap<u64, (M, Id, u64)> = BTreeMap::new();
        for (i, st) in [M::Pending, M::Flying, M::Dead].into_iter().enumerate() {
            for x in &v[i] {
                let n = num(&x.1).unwrap_or(0);
                ensure!(q.m.get(&n).map_or(false, |m| m.payload == x.1), "content", "killed during {}: {:?} holds {} which was not there before", how, q.name, preview(&x.1));
                ensure!(seen.insert(n, (st, x.0, x.3)).is_none(), "twice", "killed during {}: {:?} holds message {} twice", how, q.name, n);
            }
        }
        for (n, m) in q.m.iter() {
            let s = seen.get(n).map_or(M::Gone, |x| x.0);
            ensure!(m.hist.contains(&s), "lost", "killed during {}: {:?}: message {} is {:?}, since it was last on disk it was {:?}", how, q.name, n, s, m.hist);
        }
        q.m.retain(|n, _| seen.contains_key(n));
        for (n, m) in q.m.iter_mut() {
            let x = seen[n];
            m.st = x.0;
            m.hist = vec![x.0];
            m.id = Some(x.1);
            m.attempts = x.2;
        }
        ctx.rep.eval(1);
    }
    for s in w.s.iter_mut() {
        let there = a.s.get(&s.name);
        match s.ex {
            Ex::Unknown => continue,
            Ex::No => {
                ensure!(there.is_none(), "back", "killed during {}: stream {:?} is back, its deletion was confirmed", how, s.name);
                continue;
            }
            Ex::Yes => {}
        }
        let (last, v, g) = match there {
            Some(v) => v,
            None => viol!("lost", "killed during {}: stream {:?} is gone, its creation was confirmed", how, s.name),
        };
        ensure!(*last >= s.durable && *last <= s.log.len() as u64, "lost", "killed during {}: {:?} ends at position {}, {} were on disk and {} published", how, s.name, last, s.durable, s.log.len());
        same(s, v, "after a kill")?;
        let first = v.first().map_or(last + 1, |m| m.seq);
        ensure!(first == 1 || s.bytes.is_some() || *last == 0, "lost", "killed during {}: {:?} begins at position {}", how, s.name, first);
        s.log.truncate(*last as usize);
        let appended: u64 = s.sizes[s.durable as usize..].iter().map(|x| x + 24).sum();
        s.window = s.window.max(appended);
        s.sizes.truncate(*last as usize);
        s.durable = *last;
        s.head = s.head.max(first);
        for x in s.groups.iter_mut() {
            let f = g.get(&x.name).copied().unwrap_or(0);
            let hi = if s.bytes.is_some() { x.beyond(first) } else { x.floor };
            ensure!(f >= x.saved.min(*last) && f <= hi.min(*last), "floor", "killed during {}: group {:?} of {:?} is at {}, {} was on disk and {} acknowledged (last position {})", how, x.name, s.name, f, x.saved, x.floor, last);
            x.floor = f;
            x.saved = f;
            ctx.rep.eval(1);
        }
        ctx.rep.eval(1);
    }
    for (t, h) in w.kept.iter_mut() {
        let v = a.kept.get(t).cloned();
        ensure!(h.contains(&v), "retained", "killed during {}: {:?} retains {:?}, since it was last on disk its values were {:?}", how, t, v.as_ref().map(|x| hex(x)), h.iter().map(|x| x.as_ref().map(|x| hex(x))).collect::<Vec<_>>());
        *h = vec![v];
    }
    ctx.rep.eval(1);
    ctx.rep.distinct(hash64(format!("{}{:?}", how, a.s.values().map(|x| (x.0, &x.2)).collect::<Vec<_>>()).as_bytes()));
    rejoin(w);
    let c = srv.conn()?;
    resolve(ctx, srv, &c, w)?;
    c.check()
}

// ------------------------------------------------------------------ scenarios
fn world(r: &mut Rng, seg: u64) -> World {
    let q = (0..r.range(1, 4)).map(|i| Queue { name: format!("q{}", i), ex: Ex::No, retries: *r.pick(&[1, 1, 2, 4]), m: BTreeMap::new() }).collect();
    let s = (0..r.range(1, 4))
        .map(|i| Stream {
            name: format!("s{}", i),
            ex: Ex::No,
            log: vec![],
            sizes: vec![],
            durable: 0,
            bytes: if r.chance(350) { Some(r.range(300, 3000)) } else { None },
            window: 0,
            head: 1,
            groups: (0..r.range(1, 3)).map(|g| Group { name: format!("g{}", g), join: None, next: 1, floor: 0, saved: 0, open: BTreeSet::new() }).collect(),
        })
        .collect();
    World { q, s, kept: BTreeMap::new(), uniq: 0, tag: 0, big: *r.pick(&[60, 200, 200, 40_000]), segment: seg }
}
fn cfg(r: &mut Rng, seg: u64) -> Cfg {
    Cfg::frozen()
        .set("QUEUE_VISIBILITY_MS", 3_600_000_000u64)
        .set("QUEUE_MAX_RETRIES", 3)
        .set("QUEUE_DEFAULT_FLUSH_MS", *r.pick(&[20, 50]))
        .set("QUEUE_WRITER_BATCH_SIZE", *r.pick(&[1, 7, 5000]))
        .set("STREAM_DEFAULT_FLUSH_MS", *r.pick(&[10, 50]))
        .set("STREAM_MAX_SEGMENT_SIZE", seg)
        .set("STREAM_RAM_SOFT_LIMIT", *r.pick(&[1, 5, 40, 1000]))
        .set("STREAM_EVICTION_INTERVAL_MS", *r.pick(&[20, 100]))
        .set("STREAM_MAX_OPEN_FILES", *r.pick(&[1, 2, 256]))
        .set("STREAM_RETENTION_CHECK_MS", *r.pick(&[100, 400]))
        .set("STREAM_ACK_WAIT_MS", 3_600_000_000u64)
        .set("STREAM_MAX_ACK_PENDING", 1_000_000)
        .set("PUBSUB_RETAINED_FLUSH_MS", *r.pick(&[50, 500]))
        .set("PUBSUB_DEFAULT_RETAINED_TTL_SECS", 3_600_000)
}
fn setup(ctx: &mut Ctx, srv: &mut Server, w: &mut World) -> Result<(), Fail> {
    let c = srv.conn()?;
    for k in 0..w.q.len() {
        create_queue(ctx, &c, w, k, false)?;
    }
    for k in 0..w.s.len() {
        create_stream(ctx, &c, w, k, false)?;
    }
    for _ in 0..ctx.rng.range(0, 80) {
        step(ctx, srv, &c, w, &Fault::None)?;
    }
    srv.flushed(600)?;
    on_disk(w);
    c.check()
}
fn errors_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let seg = *ctx.rng.pick(&[150, 400, 2000, 1 << 30]);
    let c = cfg(&mut ctx.rng, seg);
    ctx.server(c, |ctx, srv| {
        let mut w = world(&mut ctx.rng, seg);
        setup(ctx, srv, &mut w)?;
        let phases = if ctx.thorough { 20 } else { 7 };
        let mut lasting: Vec<String> = vec![];
        for p in 0..phases {
            if ctx.stop.load(std::sync::atomic::Ordering::SeqCst) {
                break;
            }
            let f = pick_fault(&mut ctx.rng);
            let c = srv.conn()?;
            // members of the connections before are gone with them
            if let Fault::Err(_, e, pm, m) = &f {
                srv.ctl.errors(*e, *pm, *m);
            }
            let n = ctx.rng.range(10, 90);
            ctx.t(format!("phase {}: {} for {} steps", p, f.name(), n));
            for _ in 0..n {
                step(ctx, srv, &c, &mut w, &f)?;
            }
            c.check()?;
            let e = c.echo(b"alive?")?;
            ensure!(e == Resp::Data(b"alive?".to_vec()), "echo", "an echo during {} answered {}", f.name(), e.short());
            ctx.rep.count("fault_windows", 1);
            if !f.reads_fail() {
                // what retention could not remove must not leave a hole
                for s in w.s.iter().filter(|s| s.ex == Ex::Yes && s.bytes.is_some()) {
                    let v = match read(srv, &s.name, 1, 1)?.1.is_empty() {
                        true => continue,
                        false => read_all(srv, &s.name, 1, 500)?.1,
                    };
                    contiguous(&s.name, &format!("a full read during {}", f.name()), &v, v[0].seq)?;
                    same(s, &v, "a full read")?;
                    ctx.rep.count("limited_streams_read_during_faults", 1);
                }
            }
            lasting.push(f.name());
            let how = lasting.join(", then ");
            match ctx.rng.below(10) {
                0..=5 => {
                    srv.ctl.errors(0, 0, 0);
                    calm_audit(ctx, srv, &mut w, &how)?;
                    lasting.clear();
                }
                6 | 7 => {
                    crash_audit(ctx, srv, &mut w, &how)?;
                    lasting.clear();
                }
                _ => {
                    // on to the next fault with everything unwritten; the members stay
                    srv.ctl.errors(0, 0, 0);
                    std::mem::forget(c);
                    continue;
                }
            }
        }
        if !lasting.is_empty() {
            srv.ctl.errors(0, 0, 0);
            calm_audit(ctx, srv, &mut w, &lasting.join(", then "))?;
        }
        ctx.rep.count("errors_injected", srv.ctl.n_errs());
        ctx.rep.sample(json!({"queues": w.q.len(), "streams": w.s.len(), "segment": seg, "errors_injected": srv.ctl.n_errs(), "messages": w.uniq}));
        Ok(())
    })
}
fn descriptors_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let seg = *ctx.rng.pick(&[150, 400, 2000]);
    let mut c = cfg(&mut ctx.rng, seg);
    c.nofile = ctx.rng.range(70, 160);
    let limit = c.nofile;
    ctx.server(c, |ctx, srv| {
        let mut w = world(&mut ctx.rng, seg);
        setup(ctx, srv, &mut w)?;
        for p in 0..(if ctx.thorough { 8 } else { 3 }) {
            let c = srv.conn()?;
            ensure!(!c.echo(b"x")?.is_err(), "echo", "echo refused");
            let mut flood: Vec<TcpStream> = vec![];
            let addr = std::net::SocketAddr::from(([127, 0, 0, 1], srv.tcp));
            let fds = |srv: &Server| std::fs::read_dir(format!("/proc/{}/fd", srv.pid())).map(|d| d.count()).unwrap_or(0) as u64;
            // more clients than descriptors, opening and closing while the others work
            let steps = ctx.rng.range(20, 100);
            let mut most = 0;
            for i in 0..steps {
                if i % 10 == 0 {
                    for _ in 0..40 {
                        if flood.len() as u64 > limit + 60 {
                            break;
                        }
                        if let Ok(s) = TcpStream::connect_timeout(&addr, std::time::Duration::from_millis(300)) {
                            flood.push(s);
                        }
                    }
                    if ctx.rng.chance(200) {
                        let k = ctx.rng.below(flood.len() as u64 + 1) as usize;
                        flood.drain(..k);
                    }
                    srv.settle();
                    most = most.max(fds(srv));
                }
                step(ctx, srv, &c, &mut w, &Fault::Flood)?;
            }
            srv.adv(60);
            srv.settle();
            most = most.max(fds(srv));
            ctx.t(format!("phase {}: {} of {} descriptors in use, {} connections open", p, most, limit, flood.len()));
            let e = c.echo(b"alive?")?;
            ensure!(e == Resp::Data(b"alive?".to_vec()), "echo", "an echo on an old connection answered {}", e.short());
            ctx.rep.count("floods", 1);
            if most + 2 >= limit {
                ctx.rep.count("floods_that_used_up_the_descriptors", 1);
            }
            c.check()?;
            ensure!(srv.alive(), "died", "the server ended when its descriptors were used up");
            if ctx.rng.chance(250) {
                drop(flood);
                crash_audit(ctx, srv, &mut w, "a flood of connections")?;
                continue;
            }
            drop(flood);
            // the flood is gone: new clients are served again
            let mut ok = false;
            for _ in 0..100 {
                srv.adv(200);
                srv.settle();
                if let Ok(n) = Conn::open(srv.tcp, ctx.patience) {
                    let e = n.send(ECHO, b"new");
                    if n.wait_for(e, std::time::Duration::from_millis(300)).is_ok() && fds(srv) + 20 < limit {
                        ok = true;
                        break;
                    }
                }
            }
            if !ok {
                return Err(Fail::Suspect(format!("after a flood of connections has ended, new ones are not served ({} of {} descriptors in use)", fds(srv), limit)));
            }
            srv.adv(1100); // the HTTP listener pauses for a second after an error
            srv.settle();
            c.close();
            calm_audit(ctx, srv, &mut w, "a flood of connections")?;
        }
        ctx.rep.sample(json!({"descriptor_limit": limit, "messages": w.uniq}));
        Ok(())
    })
}
