//! C18 (create and delete).
use super::queue::list;
use super::stream::{num, read_all};
use crate::client::*;
use crate::proto::*;
use crate::report::Fail;
use crate::rng::{hash64, Rng};
use crate::run::{Ctx, Spec};
use crate::server::{Cfg, Server};
use crate::{ensure, viol};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::Duration;

pub fn spec() -> Spec {
    Spec {
        scenarios: vec![("race", 4, race_scn), ("crash", 3, crash_scn), ("churn", 1, churn_scn)],
        par: 6,
        quick_s: 50,
        thorough_s: 550,
        level: "fault_enumeration",
        rule: "Several clients create (every creation with options of its own), delete, use (push, consume, acknowledge, publish, join, fetch) and query a few queue and stream names at the same time under injected preemption and slow file operations, some dropping their connection with a create or delete in flight, while flushes and group saves run in virtual time. Each name's history must be linearizable against a sequential lifecycle: absent, or one incarnation with the options of the creation that made it, its contents, its groups and its members; what the server holds afterwards in quiescence, and again after kill and restart (several times), is appended to the history and must fit the same order exactly. (crash) the process is killed at the N-th file operation or inside a write, while creating and deleting; what it holds after the restart must be one incarnation possible at the crash with its own options and nothing from before it, and stay so over a second restart. (churn) many names at a high rate: every request is answered. One evaluation = one operation placed in a valid order; distinct by the interleaving of a segment's operations.",
        assumptions: vec!["crash = SIGKILL of the process, at a system call or inside a write; the page cache survives", "a create or delete whose connection is dropped may take effect or not, at any time up to quiescence"],
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Seen {
    opt: u64,
    total: u64,
    /// messages, when they were read
    content: Option<Vec<u64>>,
    /// of them, those in flight
    out: BTreeSet<u64>,
    floors: BTreeMap<String, u64>,
}
#[derive(Clone, Debug, PartialEq)]
enum K {
    Create(u64),
    Delete,
    Exists(bool),
    /// number, success, position for streams
    Push(u64, bool, Option<u64>),
    /// error or what came
    Consume(Option<Vec<u64>>),
    Ack(u64, bool),
    /// member tag, group, floor
    Join(u64, String, Option<u64>),
    Fetch(u64, Option<Vec<(u64, u64)>>),
    SAck(u64, String, u64, bool),
    /// the listing
    List(Option<Seen>),
    /// contents after a crash
    Recovered(Option<Seen>),
}
#[derive(Clone, Debug)]
struct Op {
    call: u64,
    ret: u64,
    /// no answer: may have taken effect
    open: bool,
    who: usize,
    k: K,
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Inc {
    opt: u64,
    /// streams: the log; queues: everything ever pushed
    log: Vec<u64>,
    /// queues: not acknowledged
    have: BTreeSet<u64>,
    /// queues: handed out
    out: BTreeSet<u64>,
    floors: BTreeMap<String, u64>,
    members: BTreeSet<u64>,
    /// left by a deletion that was never confirmed: nothing works on it, but a crash may bring it back
    ghost: bool,
}
type St = Option<Inc>;

/// The state after the operation, if its answer fits the state before it.
fn apply(st: &St, o: &Op, stream: bool) -> Option<St> {
    let was_ghost = st.as_ref().map_or(false, |i| i.ghost);
    if was_ghost && !matches!(o.k, K::Recovered(_)) {
        let ns = apply(&None, o, stream)?;
        return Some(if ns.is_none() && !matches!((&o.k, o.open), (K::Delete, false)) { st.clone() } else { ns });
    }
    let mut s = st.clone();
    match &o.k {
        K::Create(opt) => {
            if s.is_none() {
                s = Some(Inc { opt: *opt, ..Default::default() });
            }
        }
        K::Delete => match &mut s {
            Some(i) if o.open => i.ghost = true,
            _ => s = None,
        },
        K::Exists(b) => {
            if s.is_some() != *b {
                return None;
            }
        }
        K::Push(n, ok, pos) => match &mut s {
            None if o.open => {}
            None => {
                if *ok {
                    return None;
                }
            }
            Some(i) => {
                if !*ok && !o.open {
                    return None;
                }
                if let Some(p) = pos {
                    if *p != i.log.len() as u64 + 1 {
                        return None;
                    }
                }
                i.log.push(*n);
                if !stream {
                    i.have.insert(*n);
                }
            }
        },
        K::Consume(r) => match (&mut s, r) {
            (None, None) => {}
            (Some(i), Some(v)) => {
                if v.is_empty() && i.have.len() != i.out.len() {
                    return None;
                }
                for n in v {
                    if !i.have.contains(n) || !i.out.insert(*n) {
                        return None;
                    }
                }
            }
            _ => return None,
        },
        K::Ack(n, ok) => match &mut s {
            Some(i) if i.out.contains(n) => {
                if !*ok && !o.open {
                    return None;
                }
                i.out.remove(n);
                i.have.remove(n);
            }
            _ => {
                if *ok && !o.open {
                    return None;
                }
            }
        },
        K::Join(tag, g, r) => match (&mut s, r) {
            (None, None) => {}
            (Some(i), Some(f)) => {
                if i.floors.get(g).copied().unwrap_or(0) != *f {
                    return None;
                }
                i.floors.insert(g.clone(), *f);
                i.members.insert(*tag);
            }
            _ => {
                if !o.open {
                    return None;
                }
            }
        },
        K::Fetch(tag, r) => match (&s, r) {
            (Some(i), Some(v)) if i.members.contains(tag) => {
                if v.iter().any(|(p, n)| i.log.get((*p as usize).wrapping_sub(1)) != Some(n)) {
                    return None;
                }
            }
            (Some(i), None) if i.members.contains(tag) => return None,
            (_, None) => {}
            _ => return None,
        },
        K::SAck(tag, g, p, ok) => match &mut s {
            Some(i) if i.members.contains(tag) => {
                if !*ok && !o.open {
                    return None;
                }
                i.floors.insert(g.clone(), *p);
            }
            _ => {
                if *ok && !o.open {
                    return None;
                }
            }
        },
        K::List(r) => match (&s, r) {
            (None, None) => {}
            (Some(i), Some(x)) => {
                let total = if stream { i.log.len() } else { i.have.len() } as u64;
                if i.opt != x.opt || total != x.total {
                    return None;
                }
                let nz = |m: &BTreeMap<String, u64>| m.iter().filter(|x| *x.1 > 0).map(|(a, b)| (a.clone(), *b)).collect::<BTreeMap<_, _>>();
                if nz(&i.floors) != nz(&x.floors) {
                    return None;
                }
                if let Some(c) = &x.content {
                    let same = if stream { *c == i.log } else { c.len() == i.have.len() && c.iter().all(|n| i.have.contains(n)) };
                    if !same {
                        return None;
                    }
                }
            }
            _ => return None,
        },
        K::Recovered(r) => match (&s, r) {
            (None, None) => {}
            (Some(_), None) if was_ghost => return Some(None),
            (Some(i), Some(x)) => {
                let c = x.content.clone().unwrap_or_default();
                let fits = if stream { i.log.starts_with(&c) } else { c.iter().all(|n| i.log.contains(n)) && c.iter().collect::<BTreeSet<_>>().len() == c.len() };
                if i.opt != x.opt || !fits || x.total != c.len() as u64 {
                    return None;
                }
                if x.floors.iter().any(|(g, f)| *f > i.floors.get(g).copied().unwrap_or(0)) {
                    return None;
                }
                return Some(start(&Some(x.clone()), stream));
            }
            _ => return None,
        },
    }
    Some(s)
}
/// The state a segment starts in, from an audit.
fn start(x: &Option<Seen>, stream: bool) -> St {
    x.as_ref().map(|x| {
        let c = x.content.clone().unwrap_or_default();
        Inc { opt: x.opt, have: if stream { BTreeSet::new() } else { c.iter().copied().collect() }, log: c, out: x.out.clone(), floors: x.floors.clone(), members: BTreeSet::new(), ghost: false }
    })
}

enum Lin {
    Yes,
    No(usize),
    Unknown,
}
/// Wing & Gong search; open operations are optional.
fn linearizable(init: &St, ops: &[Op], stream: bool) -> Lin {
    let n = ops.len();
    if n > 128 {
        return Lin::Unknown;
    }
    let mut v: Vec<&Op> = ops.iter().collect();
    v.sort_by_key(|o| o.call);
    let must: u128 = (0..n).filter(|i| !v[*i].open).fold(0, |m, i| m | 1 << i);
    // an open operation cannot come after one that was called when it was over
    let after: Vec<u128> = (0..n).map(|i| (0..n).filter(|j| v[*j].call > v[i].ret).fold(0u128, |m, j| m | 1 << j)).collect();
    let mut memo: HashSet<(u128, u64)> = HashSet::new();
    let mut stack: Vec<(u128, St)> = vec![(0, init.clone())];
    let mut nodes = 0u64;
    let mut best = 0;
    while let Some((mask, st)) = stack.pop() {
        if mask & must == must {
            return Lin::Yes;
        }
        nodes += 1;
        if nodes > 600_000 {
            return Lin::Unknown;
        }
        best = best.max((mask & must).count_ones() as usize);
        let bound = (0..n).filter(|i| mask & (1 << i) == 0 && !v[*i].open).map(|i| v[i].ret).min().unwrap_or(u64::MAX);
        // the latest first, so that the earliest is tried first; open ones last
        for pass in 0..2 {
            for i in (0..n).rev() {
                if mask & (1 << i) != 0 || v[i].call > bound || v[i].open != (pass == 0) || mask & after[i] != 0 {
                    continue;
                }
                if let Some(ns) = apply(&st, v[i], stream) {
                    let nm = mask | 1 << i;
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    ns.hash(&mut h);
                    if memo.insert((nm, h.finish())) {
                        stack.push((nm, ns));
                    }
                }
            }
        }
    }
    Lin::No(best)
}

/// One name under test.
struct Name {
    stream: bool,
    name: String,
    init: St,
    ops: Mutex<Vec<Op>>,
}
struct World {
    names: Vec<Name>,
    clk: AtomicU64,
    uniq: AtomicU64,
}
impl World {
    fn tick(&self) -> u64 {
        self.clk.fetch_add(1, SeqCst)
    }
    fn push(&self, i: usize, call: u64, who: usize, k: K) {
        let ret = self.tick();
        self.names[i].ops.lock().unwrap().push(Op { call, ret, open: false, who, k });
    }
    fn open(&self, i: usize, call: u64, who: usize, k: K) {
        self.names[i].ops.lock().unwrap().push(Op { call, ret: u64::MAX, open: true, who, k });
    }
}
fn pay(n: u64, name: &str) -> Vec<u8> {
    let mut p = vec![0u8];
    p.extend_from_slice(&n.to_be_bytes());
    p.extend_from_slice(name.as_bytes());
    p
}
fn listing(srv: &Server, contents: bool, w: &World) -> Result<Vec<Option<Seen>>, Fail> {
    let q = srv.get("/api/queue")?;
    let s = srv.get("/api/stream")?;
    let mut out = vec![];
    for n in &w.names {
        let v = if n.stream { &s["topics"] } else { &q };
        let es: Vec<_> = v.as_array().map(|a| a.iter().filter(|e| e["name"].as_str() == Some(&n.name)).collect()).unwrap_or_default();
        ensure!(es.len() < 2, "twice", "{:?} is listed {} times", n.name, es.len());
        out.push(match es.first() {
            None => None,
            Some(e) => {
                let (opt, total) = if n.stream { (e["config"]["retention"]["maxBytes"].as_u64(), e["last_seq"].as_u64()) } else { (e["config"]["visibility_timeout_ms"].as_u64(), e["pending"].as_u64().and_then(|p| Some(p + e["inflight"].as_u64()?))) };
                let mut floors = BTreeMap::new();
                for g in e["groups"].as_array().unwrap_or(&vec![]) {
                    floors.insert(g["id"].as_str().unwrap_or("?").to_string(), g["ack_floor"].as_u64().unwrap_or(u64::MAX));
                }
                let mut out = BTreeSet::new();
                let content = if !contents {
                    None
                } else {
                    let raw: Vec<Vec<u8>> = if n.stream {
                        read_all(srv, &n.name, 1, 500)?.1.into_iter().map(|m| m.payload).collect()
                    } else {
                        let mut v = list(srv, &n.name, "pending", 500)?;
                        let f = list(srv, &n.name, "inflight", 500)?;
                        out.extend(f.iter().filter_map(|m| num(&m.payload)));
                        v.extend(f);
                        v.into_iter().map(|m| m.payload).collect()
                    };
                    let mut c = vec![];
                    for p in raw {
                        let k = num(&p).unwrap_or(0);
                        ensure!(p == pay(k, &n.name), "mixed", "{:?} holds {}, which was not put there", n.name, preview(&p));
                        c.push(k);
                    }
                    Some(c)
                };
                Some(Seen { opt: opt.unwrap_or(0), total: total.unwrap_or(u64::MAX), content, out, floors })
            }
        });
    }
    Ok(out)
}

/// One client's operations. Err(Suspect) when the server went away.
fn worker(w: &World, srv_conn: &dyn Fn() -> Result<Conn, Fail>, get: &dyn Fn() -> Result<Vec<Option<Seen>>, Fail>, who: usize, r: &mut Rng, ops: u64, stop: &AtomicBool, drops: bool, lister: bool) -> Result<(), Fail> {
    let mut c = srv_conn()?;
    let mut held: Vec<(usize, u64, Id)> = vec![];
    let mut mem: BTreeMap<usize, (Joined, u64, Vec<u64>)> = BTreeMap::new();
    for _ in 0..ops {
        if stop.load(SeqCst) {
            break;
        }
        if lister && r.chance(250) {
            let call = w.tick();
            let v = get()?;
            for (i, x) in v.into_iter().enumerate() {
                w.push(i, call, who, K::List(x));
            }
            continue;
        }
        let i = r.below(w.names.len() as u64) as usize;
        let n = &w.names[i];
        let nm = n.name.as_str();
        let call = w.tick();
        let dice = r.below(100);
        if dice < 44 {
            // lifecycle
            let del = dice >= 24;
            let opt = 10_000_000 + w.uniq.fetch_add(1, SeqCst);
            let (op, p, k) = match (n.stream, del) {
                (false, false) => (Q_CREATE, W::new().s(nm).s(&format!("{{\"visibilityTimeoutMs\":{}}}", opt)).0, K::Create(opt)),
                (true, false) => (S_CREATE, W::new().s(nm).s(&format!("{{\"retention\":{{\"maxBytes\":{}}}}}", opt)).0, K::Create(opt)),
                (false, true) => (Q_DELETE, W::new().s(nm).0, K::Delete),
                (true, true) => (S_DELETE, W::new().s(nm).0, K::Delete),
            };
            if drops && r.chance(60) {
                c.send(op, &p);
                w.open(i, call, who, k);
                if r.chance(500) {
                    std::thread::sleep(Duration::from_micros(r.below(2000)));
                }
                if r.chance(500) {
                    c.reset();
                } else {
                    c.close();
                }
                held.clear();
                mem.clear();
                c = srv_conn()?;
                continue;
            }
            let id = c.send(op, &p);
            match c.wait(id) {
                Ok(Resp::Ok) => w.push(i, call, who, k),
                Ok(x) => viol!("reply", "{} of {:?} answered {}", if del { "delete" } else { "create" }, nm, x.short()),
                Err(e) => {
                    w.open(i, call, who, k);
                    return Err(e);
                }
            }
        } else if dice < 52 {
            let x = c.call(if n.stream { S_EXISTS } else { Q_EXISTS }, &W::new().s(nm).0)?;
            w.push(i, call, who, K::Exists(x == Resp::Ok));
        } else if dice < 76 {
            let k = w.uniq.fetch_add(1, SeqCst);
            let p = pay(k, nm);
            let id = if n.stream { c.send(S_PUB, &W::new().s(nm).raw(&p).0) } else { c.send(Q_PUSH, &enc_push(nm, None, &p)) };
            match c.wait(id) {
                Ok(Resp::Ok) if !n.stream => w.push(i, call, who, K::Push(k, true, None)),
                Ok(Resp::Data(d)) if n.stream && d.len() == 8 => w.push(i, call, who, K::Push(k, true, Some(u64::from_be_bytes(d[..].try_into().unwrap())))),
                Ok(Resp::Err(_)) => w.push(i, call, who, K::Push(k, false, None)),
                Ok(x) => viol!("reply", "a push to {:?} answered {}", nm, x.short()),
                Err(e) => {
                    w.open(i, call, who, K::Push(k, true, None));
                    return Err(e);
                }
            }
        } else if !n.stream {
            let h = held.iter().position(|x| x.0 == i);
            if let (Some(h), true) = (h, r.chance(600)) {
                let (_, k, id) = held.remove(h);
                let x = c.send(Q_ACK, &W::new().raw(&id).s(nm).0);
                match c.wait(x) {
                    Ok(x) => w.push(i, call, who, K::Ack(k, x == Resp::Ok)),
                    Err(e) => {
                        w.open(i, call, who, K::Ack(k, true));
                        return Err(e);
                    }
                }
            } else {
                let wait = if r.chance(200) { 40 } else { 0 };
                let x = c.call(Q_CONSUME, &enc_consume(nm, Some(1), Some(wait)))?;
                if x.is_err() {
                    w.push(i, call, who, K::Consume(None));
                    continue;
                }
                let v = as_batch(x)?;
                let mut ks = vec![];
                for m in v {
                    let k = num(&m.payload).unwrap_or(0);
                    ensure!(m.payload == pay(k, nm), "mixed", "{:?} delivered {}, which was not put there", nm, preview(&m.payload));
                    held.push((i, k, m.id));
                    ks.push(k);
                }
                w.push(i, call, who, K::Consume(Some(ks)));
            }
        } else {
            let g = format!("g{}", who);
            match mem.get_mut(&i) {
                None => {
                    let tag = w.uniq.fetch_add(1, SeqCst);
                    let x = c.send(S_JOIN, &W::new().s(&g).s(nm).0);
                    match c.wait(x)? {
                        Resp::Err(_) => w.push(i, call, who, K::Join(tag, g, None)),
                        Resp::Data(d) => {
                            let j = dec_join(&d).ok_or_else(|| Fail::v("decode", "join reply".into()))?;
                            w.push(i, call, who, K::Join(tag, g, Some(j.floor)));
                            mem.insert(i, (j, tag, vec![]));
                        }
                        x => viol!("reply", "join answered {}", x.short()),
                    }
                }
                Some((j, tag, h)) if h.is_empty() || r.chance(300) => {
                    let wait = if r.chance(200) { 40 } else { 0 };
                    let f = c.s_fetch(nm, &g, j, 2, wait)?;
                    match f {
                        Err(_) => {
                            let t = *tag;
                            // a waiting fetch may also have lost its membership while it waited; that is not judged
                            if wait == 0 {
                                w.push(i, call, who, K::Fetch(t, None));
                            }
                            mem.remove(&i);
                        }
                        Ok(v) => {
                            let mut ks = vec![];
                            for m in v {
                                let k = num(&m.payload).unwrap_or(0);
                                ensure!(m.payload == pay(k, nm), "mixed", "{:?} delivered {}, which was not put there", nm, preview(&m.payload));
                                h.push(m.seq);
                                ks.push((m.seq, k));
                            }
                            if wait == 0 || !ks.is_empty() {
                                w.push(i, call, who, K::Fetch(*tag, Some(ks)));
                            }
                        }
                    }
                }
                Some((j, tag, h)) => {
                    let q = h.remove(0);
                    let t = *tag;
                    let x = c.send(S_ACK, &W::new().s(nm).s(&g).s(&j.cid).u64(j.gen).u64(q).0);
                    match c.wait(x) {
                        Ok(x) => {
                            w.push(i, call, who, K::SAck(t, g, q, x == Resp::Ok));
                            if x != Resp::Ok {
                                mem.remove(&i);
                            }
                        }
                        Err(e) => {
                            w.open(i, call, who, K::SAck(t, g, q, true));
                            return Err(e);
                        }
                    }
                }
            }
        }
    }
    c.check()?;
    Ok(())
}

fn segment(ctx: &mut Ctx, srv: &mut Server, w: &World, workers: usize, ops: u64, crash: Option<(i64, u64)>) -> Result<bool, Fail> {
    let slow = ctx.rng.chance(600);
    let io = ctx.rng.chance(600);
    if let Some((n, torn)) = crash {
        srv.ctl.crash_after(n, torn);
    }
    if slow {
        srv.ctl.preempt(ctx.rng.range(80, 600), ctx.rng.range(200, 3000));
    }
    if io {
        srv.ctl.io_delay(ctx.rng.range(20, 400), ctx.rng.range(200, 4000));
    }
    let stop = AtomicBool::new(false);
    let left = AtomicU64::new(workers as u64);
    let errs: Mutex<Vec<Fail>> = Mutex::new(vec![]);
    let mut rngs: Vec<Rng> = (0..workers + 1).map(|_| ctx.rng.fork()).collect();
    let mut mine = rngs.pop().unwrap();
    let srv_ref: &Server = srv;
    let mut died = false;
    std::thread::scope(|sc| {
        for (who, mut r) in rngs.into_iter().enumerate() {
            let (stop, left, errs) = (&stop, &left, &errs);
            sc.spawn(move || {
                // nobody but the last is needed for the listing
                let lister = who == 0 && crash.is_none();
                let x = worker(w, &|| srv_ref.conn(), &|| listing(srv_ref, false, w), who, &mut r, ops, stop, crash.is_none() && who % 2 == 1, lister);
                if let Err(e) = x {
                    errs.lock().unwrap().push(e);
                    stop.store(true, SeqCst);
                }
                left.fetch_sub(1, SeqCst);
            });
        }
        // virtual time runs: flushes, group saves, waits
        while left.load(SeqCst) > 0 {
            srv_ref.adv(mine.range(1, 30));
            std::thread::sleep(Duration::from_micros(mine.range(200, 3000)));
            if crash.is_some() && srv_ref.ctl.crashed_kind_peek() != 0 {
                died = true;
                stop.store(true, SeqCst);
            }
        }
    });
    if crash.is_some() && srv.ctl.crashed_kind_peek() != 0 {
        died = true;
    }
    srv.ctl.calm();
    if died {
        srv.wait_dead(Duration::from_secs(10));
        let v: Vec<Fail> = errs.into_inner().unwrap().into_iter().filter(|e| matches!(e, Fail::Violation(..))).collect();
        if let Some(e) = v.into_iter().next() {
            if !matches!(&e, Fail::Violation(s, _) if s == "unanswered") {
                return Err(e);
            }
        }
        return Ok(true);
    }
    if let Some(e) = errs.into_inner().unwrap().into_iter().next() {
        return Err(e);
    }
    Ok(false)
}
/// Append what the server holds now and judge the segment. Returns the state for the next one.
fn judge(ctx: &mut Ctx, srv: &mut Server, w: &mut World, died: bool, restarts: u64) -> Result<(), Fail> {
    let mut seen: Vec<Vec<(bool, Option<Seen>)>> = vec![];
    let over = w.tick();
    for n in &w.names {
        for o in n.ops.lock().unwrap().iter_mut().filter(|o| o.open) {
            o.ret = over;
        }
    }
    if died {
        srv.restart()?;
        seen.push(listing(srv, true, w)?.into_iter().map(|x| (true, x)).collect());
        ctx.rep.count("crashes", 1);
    } else {
        srv.flushed(600)?;
        seen.push(listing(srv, true, w)?.into_iter().map(|x| (false, x)).collect());
    }
    for _ in 0..restarts {
        srv.flushed(600)?;
        srv.restart()?;
        seen.push(listing(srv, true, w)?.into_iter().map(|x| (false, x)).collect());
        ctx.rep.count("restarts_audited", 1);
    }
    let c = srv.conn()?;
    for (i, x) in seen.last().unwrap().iter().enumerate() {
        let n = &w.names[i];
        let e = c.call(if n.stream { S_EXISTS } else { Q_EXISTS }, &W::new().s(&n.name).0)?;
        ensure!((e == Resp::Ok) == x.1.is_some(), "exists", "exists of {:?} answers {} while it is {}", n.name, e.short(), if x.1.is_some() { "listed" } else { "not listed" });
        if x.1.is_none() {
            // everything fails
            let z = [7u8; 16];
            let j = W::new().s(&n.name).s("g0").s("none").u64(1);
            let all: Vec<(u8, Vec<u8>)> = if n.stream {
                vec![(S_PUB, W::new().s(&n.name).raw(b"\0x").0), (S_JOIN, W::new().s("g0").s(&n.name).0), (S_FETCH, j.u32(5).u32(0).0), (S_SEEK, W::new().s(&n.name).s("g0").u8(0).0)]
            } else {
                vec![
                    (Q_PUSH, enc_push(&n.name, None, b"\0x")),
                    (Q_CONSUME, enc_consume(&n.name, Some(1), Some(0))),
                    (Q_ACK, W::new().raw(&z).s(&n.name).0),
                    (Q_NACK, W::new().raw(&z).s(&n.name).s("r").0),
                    (Q_PEEK_DLQ, W::new().s(&n.name).u32(5).u32(0).0),
                    (Q_PURGE, W::new().s(&n.name).0),
                    (Q_MOVE, W::new().s(&n.name).raw(&z).0),
                    (Q_DEL_DLQ, W::new().s(&n.name).raw(&z).0),
                ]
            };
            for (op, p) in all {
                let r = c.call(op, &p)?;
                ensure!(r.is_err(), "absent", "opcode 0x{:02x} on {:?}, which does not exist, answered {}", op, n.name, r.short());
            }
        }
    }
    let mut next = vec![];
    for (i, n) in w.names.iter().enumerate() {
        let mut ops = n.ops.lock().unwrap().clone();
        let k = ops.len();
        for s in &seen {
            let call = w.tick();
            let x = s[i].1.clone();
            ops.push(Op { call, ret: w.tick(), open: false, who: 99, k: if s[i].0 { K::Recovered(x) } else { K::List(x) } });
        }
        match linearizable(&n.init, &ops, n.stream) {
            Lin::Yes => {
                ctx.rep.eval(ops.len() as u64);
                ctx.rep.count("operations_ordered", k as u64);
                ctx.rep.max("longest_history", ops.len() as u64);
            }
            Lin::Unknown => ctx.rep.count("histories_too_hard", 1),
            Lin::No(best) => {
                ops.sort_by_key(|o| o.call);
                for o in &ops {
                    ctx.t(format!("[{}..{}{}] client {} {:?}", o.call, o.ret, if o.open { " open" } else { "" }, o.who, o.k));
                }
                ctx.t(format!("initially {:?}", n.init));
                // which observation is it?
                let without: Vec<usize> = (0..ops.len()).filter(|x| {
                    let mut v = ops.clone();
                    v.remove(*x);
                    matches!(linearizable(&n.init, &v, n.stream), Lin::Yes)
                }).collect();
                let blame = without.iter().map(|x| format!("{:?}", ops[*x].k)).take(6).collect::<Vec<_>>().join(" | ");
                viol!("order", "{} {:?}: no order of its {} operations explains all their results and what the server holds afterwards{} ({} can be placed; possible without any one of: {})", if n.stream { "stream" } else { "queue" }, n.name, ops.len(), if died { " the crash" } else { "" }, best, blame)
            }
        }
        let mut sig: Vec<(u64, String)> = vec![];
        for o in &ops {
            let t = format!("{:?}", o.k);
            let t = t.split('(').next().unwrap().to_string();
            sig.push((o.call, t.clone()));
            sig.push((o.ret, format!("/{}", t)));
        }
        sig.sort();
        ctx.rep.distinct(hash64(sig.iter().map(|x| x.1.clone()).collect::<String>().as_bytes()));
        next.push(start(&seen.last().unwrap()[i].1, n.stream));
    }
    for (n, s) in w.names.iter_mut().zip(next) {
        // what was in flight at the audit stays so without a restart
        n.init = s;
        n.ops.lock().unwrap().clear();
    }
    Ok(())
}

fn world(r: &mut Rng, k: u64) -> World {
    let both = r.below(3);
    let names = (0..k).map(|i| Name { stream: both == 1 || both == 2 && i % 2 == 0, name: format!("n{}", i), init: None, ops: Mutex::new(vec![]) }).collect();
    World { names, clk: AtomicU64::new(1), uniq: AtomicU64::new(1) }
}
fn cfg(r: &mut Rng) -> Cfg {
    Cfg::frozen()
        .set("STREAM_DEFAULT_FLUSH_MS", *r.pick(&[10, 50]))
        .set("QUEUE_DEFAULT_FLUSH_MS", *r.pick(&[10, 50]))
        .set("STREAM_MAX_SEGMENT_SIZE", *r.pick(&[60, 300, 100_000]))
        .set("STREAM_MAX_OPEN_FILES", *r.pick(&[1, 3, 256]))
}

fn race_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let c = cfg(&mut ctx.rng);
    ctx.server(c, |ctx, srv| {
        let k = ctx.rng.range(1, 4);
        let mut w = world(&mut ctx.rng, k);
        let segs = ctx.rng.range(2, 5);
        for s in 0..segs {
            let workers = ctx.rng.range(2, 6) as usize;
            // at most about 40 operations per name
            let ops = (k * ctx.rng.range(10, 45) / workers as u64).max(3);
            ctx.t(format!("segment {}: {} names, {} clients, {} operations each", s, k, workers, ops));
            segment(ctx, srv, &w, workers, ops, None)?;
            // messages in flight would be delivered only after their timeout: a restart makes them available
            judge(ctx, srv, &mut w, false, ctx_restarts(&mut ctx_rng(s, ctx.seed)))?;
        }
        ctx.rep.sample(json!({"names": k, "segments": segs}));
        Ok(())
    })
}
fn ctx_rng(s: u64, seed: u64) -> Rng {
    Rng::new(seed ^ (s + 1).wrapping_mul(0x9e37_79b9))
}
fn ctx_restarts(r: &mut Rng) -> u64 {
    *r.pick(&[1, 1, 1, 2])
}

fn crash_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let c = cfg(&mut ctx.rng);
    ctx.server(c, |ctx, srv| {
        let k = ctx.rng.range(1, 3);
        let mut w = world(&mut ctx.rng, k);
        let lives = ctx.rng.range(3, 9);
        for s in 0..lives {
            let workers = ctx.rng.range(1, 3) as usize;
            let ops = (k * ctx.rng.range(6, 30) / workers as u64).max(3);
            let n = if ctx.rng.chance(700) { ctx.rng.below(120) } else { ctx.rng.below(700) } as i64;
            let torn = if ctx.rng.chance(400) { ctx.rng.range(1, 999) } else { 0 };
            ctx.t(format!("life {}: {} names, {} clients, {} operations each, crash at file operation {} (torn {})", s, k, workers, ops, n, torn));
            let died = segment(ctx, srv, &w, workers, ops, Some((n, torn)))?;
            let again = ctx.rng.below(3).max(if died { 0 } else { 1 });
            judge(ctx, srv, &mut w, died, again)?;
            if died {
                ctx.rep.count("lives_crashed", 1);
            }
        }
        Ok(())
    })
}

fn churn_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let c = cfg(&mut ctx.rng);
    ctx.server(c, |ctx, srv| {
        let k = ctx.rng.range(4, 24);
        let w = world(&mut ctx.rng, k);
        let workers = ctx.rng.range(4, 10) as usize;
        if ctx.rng.chance(500) {
            srv.ctl.preempt(ctx.rng.range(80, 600), ctx.rng.range(200, 3000));
        }
        let per = ctx.rng.range(60, 160);
        let errs: Mutex<Vec<Fail>> = Mutex::new(vec![]);
        let left = AtomicU64::new(workers as u64);
        let rngs: Vec<Rng> = (0..workers).map(|_| ctx.rng.fork()).collect();
        let srv_ref: &Server = srv;
        std::thread::scope(|sc| {
            for mut r in rngs {
                let (w, errs, left) = (&w, &errs, &left);
                sc.spawn(move || {
                    let mut run = || -> Result<(), Fail> {
                        let c = srv_ref.conn()?;
                        for _ in 0..per {
                            let n = r.pick(&w.names);
                            let x = match (r.below(3), n.stream) {
                                (0, false) => c.q_create(&n.name, "{}")?,
                                (0, true) => c.s_create(&n.name, "{}")?,
                                (1, s) => c.call(if s { S_DELETE } else { Q_DELETE }, &W::new().s(&n.name).0)?,
                                (_, false) => {
                                    c.q_push(&n.name, None, b"\0x")?;
                                    Resp::Ok
                                }
                                (_, true) => {
                                    c.call(S_PUB, &W::new().s(&n.name).raw(b"\0x").0)?;
                                    Resp::Ok
                                }
                            };
                            ensure!(x == Resp::Ok, "reply", "create or delete of {:?} answered {}", n.name, x.short());
                        }
                        c.check()
                    };
                    if let Err(e) = run() {
                        errs.lock().unwrap().push(e);
                    }
                    left.fetch_sub(1, SeqCst);
                });
            }
            while left.load(SeqCst) > 0 {
                srv_ref.adv(20);
                std::thread::sleep(Duration::from_millis(2));
            }
        });
        if let Some(e) = errs.into_inner().unwrap().into_iter().next() {
            return Err(e);
        }
        ctx.rep.eval(workers as u64 * per);
        ctx.rep.count("operations_churned", workers as u64 * per);
        srv.flushed(600)?;
        let a = listing(srv, false, &w)?;
        srv.restart()?;
        let b = listing(srv, false, &w)?;
        ensure!(a == b, "restart", "after a restart the server holds {:?} instead of {:?}", b, a);
        ctx.rep.eval(k);
        Ok(())
    })
}
