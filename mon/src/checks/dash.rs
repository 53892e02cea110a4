//! C19 (dashboard).
use super::stream::rfc3339_ms;
use crate::client::*;
use crate::http::{self, enc};
use crate::proto::*;
use crate::report::Fail;
use crate::rng::{hash64, Rng};
use crate::run::{Ctx, Spec};
use crate::server::{Cfg, Server};
use crate::{ensure, viol};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn spec() -> Spec {
    Spec {
        scenarios: vec![("model", 5, model_scn), ("observe", 2, observe_scn)],
        par: 6,
        quick_s: 45,
        thorough_s: 500,
        level: "exploration",
        rule: "(model) Random programs over all four brokers in virtual time (queues with retries, dead letters, replays and timeouts; streams with several groups, releases, seeks, evicted messages; subscriptions and retained values with expiry; store keys with expiry; payloads of every encoding, hostile names) drive a shadow model. In quiescence every HTTP listing must equal the shadow: counts, options, ids, states, priorities, delivery counts, reasons, creation times, rendered payloads, positions, floors, pending counts, clients, subscriber counts, wildcard subscriptions with their owner, retained values, keys, values and expiry times; pages of random sizes must partition the listing and searches select exactly the matching entries. In between batteries of hostile requests (extreme, malformed, repeated and unknown parameters, other methods and paths) must be answered, and the next audit, without any operation in between, must still equal the shadow. (observe) While clients work concurrently under injected preemption, HTTP readers poll every endpoint: each answer must be well-formed and lie between what was surely done and what may have been done, without duplicates or gaps, and the clients' own results must be as if nobody watched. One evaluation = one listing or page compared; distinct by content.",
        assumptions: vec!["the order of entries inside a listing is unspecified but must not change between pages", "a search term is matched against the text of topic, key or payload"],
    }
}

/// How a payload is shown.
fn shown(p: &[u8]) -> Value {
    let text = |b: &[u8]| Value::String(String::from_utf8_lossy(b).to_string());
    match p.first() {
        None => Value::Null,
        Some(0) => Value::String(format!("0x{}", hex(&p[1..]))),
        Some(1) => text(&p[1..]),
        Some(2) => serde_json::from_slice(&p[1..]).unwrap_or_else(|_| text(&p[1..])),
        _ => serde_json::from_slice(p).unwrap_or_else(|_| text(p)),
    }
}
const WORDS: &[&str] = &["wolf", "zulu", "grüße", "monkey", "quiz", "swift", "jump", "wolfram", "quizzing", "日本語"];
fn payload(r: &mut Rng, n: u64) -> Vec<u8> {
    let w = |r: &mut Rng| (0..r.below(4)).map(|_| *r.pick(WORDS)).collect::<Vec<_>>().join(" ");
    let mut p;
    if r.chance(40) {
        // nothing behind the type, or no type
        return vec![*r.pick(&[0u8, 1, 2, 3, b'7', b'x', 0xff])];
    }
    match r.below(12) {
        0 | 1 => {
            p = vec![0];
            p.extend(n.to_be_bytes());
            let k = r.below(40) as usize;
            p.extend(r.bytes(k).iter().map(|b| b | 0x80));
        }
        2 | 3 => {
            p = vec![1];
            p.extend(format!("{} {}", w(r), n).bytes());
        }
        4 => {
            p = vec![1];
            p.extend(n.to_string().bytes());
            p.extend([0xff, 0xfe, b' ', 0, b'"', b'\\', b'\n', 0xc3]);
            p.extend(w(r).bytes());
        }
        5 | 6 | 7 => {
            p = vec![2];
            let v = match r.below(7) {
                0 => json!({"n": n, "w": w(r), "deep": [[[[{"a": [1, 2.5, -3, null, true]}]]]]}),
                1 => json!([n, w(r), -0.5, 1e100, u64::MAX, i64::MIN]),
                2 => json!(n),
                3 => json!(format!("{} {}", n, w(r))),
                4 => json!({"n": n, "": "", "\"": "\u{0}", "é": w(r)}),
                5 => json!([n]),
                _ => json!({"n": n}),
            };
            p.extend(v.to_string().bytes());
        }
        8 => {
            p = vec![2];
            p.extend(format!("{{not json {} {}", n, w(r)).bytes());
        }
        9 => {
            p = format!("{{\"plain\": {}, \"w\": \"{}\"}}", n, w(r)).into_bytes();
        }
        10 => {
            p = format!("plain {} {}", n, w(r)).into_bytes();
        }
        _ => {
            p = vec![2];
            p.extend("[".repeat(150).bytes());
            p.extend(format!("{}", n).bytes());
            p.extend("]".repeat(150).bytes());
        }
    }
    p
}
/// A piece of a text to search for, often its beginning or end.
fn part(r: &mut Rng, s: &str) -> Option<String> {
    let c: Vec<char> = s.chars().collect();
    if c.is_empty() {
        return None;
    }
    let n = *r.pick(&[1, 2, 5, 9, c.len() as u64]);
    let n = n.min(c.len() as u64);
    let at = match r.below(4) {
        0 | 1 => 0,
        2 => c.len() as u64 - n,
        _ => r.below(c.len() as u64 - n + 1),
    };
    Some(c[at as usize..(at + n) as usize].iter().collect())
}
fn has(p: &[u8], term: &str) -> bool {
    String::from_utf8_lossy(p).contains(term)
}

#[derive(Clone, Debug, PartialEq)]
enum S {
    Ready,
    Fly(u64),
    Dead(String),
}
struct QM {
    pay: Vec<u8>,
    prio: u8,
    id: Option<Id>,
    att: u32,
    born: u64,
    st: S,
    /// when it died
    died: u64,
}
struct Qu {
    name: String,
    vt: u64,
    retries: u32,
    msgs: Vec<QM>,
}
struct Pend {
    who: usize,
    at: u64,
    n: u32,
}
struct Member {
    conn: usize,
    j: Joined,
}
#[derive(Default)]
struct Gr {
    next: u64,
    floor: u64,
    pend: BTreeMap<u64, Pend>,
    redel: BTreeMap<u64, u32>,
    mems: BTreeMap<usize, Member>,
}
impl Gr {
    fn settle(&mut self) {
        let out = self.pend.keys().chain(self.redel.keys()).min().copied().unwrap_or(self.next);
        self.floor = out.min(self.next) - 1;
    }
    fn release(&mut self, seq: u64, max: u32) {
        if let Some(p) = self.pend.remove(&seq) {
            if p.n < max {
                self.redel.insert(seq, p.n);
            }
        }
        self.settle();
    }
    fn drop_member(&mut self, m: usize, max: u32) {
        self.mems.remove(&m);
        let v: Vec<u64> = self.pend.iter().filter(|(_, p)| p.who == m).map(|(s, _)| *s).collect();
        for s in v {
            self.release(s, max);
        }
    }
}
struct Str {
    name: String,
    opts: Value,
    log: Vec<(Vec<u8>, u64)>,
    groups: BTreeMap<String, Gr>,
}
struct Cl {
    c: Conn,
    id: Option<String>,
    subs: BTreeSet<String>,
}
struct World {
    qs: Vec<Qu>,
    ss: Vec<Str>,
    cls: BTreeMap<usize, Cl>,
    retained: BTreeMap<String, (Vec<u8>, u64)>,
    store: BTreeMap<String, (Vec<u8>, u64)>,
    uniq: u64,
    /// orders failures
    tick: u64,
    member: usize,
    ack_wait: u64,
    max_del: u32,
    cfg: Value,
}
const FAR: u64 = u64::MAX / 4;

impl World {
    fn deadlines(&self) -> Vec<u64> {
        let mut v: Vec<u64> = self.retained.values().map(|x| x.1).chain(self.store.values().map(|x| x.1)).collect();
        for q in &self.qs {
            v.extend(q.msgs.iter().filter_map(|m| if let S::Fly(d) = m.st { Some(d) } else { None }));
        }
        for s in &self.ss {
            for g in s.groups.values() {
                v.extend(g.pend.values().map(|p| p.at + self.ack_wait));
            }
        }
        v
    }
    /// Move the server's clock so that nothing is due soon after, and let what became due happen.
    fn advance(&mut self, ctx: &mut Ctx, srv: &Server, ms: u64) -> Result<(), Fail> {
        let now = srv.ctl.virtual_ms();
        let mut to = now + ms;
        let dl = self.deadlines();
        while let Some(d) = dl.iter().filter(|d| **d + 2 >= to && **d < to + 4000).max() {
            to = d + 3;
        }
        srv.adv(to - now);
        for _ in 0..4 {
            srv.settle();
            srv.adv(60);
        }
        srv.settle();
        let mut due = 0;
        self.tick += 1;
        let tick = self.tick;
        for q in &mut self.qs {
            for m in &mut q.msgs {
                if let S::Fly(d) = m.st {
                    if d <= to {
                        due += 1;
                        m.died = tick;
                        m.st = if m.att >= q.retries { S::Dead("Timeout".into()) } else { S::Ready };
                    }
                }
            }
        }
        for s in &mut self.ss {
            for g in s.groups.values_mut() {
                let v: Vec<u64> = g.pend.iter().filter(|(_, p)| p.at + self.ack_wait < to).map(|(s, _)| *s).collect();
                due += v.len();
                for x in v {
                    g.release(x, self.max_del);
                }
            }
        }
        self.retained.retain(|_, x| x.1 > to);
        self.store.retain(|_, x| x.1 > to);
        ctx.t(format!("time {} -> {} ({} timed out)", now, to, due));
        if !srv.quiet() {
            return Err(Fail::Inconclusive("the server does not come to rest".into()));
        }
        if due > 0 {
            // the sweeps run by timer: allow them some more time, nothing else is due in it
            let mut n = 0;
            while self.counts_differ(srv)? {
                n += 1;
                if n > 50 {
                    return Err(Fail::Suspect(format!("{} due timeouts do not show in the listings", due)));
                }
                srv.adv(60);
                srv.settle();
            }
        }
        Ok(())
    }
    fn counts_differ(&self, srv: &Server) -> Result<bool, Fail> {
        let v = srv.get("/api/queue")?;
        for q in &self.qs {
            let n = |f: &dyn Fn(&S) -> bool| q.msgs.iter().filter(|m| f(&m.st)).count() as u64;
            let e = v.as_array().and_then(|a| a.iter().find(|e| e["name"] == json!(q.name))).cloned().unwrap_or_default();
            if e["inflight"] != json!(n(&|s| matches!(s, S::Fly(_)))) {
                return Ok(true);
            }
        }
        let v = srv.get("/api/stream")?;
        for s in &self.ss {
            let e = v["topics"].as_array().and_then(|a| a.iter().find(|e| e["name"] == json!(s.name))).cloned().unwrap_or_default();
            for (gn, g) in &s.groups {
                let x = e["groups"].as_array().and_then(|a| a.iter().find(|e| e["id"] == json!(gn))).cloned().unwrap_or_default();
                if x["pending_count"] != json!(g.pend.len()) {
                    return Ok(true);
                }
            }
        }
        Ok(false)
    }
}

/// All pages of a listing at `path` (with its other parameters), and the total; pages of a random size.
fn pages(ctx: &mut Ctx, srv: &Server, path: &str, field: &str, total: &str, max: u64) -> Result<Vec<Value>, Fail> {
    let size = *ctx.rng.pick(&[1u64, 2, 3, 5, 7, 50, 500, 1000, 100_000, u32::MAX as u64]);
    let n0 = srv.get(&format!("{}limit=0", path))?;
    let t = n0[total].as_u64().ok_or_else(|| Fail::v("http", format!("GET {} has no {}: {}", path, total, n0)))?;
    let size = if t / size.max(1) > 60 { 50 } else { size };
    let mut out: Vec<Value> = vec![];
    loop {
        let v = srv.get(&format!("{}offset={}&limit={}", path, out.len(), size))?;
        ensure!(v[total].as_u64() == Some(t), "pages", "GET {} (offset {} limit {}) reports {} {}, before it was {}", path, out.len(), size, total, v[total], t);
        let l = v[field].as_array().ok_or_else(|| Fail::v("http", format!("GET {} has no {}", path, field)))?;
        let want = (t - (out.len() as u64).min(t)).min(size).min(max);
        ensure!(l.len() as u64 == want, "pages", "GET {} with offset {} and limit {} returns {} entries of {}", path, out.len(), size, l.len(), t);
        if l.is_empty() {
            break;
        }
        out.extend(l.iter().cloned());
    }
    ctx.rep.eval(1);
    // any single page is the cut of the same listing
    for _ in 0..2 {
        let off = *ctx.rng.pick(&[0, 1, t / 2, t.saturating_sub(1), t, t + 1, u64::MAX, 1 << 63]);
        let lim = *ctx.rng.pick(&[0u64, 1, 2, t, t + 5, 1 << 40]);
        let v = srv.get(&format!("{}limit={}&offset={}", path, lim, off))?;
        let want: Vec<Value> = out.iter().skip(off.min(1 << 40) as usize).take(lim.min(max) as usize).cloned().collect();
        ensure!(v[total].as_u64() == Some(t) && v[field].as_array() == Some(&want), "pages", "GET {} with offset {} and limit {} is not the cut of the full listing ({} entries): {}", path, off, lim, out.len(), short(&v));
        ctx.rep.eval(1);
    }
    Ok(out)
}
fn short(v: &Value) -> String {
    v.to_string().chars().take(500).collect()
}
/// Two listings as multisets.
fn same(what: &str, mut got: Vec<String>, mut want: Vec<String>) -> Result<u64, Fail> {
    got.sort();
    want.sort();
    if got != want {
        let count = |v: &Vec<String>| {
            let mut m: BTreeMap<String, i64> = BTreeMap::new();
            for x in v {
                *m.entry(x.clone()).or_default() += 1;
            }
            m
        };
        let (g, w) = (count(&got), count(&want));
        let minus = |a: &BTreeMap<String, i64>, b: &BTreeMap<String, i64>| a.iter().filter(|(k, n)| **n > b.get(*k).copied().unwrap_or(0)).map(|(k, _)| k.chars().take(300).collect()).take(4).collect::<Vec<String>>();
        viol!("listing", "{} lists {} entries, {} exist; wrongly listed: {:?}; missing: {:?}", what, got.len(), want.len(), minus(&g, &w), minus(&w, &g));
    }
    Ok(hash64(got.join("|").as_bytes()))
}

fn audit_queues(ctx: &mut Ctx, srv: &Server, w: &mut World, deep: bool) -> Result<(), Fail> {
    let v = srv.get("/api/queue")?;
    let got = v.as_array().ok_or_else(|| Fail::v("http", format!("queue listing: {}", short(&v))))?.iter().map(|x| x.to_string()).collect();
    let want = w
        .qs
        .iter()
        .map(|q| {
            let n = |f: &dyn Fn(&S) -> bool| q.msgs.iter().filter(|m| f(&m.st)).count();
            json!({"name": q.name, "pending": n(&|s| *s == S::Ready), "inflight": n(&|s| matches!(s, S::Fly(_))), "dlq": n(&|s| matches!(s, S::Dead(_))),
                "config": {"visibility_timeout_ms": q.vt, "max_retries": q.retries}})
            .to_string()
        })
        .collect();
    let h = same("the queue listing", got, want)?;
    ctx.rep.eval(1);
    ctx.rep.distinct(h);
    for i in 0..w.qs.len() {
        if !deep && ctx.rng.chance(500) {
            continue;
        }
        for state in ["pending", "inflight", "dlq"] {
            let spelled = if ctx.rng.chance(200) { state.to_uppercase() } else { state.to_string() };
            let term = if state != "dlq" && ctx.rng.chance(400) { Some(ctx.rng.pick(&["wolf", "zulu", "quiz", "monkey wolf", "jump", "wolfram", "xxx", "é", "日", "n", " ", "%", "w&o=l#f", "\"", "\\"]).to_string()) } else { None };
            let some: Vec<&QM> = w.qs[i].msgs.iter().filter(|m| !m.pay.is_empty()).collect();
            let at = ctx.rng.below(some.len().max(1) as u64) as usize;
            let term = if state != "dlq" && !some.is_empty() && ctx.rng.chance(250) { part(&mut ctx.rng, &String::from_utf8_lossy(&some[at].pay)).or(term) } else { term };
            let search = term.as_ref().map(|t| format!("search={}&", enc(t))).unwrap_or_default();
            let path = format!("/api/queue/{}/messages?state={}&{}", enc(&w.qs[i].name), spelled, search);
            let l = pages(ctx, srv, &path, "messages", "total", 1000)?;
            let q = &mut w.qs[i];
            let inn = |m: &QM| match &m.st {
                S::Ready => state == "pending",
                S::Fly(_) => state == "inflight",
                S::Dead(_) => state == "dlq",
            };
            let mut ids = BTreeSet::new();
            for e in &l {
                let id = e["id"].as_str().and_then(uuid_parse).ok_or_else(|| Fail::v("listing", format!("{} lists an entry without id: {}", path, e)))?;
                ensure!(ids.insert(id), "listing", "{} lists message {} twice", path, uuid_str(&id));
                // learn the id of a message recognised by its content
                if !q.msgs.iter().any(|m| m.id == Some(id)) {
                    let c: Vec<usize> = (0..q.msgs.len()).filter(|k| q.msgs[*k].id.is_none() && inn(&q.msgs[*k]) && shown(&q.msgs[*k].pay) == e["payload"]).collect();
                    if c.len() == 1 {
                        q.msgs[c[0]].id = Some(id);
                    }
                }
            }
            let idof = |id: Option<Id>| id.map(|i| uuid_str(&i)).unwrap_or_default();
            let known: BTreeSet<Id> = q.msgs.iter().filter_map(|m| m.id).collect();
            let got = l
                .iter()
                .map(|e| {
                    let mut e = e.clone();
                    if e["id"].as_str().and_then(uuid_parse).map_or(false, |i| !known.contains(&i)) {
                        e["id"] = json!("");
                    }
                    e.to_string()
                })
                .collect();
            let want = q
                .msgs
                .iter()
                .filter(|m| inn(m) && term.as_ref().map_or(true, |t| has(&m.pay, t)))
                .map(|m| match &m.st {
                    S::Dead(reason) => json!({"id": idof(m.id), "payload": shown(&m.pay), "attempts": m.att, "failure_reason": reason, "created_at": m.born}),
                    s => json!({"id": idof(m.id), "payload": shown(&m.pay), "attempts": m.att, "priority": m.prio, "state": if *s == S::Ready { "pending" } else { "inflight" }}),
                })
                .map(|v| v.to_string())
                .collect();
            let h = same(&format!("GET {}", path), got, want)?;
            if state == "dlq" {
                // the latest failure comes first
                let at: Vec<u64> = l.iter().filter_map(|e| e["id"].as_str().and_then(uuid_parse)).filter_map(|i| q.msgs.iter().find(|m| m.id == Some(i)).map(|m| m.died)).collect();
                ensure!(at.windows(2).all(|p| p[0] >= p[1]), "order", "GET {}: dead letters are not listed from the latest failure to the first: failures {:?}", path, at);
            }
            ctx.rep.eval(1);
            ctx.rep.distinct(h);
        }
    }
    Ok(())
}

fn audit_streams(ctx: &mut Ctx, srv: &Server, w: &mut World, deep: bool) -> Result<(), Fail> {
    let v = srv.get("/api/stream")?;
    let mut got = vec![];
    for t in v["topics"].as_array().ok_or_else(|| Fail::v("http", format!("stream listing: {}", short(&v))))? {
        let mut t = t.clone();
        if let Some(g) = t["groups"].as_array_mut() {
            g.sort_by_key(|x| x.to_string());
        }
        let c = t["config"].as_object_mut().ok_or_else(|| Fail::v("listing", "stream without config".into()))?;
        c.retain(|k, _| ["retention", "max_ack_pending", "ack_wait_ms", "max_deliveries", "ram_soft_limit", "max_segment_size"].contains(&k.as_str()));
        got.push(t.to_string());
    }
    let want = w
        .ss
        .iter()
        .map(|s| {
            let mut g: Vec<Value> = s.groups.iter().map(|(n, g)| json!({"id": n, "ack_floor": g.floor, "pending_count": g.pend.len()})).collect();
            g.sort_by_key(|x| x.to_string());
            let mut c = w.cfg.clone();
            c["retention"] = s.opts.clone();
            json!({"name": s.name, "last_seq": s.log.len(), "groups": g, "config": c}).to_string()
        })
        .collect();
    let h = same("the stream listing", got, want)?;
    ctx.rep.eval(1);
    ctx.rep.distinct(h);
    for s in &w.ss {
        if !deep && ctx.rng.chance(500) {
            continue;
        }
        let n = s.log.len() as u64;
        let check = |ctx: &mut Ctx, from: Option<u64>, limit: Option<u64>| -> Result<u64, Fail> {
            let mut p = format!("/api/stream/{}/messages?x=1", enc(&s.name));
            if let Some(f) = from {
                p += &format!("&from={}", f);
            }
            if let Some(l) = limit {
                p += &format!("&limit={}", l);
            }
            let v = srv.get(&p)?;
            let lim = limit.unwrap_or(50).min(500);
            ensure!(v["last_seq"].as_u64() == Some(n), "listing", "GET {} reports last position {}, it is {}", p, v["last_seq"], n);
            // without a start: the newest ones
            let a = from.unwrap_or((n + 1).saturating_sub(lim)).max(1);
            let b = a.saturating_add(lim).min(n + 1).max(a.min(n + 1));
            let mut got: Vec<(u64, Value, Option<u64>)> =
                v["messages"].as_array().cloned().unwrap_or_default().iter().map(|m| (m["seq"].as_u64().unwrap_or(0), m["payload"].clone(), m["timestamp"].as_str().and_then(rfc3339_ms))).collect();
            got.sort_by_key(|x| x.0);
            let want: Vec<(u64, Value, Option<u64>)> = (a..b).map(|i| (i, shown(&s.log[i as usize - 1].0), Some(s.log[i as usize - 1].1))).collect();
            if got != want {
                let bad = got.iter().zip(want.iter()).find(|(a, b)| a != b);
                viol!("listing", "GET {} returns positions {:?}, expected {}..{} (first difference: {:?})", p, got.iter().map(|x| x.0).collect::<Vec<_>>(), a, b, bad);
            }
            ctx.rep.eval(1);
            ctx.rep.distinct(hash64(format!("{:?}", got).as_bytes()));
            Ok(b)
        };
        check(ctx, None, None)?;
        let lim = *ctx.rng.pick(&[0u64, 1, 3, 50, 500, u64::MAX]);
        check(ctx, None, Some(lim))?;
        for _ in 0..3 {
            let from = *ctx.rng.pick(&[0, 1, 2, n / 2, n.saturating_sub(1), n, n + 1, u64::MAX, u64::MAX - 3]);
            let lim = *ctx.rng.pick(&[0u64, 1, 2, 10, 500, 501, u64::MAX]);
            check(ctx, Some(from), Some(lim))?;
        }
        let size = *ctx.rng.pick(&[1u64, 3, 10, 100, 500]);
        let size = if n / size > 40 { 100 } else { size };
        let mut at = 1;
        while at <= n {
            at = check(ctx, Some(at), Some(size))?;
        }
    }
    Ok(())
}

fn audit_pubsub(ctx: &mut Ctx, srv: &Server, w: &mut World) -> Result<(), Fail> {
    // connections that were closed may still be going away
    let n = w.cls.len() as u64;
    let end = Instant::now() + ctx.patience;
    loop {
        let v = srv.get("/api/pubsub?limit=0")?;
        if v["active_clients"].as_u64() == Some(n) {
            break;
        }
        if Instant::now() > end {
            viol!("clients", "the dashboard reports {} connected clients, there are {}", v["active_clients"], n);
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    if !srv.quiet() {
        return Err(Fail::Inconclusive("the server does not come to rest".into()));
    }
    let term = if ctx.rng.chance(400) { Some(ctx.rng.pick(&["a", "b/", "/", "+", "#", "é", "mark", "a/b", " ", "zz", "$", "+/"]).to_string()) } else { None };
    let held: Vec<&String> = w.cls.values().flat_map(|c| c.subs.iter()).collect();
    let at = ctx.rng.below(held.len().max(1) as u64) as usize;
    let term = if !held.is_empty() && ctx.rng.chance(200) { part(&mut ctx.rng, held[at]).or(term) } else { term };
    let path = format!("/api/pubsub?{}", term.as_ref().map(|t| format!("search={}&", enc(t))).unwrap_or_default());
    let fit = |s: &str| term.as_ref().map_or(true, |t| s.contains(t.as_str()));
    let l = pages(ctx, srv, &path, "topics", "total_topics", 500)?;
    let mut want: BTreeMap<String, (u64, Value)> = BTreeMap::new();
    for c in w.cls.values() {
        for s in &c.subs {
            want.entry(s.clone()).or_insert((0, Value::Null)).0 += 1;
        }
    }
    for (t, (p, _)) in &w.retained {
        want.entry(t.clone()).or_insert((0, Value::Null)).1 = shown(p);
    }
    let want = want.into_iter().filter(|(k, _)| fit(k)).map(|(k, (n, v))| json!({"full_path": k, "subscribers": n, "retained_value": v}).to_string()).collect();
    let h = same(&format!("GET {}", path), l.iter().map(|x| x.to_string()).collect(), want)?;
    let paths: Vec<&str> = l.iter().filter_map(|x| x["full_path"].as_str()).collect();
    ensure!(paths.windows(2).all(|p| p[0] <= p[1]), "order", "GET {}: topics are not listed in the order of their paths: {:?}", path, paths);
    ctx.rep.eval(1);
    ctx.rep.distinct(h);
    let v = srv.get(&path)?;
    ensure!(v["active_clients"].as_u64() == Some(n), "clients", "the dashboard reports {} connected clients, there are {}", v["active_clients"], n);
    let all = srv.get("/api/pubsub")?;
    for e in all["wildcards"]["single_level"].as_array().unwrap_or(&vec![]) {
        if let Some(k) = e["pattern"].as_str().and_then(|p| p.strip_prefix("mark/")).and_then(|p| p.strip_suffix("/+")).and_then(|k| k.parse::<usize>().ok()) {
            let id = e["client_id"].as_str().unwrap_or("").to_string();
            if let Some(c) = w.cls.get_mut(&k) {
                ensure!(c.id.is_none() || c.id.as_ref() == Some(&id), "clients", "a connection's client id changed from {:?} to {:?}", c.id, id);
                c.id = Some(id);
            }
        }
    }
    for (field, multi) in [("multi_level", true), ("single_level", false)] {
        let got = v["wildcards"][field].as_array().cloned().unwrap_or_default().iter().map(|x| x.to_string()).collect();
        let mut want = vec![];
        for c in w.cls.values() {
            for s in &c.subs {
                let hash = s.split('/').any(|p| p == "#");
                let plus = s.split('/').any(|p| p == "+");
                if fit(s) && (hash && multi || plus && !hash && !multi) {
                    want.push(json!({"pattern": s, "client_id": c.id}).to_string());
                }
            }
        }
        let h = same(&format!("GET {} ({} wildcards)", path, field), got, want)?;
        ctx.rep.eval(1);
        ctx.rep.distinct(h);
    }
    Ok(())
}

fn audit_store(ctx: &mut Ctx, srv: &Server, w: &mut World) -> Result<(), Fail> {
    let term = if ctx.rng.chance(500) { Some(ctx.rng.pick(&["k1", "k", "user:", "/", "é", "zzz", "%", "1", " ", "&", "K"]).to_string()) } else { None };
    let held: Vec<&String> = w.store.keys().collect();
    let at = ctx.rng.below(held.len().max(1) as u64) as usize;
    let term = if !held.is_empty() && ctx.rng.chance(200) { part(&mut ctx.rng, held[at]).or(term) } else { term };
    let path = format!("/api/store?{}", term.as_ref().map(|t| format!("search={}&", enc(t))).unwrap_or_default());
    let l = pages(ctx, srv, &path, "keys", "total", u64::MAX)?;
    let mut got = vec![];
    for e in &l {
        let x = e["exp_at"].as_str().unwrap_or("");
        let exp = if x == "Never" { "Never".to_string() } else { rfc3339_ms(x).map(|m| m.to_string()).unwrap_or_else(|| "?".into()) };
        got.push(json!({"key": e["key"], "value": e["value"], "exp": exp}).to_string());
    }
    let want = w
        .store
        .iter()
        .filter(|(k, _)| term.as_ref().map_or(true, |t| k.contains(t.as_str())))
        .map(|(k, (p, d))| json!({"key": k, "value": shown(p), "exp": if *d >= FAR { "Never".to_string() } else { srv.ctl.wall_ms(*d).to_string() }}).to_string())
        .collect();
    let h = same(&format!("GET {}", path), got, want)?;
    ctx.rep.eval(1);
    ctx.rep.distinct(h);
    Ok(())
}
fn audit(ctx: &mut Ctx, srv: &Server, w: &mut World, deep: bool) -> Result<(), Fail> {
    let mut k = [0, 1, 2, 3];
    ctx.rng.shuffle(&mut k);
    for (i, b) in k.iter().enumerate() {
        if i > 1 && !deep {
            break;
        }
        match b {
            0 => audit_queues(ctx, srv, w, deep)?,
            1 => audit_streams(ctx, srv, w, deep)?,
            2 => audit_pubsub(ctx, srv, w)?,
            _ => audit_store(ctx, srv, w)?,
        }
    }
    Ok(())
}

/// Requests nobody should send.
fn poke(r: &mut Rng, port: u16, names: &[String], patience: Duration) -> Result<(String, u16), Fail> {
    let num = |r: &mut Rng| match r.below(16) {
        0 => "0".to_string(),
        1 => "1".into(),
        2 => u64::MAX.to_string(),
        3 => format!("{}0", u64::MAX),
        4 => "-1".into(),
        5 => "1e3".into(),
        6 => "abc".into(),
        7 => "".into(),
        8 => "%00".into(),
        9 => "%FF%FE".into(),
        10 => (1u64 << 63).to_string(),
        11 => (u64::MAX - 1).to_string(),
        12 => " 5".replace(' ', "%20"),
        13 => "0x10".into(),
        14 => "9".repeat(400),
        _ => r.next().to_string(),
    };
    let text = |r: &mut Rng| match r.below(10) {
        0 => "".to_string(),
        1 => "%".into(),
        2 => "%ff".into(),
        3 => "%F0%9F%92%A9".into(),
        4 => "a".repeat(20_000),
        5 => "%00%0a%0d".into(),
        6 => "+".into(),
        7 => "(.*)%2B%5B".into(),
        8 => "%2e%2e%2f%2e%2e%2fetc%2fpasswd".into(),
        _ => "k".into(),
    };
    let name = match r.below(4) {
        0 => text(r),
        1 => "absent".into(),
        _ => enc(r.pick(names)),
    };
    let mut p = match r.below(10) {
        0 | 1 => "/api/store".to_string(),
        2 | 3 => "/api/pubsub".into(),
        4 => "/api/queue".into(),
        5 => format!("/api/queue/{}/messages", name),
        6 => "/api/stream".into(),
        7 => format!("/api/stream/{}/messages", name),
        8 => (*r.pick(&["/", "/index.html", "/api", "/api/", "/api/nothing", "/../../etc/passwd", "//", "/%2e%2e/%2e%2e/Cargo.toml", "/api/queue/", "/api/queue//messages", "/assets/x"])).to_string(),
        _ => format!("/api/queue/{}/{}", name, r.pick(&["message", "messages/", "purge", "ack"])),
    };
    let mut sep = '?';
    for _ in 0..r.below(5) {
        let (k, v) = match r.below(6) {
            0 => ("limit", num(r)),
            1 => ("offset", num(r)),
            2 => ("from", num(r)),
            3 => ("search", text(r)),
            4 => ("state", (*r.pick(&["pending", "inflight", "dlq", "DLQ", "", "x", "%ff"])).to_string()),
            _ => (*r.pick(&["", "x", "limit[]", "%ff", "="]), num(r)),
        };
        p.push(sep);
        p += &format!("{}={}", k, v);
        sep = '&';
    }
    let m = *r.pick(&["GET", "GET", "GET", "GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "PURGE"]);
    match http::request(port, m, &p, patience) {
        Ok((st, _)) => {
            let s: String = format!("{} {}", m, p).chars().take(300).collect();
            ensure!(st < 500, "hostile", "{} is answered with status {}", s, st);
            Ok((s, st))
        }
        Err(e) => {
            let s: String = format!("{} {}", m, p).chars().take(300).collect();
            if e.starts_with("no HTTP response") {
                viol!("hostile", "{} is not answered: {}", s, e);
            }
            Err(Fail::Suspect(format!("{}: {}", s, e)))
        }
    }
}

fn topic(r: &mut Rng) -> String {
    (0..r.range(1, 4)).map(|_| *r.pick(&["a", "b", "", "é", "a b", "$s", "a#b", "x+y", "A", "%2F", "c"])).collect::<Vec<_>>().join("/")
}
fn pattern(r: &mut Rng) -> String {
    let mut v: Vec<String> = topic(r).split('/').map(|s| s.to_string()).collect();
    for x in v.iter_mut() {
        if r.chance(250) {
            *x = "+".into();
        }
    }
    if r.chance(300) {
        let n = v.len();
        v[n - 1] = "#".into();
    }
    v.join("/")
}

fn model_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let ram = *ctx.rng.pick(&[0u64, 3, 10, 1000]);
    let seg = *ctx.rng.pick(&[200u64, 3000, 1 << 30]);
    let ack_wait = *ctx.rng.pick(&[2000u64, 30000]);
    let max_del = *ctx.rng.pick(&[1u64, 2, 5]);
    let max_pend = *ctx.rng.pick(&[5u64, 10000]);
    let (qvt, qmr) = (*ctx.rng.pick(&[30000u64, 700]), *ctx.rng.pick(&[5u64, 1]));
    let (sttl, rttl) = (*ctx.rng.pick(&[3600u64, 20]), *ctx.rng.pick(&[3600u64, 20]));
    let sweep = *ctx.rng.pick(&[1u64, 60, 3600]);
    let cfg = Cfg::frozen()
        .set("STREAM_RAM_SOFT_LIMIT", ram)
        .set("STREAM_MAX_SEGMENT_SIZE", seg)
        .set("STREAM_ACK_WAIT_MS", ack_wait)
        .set("STREAM_MAX_DELIVERIES", max_del)
        .set("STREAM_MAX_ACK_PENDING", max_pend)
        .set("STREAM_EVICTION_INTERVAL_MS", 50)
        .set("QUEUE_VISIBILITY_MS", qvt)
        .set("QUEUE_MAX_RETRIES", qmr)
        .set("STORE_TTL_SECS", sttl)
        .set("PUBSUB_DEFAULT_RETAINED_TTL_SECS", rttl)
        .set("STORE_CLEANUP_INTERVAL_SECS", sweep)
        .set("PUBSUB_CLEANUP_INTERVAL_SECS", sweep);
    let steps = if ctx.thorough { 500 } else { 220 };
    ctx.server(cfg, |ctx, srv| {
        let mut w = World {
            qs: vec![],
            ss: vec![],
            cls: BTreeMap::new(),
            retained: BTreeMap::new(),
            store: BTreeMap::new(),
            uniq: 1,
            tick: 0,
            member: 0,
            ack_wait,
            max_del: max_del as u32,
            cfg: json!({"max_ack_pending": max_pend, "ack_wait_ms": ack_wait, "max_deliveries": max_del, "ram_soft_limit": ram, "max_segment_size": seg}),
        };
        let mut nconn = 0;
        let mut names: Vec<String> = vec!["q0".into(), "s0".into()];
        let pool = ["jobs", "a/b", "a%2Fb", "é", "x y", "a?b", "a&b=c", "..", "#1", "q:é/日本", "%", "a.db", "messages", "m+n"];
        let join = |srv: &Server, w: &mut World, nconn: &mut usize| -> Result<usize, Fail> {
            let c = srv.conn()?;
            *nconn += 1;
            let mark = format!("mark/{}/+", *nconn);
            c.subscribe(&mark)?;
            w.cls.insert(*nconn, Cl { c, id: None, subs: [mark].into_iter().collect() });
            Ok(*nconn)
        };
        let admin = join(srv, &mut w, &mut nconn)?;
        audit(ctx, srv, &mut w, true)?;
        let bulk_at = if ctx.rng.chance(250) { ctx.rng.range(steps - 15, steps - 1) } else { steps };
        for step in 0..steps {
            let now = srv.ctl.virtual_ms();
            let ks: Vec<usize> = w.cls.keys().copied().collect();
            let k = *ctx.rng.pick(&ks);
            let c = w.cls[&k].c.clone();
            let _ = c.drain_pushes();
            let what = ctx.rng.below(1000);
            if step == bulk_at {
                // more than fits on the largest page
                match ctx.rng.below(4) {
                    0 if !w.qs.is_empty() => {
                        let q = &mut w.qs[0];
                        let n = ctx.rng.range(500, 1200);
                        for _ in 0..n {
                            let pay = format!("\u{1}bulk {}", w.uniq).into_bytes();
                            w.uniq += 1;
                            ensure!(c.q_push(&q.name, None, &pay)? == Resp::Ok, "reply", "push failed");
                            q.msgs.push(QM { pay, prio: 0, id: None, att: 0, born: srv.ctl.wall_ms(now), st: S::Ready, died: 0 });
                        }
                        // and as many dead ones
                        if ctx.rng.chance(500) {
                            let free: u64 = q.msgs.iter().filter(|m| m.st == S::Ready).count() as u64;
                            for m in c.q_consume(&q.name, Some(free), Some(0))? {
                                let Some(f) = q.msgs.iter().position(|x| x.id == Some(m.id)).or_else(|| q.msgs.iter().position(|x| x.id.is_none() && x.pay == m.payload && x.st == S::Ready)) else { viol!("delivery", "{:?} delivered an unknown message", q.name) };
                                ensure!(c.q_nack(&q.name, &m.id, "bulk")?, "reply", "nack of an in-flight message failed");
                                w.tick += 1;
                                let x = &mut q.msgs[f];
                                x.id = Some(m.id);
                                x.att += 1;
                                x.died = w.tick;
                                x.st = if x.att >= q.retries { S::Dead("bulk".into()) } else { S::Ready };
                            }
                        }
                    }
                    1 if !w.ss.is_empty() => {
                        for _ in 0..ctx.rng.range(500, 700) {
                            let s = &mut w.ss[0];
                            let pay = format!("\u{1}bulk {}", s.log.len()).into_bytes();
                            let q = c.s_pub(&s.name, &pay)?;
                            s.log.push((pay, srv.ctl.wall_ms(now)));
                            ensure!(q == s.log.len() as u64, "reply", "publish got position {} of {}", q, s.log.len());
                        }
                    }
                    2 => {
                        for i in 0..ctx.rng.range(480, 700) {
                            let t = format!("bulk/{}/{}", i % 7, i);
                            let pay = format!("\u{1}{}", i).into_bytes();
                            c.publish(&t, "{\"retain\":true,\"ttl\":100000}", &pay)?;
                            w.retained.insert(t, (pay, now + 100_000_000));
                        }
                    }
                    _ => {
                        for i in 0..ctx.rng.range(480, 700) {
                            let k = format!("bulk{}", i);
                            let pay = format!("\u{1}{}", i).into_bytes();
                            c.must_ok(SET, &W::new().s(&k).s("{\"ttl\":100000}").raw(&pay).0)?;
                            w.store.insert(k, (pay, now + 100_000_000));
                        }
                    }
                }
                ctx.t(format!("{} bulk", step));
                w.advance(ctx, srv, 120)?;
                audit(ctx, srv, &mut w, true)?;
                ctx.rep.count("bulk_listings", 1);
            } else if what < 30 {
                if w.qs.len() < 5 {
                    let n = if w.qs.is_empty() { "q0".to_string() } else { ctx.rng.pick(&pool).to_string() };
                    let (mut o, mut vt, mut mr) = (json!({}), qvt, qmr as u32);
                    if ctx.rng.chance(500) {
                        vt = *ctx.rng.pick(&[500u64, 1000, 10_000, 86_400_000]);
                        o["visibilityTimeoutMs"] = json!(vt);
                    }
                    if ctx.rng.chance(500) {
                        mr = *ctx.rng.pick(&[0u32, 1, 2, 100]);
                        o["maxRetries"] = json!(mr);
                    }
                    ctx.t(format!("{} create queue {:?} {}", step, n, o));
                    ensure!(c.q_create(&n, &o.to_string())? == Resp::Ok, "reply", "creating queue {:?} failed", n);
                    names.push(n.clone());
                    if !w.qs.iter().any(|q| q.name == n) {
                        w.qs.push(Qu { name: n, vt, retries: mr, msgs: vec![] });
                    }
                }
            } else if what < 36 {
                if w.qs.len() > 2 {
                    let i = ctx.rng.below(w.qs.len() as u64) as usize;
                    let q = w.qs.remove(i);
                    ctx.t(format!("{} delete queue {:?}", step, q.name));
                    c.must_ok(Q_DELETE, &W::new().s(&q.name).0)?;
                }
            } else if what < 400 {
                if w.qs.is_empty() {
                    continue;
                }
                let i = ctx.rng.below(w.qs.len() as u64) as usize;
                let q = &mut w.qs[i];
                match ctx.rng.below(100) {
                    0..=44 => {
                        for _ in 0..ctx.rng.range(1, 8) {
                            // a message is told by its content until its id is known
                            let mut pay = if ctx.rng.chance(20) { vec![] } else { payload(&mut ctx.rng, w.uniq) };
                            while q.msgs.iter().any(|m| m.id.is_none() && shown(&m.pay) == shown(&pay)) {
                                pay = payload(&mut ctx.rng, w.uniq);
                            }
                            w.uniq += 1;
                            let prio = *ctx.rng.pick(&[None, Some(0u8), Some(1), Some(9), Some(255)]);
                            ensure!(c.q_push(&q.name, prio, &pay)? == Resp::Ok, "reply", "push failed");
                            ctx.t(format!("{} push {:?} prio {:?} {}", step, q.name, prio, preview(&pay)));
                            q.msgs.push(QM { pay, prio: prio.unwrap_or(0), id: None, att: 0, born: srv.ctl.wall_ms(now), st: S::Ready, died: 0 });
                        }
                    }
                    45..=69 => {
                        let n = ctx.rng.range(1, 6);
                        for m in c.q_consume(&q.name, Some(n), Some(0))? {
                            let f = q.msgs.iter().position(|x| x.id == Some(m.id)).or_else(|| q.msgs.iter().position(|x| x.id.is_none() && x.pay == m.payload && x.st == S::Ready));
                            match f.map(|f| &mut q.msgs[f]) {
                                Some(x) if x.st == S::Ready && x.pay == m.payload => {
                                    x.id = Some(m.id);
                                    x.att += 1;
                                    x.st = S::Fly(now + q.vt);
                                    ctx.t(format!("{} consumed from {:?} {} attempt {}", step, q.name, uuid_str(&m.id), x.att));
                                }
                                x => viol!("delivery", "{:?} delivered {} which is listed as {:?}", q.name, uuid_str(&m.id), x.map(|x| x.st.clone())),
                            }
                        }
                    }
                    x => {
                        let v: Vec<usize> = (0..q.msgs.len()).filter(|j| q.msgs[*j].id.is_some() && if x < 85 { matches!(q.msgs[*j].st, S::Fly(_)) } else { matches!(q.msgs[*j].st, S::Dead(_)) }).collect();
                        if v.is_empty() {
                            continue;
                        }
                        let j = *ctx.rng.pick(&v);
                        let id = q.msgs[j].id.unwrap();
                        match x {
                            70..=76 => {
                                ensure!(c.q_ack(&q.name, &id)?, "reply", "ack of an in-flight message failed");
                                q.msgs.remove(j);
                                ctx.t(format!("{} ack {}", step, uuid_str(&id)));
                            }
                            77..=84 => {
                                let reason = ctx.rng.pick(&["", "bad", "\"quoted\" \\ \u{7}", "é\n", "Timeout"]).to_string();
                                ensure!(c.q_nack(&q.name, &id, &reason)?, "reply", "nack of an in-flight message failed");
                                let m = &mut q.msgs[j];
                                w.tick += 1;
                                m.died = w.tick;
                                m.st = if m.att >= q.retries { S::Dead(reason) } else { S::Ready };
                                ctx.t(format!("{} nack {} -> {:?}", step, uuid_str(&id), m.st));
                            }
                            85..=91 => {
                                ensure!(c.q_move(&q.name, &id)?, "reply", "replay of a dead message failed");
                                let m = &mut q.msgs[j];
                                m.st = S::Ready;
                                m.att = 0;
                                ctx.t(format!("{} replay {}", step, uuid_str(&id)));
                            }
                            92..=96 => {
                                ensure!(c.q_del_dlq(&q.name, &id)?, "reply", "deleting a dead message failed");
                                q.msgs.remove(j);
                                ctx.t(format!("{} delete dead {}", step, uuid_str(&id)));
                            }
                            _ => {
                                let n = c.q_purge(&q.name)?;
                                let b = q.msgs.len();
                                q.msgs.retain(|m| !matches!(m.st, S::Dead(_)));
                                ensure!(n as usize == b - q.msgs.len(), "reply", "purge reports {} of {}", n, b - q.msgs.len());
                                ctx.t(format!("{} purge {:?}", step, q.name));
                            }
                        }
                    }
                }
            } else if what < 420 {
                if w.ss.len() < 3 {
                    let n = if w.ss.is_empty() { "s0".to_string() } else { ctx.rng.pick(&pool).to_string() };
                    let (age, bytes) = (*ctx.rng.pick(&[None, Some(0u64), Some(1 << 40)]), *ctx.rng.pick(&[None, Some(0u64), Some(1 << 40)]));
                    let mut o = json!({});
                    if age.is_some() || bytes.is_some() {
                        o["retention"] = json!({"maxAgeMs": age, "maxBytes": bytes});
                    }
                    ctx.t(format!("{} create stream {:?} {}", step, n, o));
                    ensure!(c.s_create(&n, &o.to_string())? == Resp::Ok, "reply", "creating stream {:?} failed", n);
                    names.push(n.clone());
                    if !w.ss.iter().any(|s| s.name == n) {
                        let d = |x: Option<u64>, def: u64| match x {
                            None => json!(def),
                            Some(0) => Value::Null,
                            Some(v) => json!(v),
                        };
                        w.ss.push(Str { name: n, opts: json!({"maxAgeMs": d(age, 604_800_000), "maxBytes": d(bytes, 1_073_741_824)}), log: vec![], groups: BTreeMap::new() });
                    }
                }
            } else if what < 424 {
                if w.ss.len() > 1 {
                    let i = ctx.rng.below(w.ss.len() as u64) as usize;
                    let s = w.ss.remove(i);
                    ctx.t(format!("{} delete stream {:?}", step, s.name));
                    c.must_ok(S_DELETE, &W::new().s(&s.name).0)?;
                }
            } else if what < 640 {
                if w.ss.is_empty() {
                    continue;
                }
                let i = ctx.rng.below(w.ss.len() as u64) as usize;
                let max = w.max_del;
                let s = &mut w.ss[i];
                let gn = ctx.rng.pick(&["g", "g/2", "é"]).to_string();
                let ms: Vec<usize> = s.groups.get(&gn).map(|g| g.mems.keys().copied().collect()).unwrap_or_default();
                match ctx.rng.below(100) {
                    0..=39 => {
                        for _ in 0..ctx.rng.range(1, 9) {
                            let pay = payload(&mut ctx.rng, w.uniq);
                            w.uniq += 1;
                            let q = c.s_pub(&s.name, &pay)?;
                            s.log.push((pay, srv.ctl.wall_ms(now)));
                            ensure!(q == s.log.len() as u64, "reply", "publish got position {} of {}", q, s.log.len());
                        }
                        ctx.t(format!("{} publish to {:?} -> {}", step, s.name, s.log.len()));
                    }
                    40..=54 => {
                        let j = c.s_join(&s.name, &gn)?;
                        w.member += 1;
                        let g = s.groups.entry(gn.clone()).or_insert_with(|| Gr { next: 1, ..Default::default() });
                        ctx.t(format!("{} join {:?}/{:?} member {} of conn {} floor {}", step, s.name, gn, w.member, k, j.floor));
                        g.mems.insert(w.member, Member { conn: k, j });
                    }
                    55..=59 => {
                        let end = ctx.rng.chance(500);
                        if let Err(e) = c.s_seek(&s.name, &gn, end)? {
                            viol!("reply", "seek failed: {}", e);
                        }
                        let g = s.groups.entry(gn.clone()).or_default();
                        *g = Gr { next: if end { s.log.len() as u64 + 1 } else { 1 }, ..Default::default() };
                        g.settle();
                        ctx.t(format!("{} seek {:?}/{:?} end {}", step, s.name, gn, end));
                    }
                    _ if ms.is_empty() => {}
                    60..=79 => {
                        let m = *ctx.rng.pick(&ms);
                        let g = s.groups.get_mut(&gn).unwrap();
                        let lim = ctx.rng.range(1, 8) as u32;
                        let v = match w.cls[&g.mems[&m].conn].c.s_fetch(&s.name, &gn, &g.mems[&m].j, lim, 0)? {
                            Ok(v) => v,
                            Err(e) => viol!("reply", "fetch by a member failed: {}", e),
                        };
                        ctx.t(format!("{} fetch {:?}/{:?} member {} -> {:?}", step, s.name, gn, m, v.iter().map(|x| x.seq).collect::<Vec<_>>()));
                        for x in v {
                            let n = g.redel.remove(&x.seq).unwrap_or(0) + 1;
                            g.next = g.next.max(x.seq + 1);
                            g.pend.insert(x.seq, Pend { who: m, at: now, n });
                            ensure!(s.log.get(x.seq as usize - 1).map_or(false, |l| l.0 == x.payload && l.1 == x.ts), "delivery", "{:?} delivered position {} with other content or time", s.name, x.seq);
                        }
                        g.settle();
                    }
                    80..=93 => {
                        let m = *ctx.rng.pick(&ms);
                        let g = s.groups.get_mut(&gn).unwrap();
                        let held: Vec<u64> = g.pend.iter().filter(|(_, p)| p.who == m).map(|(s, _)| *s).collect();
                        for q in held {
                            if ctx.rng.chance(600) {
                                if let Err(e) = w.cls[&g.mems[&m].conn].c.s_ack(&s.name, &gn, &g.mems[&m].j, q)? {
                                    viol!("reply", "acknowledgement by the holder failed: {}", e);
                                }
                                g.pend.remove(&q);
                                g.settle();
                                ctx.t(format!("{} ack {:?}/{:?} {}", step, s.name, gn, q));
                            }
                        }
                    }
                    _ => {
                        let m = *ctx.rng.pick(&ms);
                        let g = s.groups.get_mut(&gn).unwrap();
                        if let Err(e) = w.cls[&g.mems[&m].conn].c.s_leave(&s.name, &gn, &g.mems[&m].j)? {
                            viol!("reply", "leave failed: {}", e);
                        }
                        g.drop_member(m, max);
                        ctx.t(format!("{} leave {:?}/{:?} member {}", step, s.name, gn, m));
                    }
                }
            } else if what < 780 {
                match ctx.rng.below(100) {
                    0..=9 => {
                        if w.cls.len() < 6 {
                            let n = join(srv, &mut w, &mut nconn)?;
                            ctx.t(format!("{} connect {}", step, n));
                        }
                    }
                    10..=15 => {
                        if k != admin {
                            let x = w.cls.remove(&k).unwrap();
                            x.c.close();
                            let max = w.max_del;
                            for s in &mut w.ss {
                                for g in s.groups.values_mut() {
                                    let v: Vec<usize> = g.mems.iter().filter(|(_, m)| m.conn == k).map(|(i, _)| *i).collect();
                                    for m in v {
                                        g.drop_member(m, max);
                                    }
                                }
                            }
                            ctx.t(format!("{} disconnect {}", step, k));
                            audit_pubsub(ctx, srv, &mut w)?;
                        }
                    }
                    16..=44 => {
                        let p = pattern(&mut ctx.rng);
                        c.subscribe(&p)?;
                        ctx.t(format!("{} conn {} subscribe {:?}", step, k, p));
                        w.cls.get_mut(&k).unwrap().subs.insert(p);
                    }
                    45..=59 => {
                        let v: Vec<String> = w.cls[&k].subs.iter().filter(|s| !s.starts_with("mark/")).cloned().collect();
                        let p = if v.is_empty() || ctx.rng.chance(200) { pattern(&mut ctx.rng) } else { ctx.rng.pick(&v).clone() };
                        c.unsubscribe(&p)?;
                        ctx.t(format!("{} conn {} unsubscribe {:?}", step, k, p));
                        w.cls.get_mut(&k).unwrap().subs.remove(&p);
                    }
                    x => {
                        let t = topic(&mut ctx.rng);
                        let pay = if x < 66 { vec![] } else { payload(&mut ctx.rng, w.uniq) };
                        w.uniq += 1;
                        let (o, ttl) = match ctx.rng.below(4) {
                            0 => (json!({"retain": true}), rttl),
                            1 => (json!({"retain": true, "ttl": 7}), 7),
                            2 => (json!({"retain": true, "ttl": 100_000}), 100_000),
                            _ => (json!({}), 0),
                        };
                        c.publish(&t, &o.to_string(), &pay)?;
                        ctx.t(format!("{} publish {:?} {} {}", step, t, o, preview(&pay)));
                        if ttl > 0 {
                            if pay.is_empty() {
                                w.retained.remove(&t);
                            } else {
                                w.retained.insert(t, (pay, now + ttl * 1000));
                            }
                        }
                    }
                }
            } else if what < 900 {
                for _ in 0..ctx.rng.range(1, 6) {
                    let k = ctx.rng.pick(&["k1", "k2", "k11", "user:1", "user:é", "", "a/b?c&d", "K1", "zz", "%6b", "x y"]).to_string();
                    if ctx.rng.chance(750) {
                        let pay = if ctx.rng.chance(30) { vec![] } else { payload(&mut ctx.rng, w.uniq) };
                        w.uniq += 1;
                        let (o, d) = match ctx.rng.below(6) {
                            0 => (json!({}), now + sttl * 1000),
                            1 => (json!({"ttl": 0}), now + sttl * 1000),
                            2 => (json!({"ttl": 3}), now + 3000),
                            3 => (json!({"ttl": 100_000}), now + 100_000_000),
                            4 => (json!({"ttl": 1_000_000_000u64}), now + 1_000_000_000_000),
                            _ => (json!({"ttl": u64::MAX}), FAR),
                        };
                        c.must_ok(SET, &W::new().s(&k).s(&o.to_string()).raw(&pay).0)?;
                        ctx.t(format!("{} set {:?} {} {}", step, k, o, preview(&pay)));
                        w.store.insert(k, (pay, d));
                    } else {
                        c.must_ok(DEL, &W::new().s(&k).0)?;
                        ctx.t(format!("{} del {:?}", step, k));
                        w.store.remove(&k);
                    }
                }
            } else if what < 925 {
                let ms = *ctx.rng.pick(&[100u64, 800, 3500, 9000, 40_000, 25_000]);
                w.advance(ctx, srv, ms)?;
            } else if what < 945 {
                for _ in 0..12 {
                    let (s, st) = poke(&mut ctx.rng, srv.http, &names, ctx.patience)?;
                    ctx.t(format!("{} {} -> {}", step, s, st));
                    ctx.rep.count("hostile_requests", 1);
                    ctx.rep.eval(1);
                }
                audit(ctx, srv, &mut w, false)?;
            } else {
                // evicted messages are read from disk: let them get there
                w.advance(ctx, srv, 120)?;
                audit(ctx, srv, &mut w, false)?;
                ctx.rep.count("audits", 1);
            }
        }
        w.advance(ctx, srv, 120)?;
        audit(ctx, srv, &mut w, true)?;
        for c in w.cls.values() {
            c.c.check()?;
        }
        ctx.rep.count("audits", 1);
        ctx.rep.sample(json!({"steps": steps, "queues": w.qs.len(), "streams": w.ss.len(), "clients": w.cls.len(), "retained": w.retained.len(), "keys": w.store.len()}));
        Ok(())
    })
}

// ------------------------------------------------------------------ observation under load
fn observe_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let ram = *ctx.rng.pick(&[5u64, 1000]);
    let cfg = Cfg::real().set("QUEUE_VISIBILITY_MS", 86_400_000).set("STREAM_RAM_SOFT_LIMIT", ram).set("STREAM_EVICTION_INTERVAL_MS", 50).set("STREAM_ACK_WAIT_MS", 86_400_000).set("STREAM_MAX_SEGMENT_SIZE", 4000);
    let total = if ctx.thorough { 1500u64 } else { 500 };
    ctx.server(cfg, |ctx, srv| {
        let admin = srv.conn()?;
        ensure!(admin.q_create("q", "{}")? == Resp::Ok && admin.s_create("s", "{}")? == Resp::Ok, "reply", "create failed");
        let keys = 30u64;
        for k in 0..keys {
            admin.must_ok(SET, &W::new().s(&format!("k{}", k)).s("{}").raw(&num(0)).0)?;
        }
        if ctx.rng.chance(700) {
            srv.ctl.preempt(ctx.rng.range(200, 900), ctx.rng.range(200, 3000));
        }
        let a = |v: u64| AtomicU64::new(v);
        let (push_inv, push_done, ack_inv, ack_done) = (a(0), a(0), a(0), a(0));
        let (spub_inv, spub_done) = (a(0), a(0));
        let kv: Vec<(AtomicU64, AtomicU64)> = (0..keys).map(|_| (a(0), a(0))).collect();
        let published: Mutex<HashMap<u64, u64>> = Mutex::new(HashMap::new());
        let seen: Mutex<Vec<(u64, u64)>> = Mutex::new(vec![]);
        let consumed: Mutex<Vec<u64>> = Mutex::new(vec![]);
        let fetched: Mutex<Vec<(u64, u64)>> = Mutex::new(vec![]);
        let stop = AtomicBool::new(false);
        let fail: Mutex<Option<Fail>> = Mutex::new(None);
        let listings = a(0);
        let busy = a(0);
        let rep = ctx.rep;
        let patience = ctx.patience;
        let mut rngs: Vec<Rng> = (0..16).map(|_| ctx.rng.fork()).collect();
        let srv_r: &Server = srv;
        let (pi, pd, ai, ad, si, sd) = (&push_inv, &push_done, &ack_inv, &ack_done, &spub_inv, &spub_done);
        let (kv, published, seen, consumed, fetched, stop_r, busy) = (&kv, &published, &seen, &consumed, &fetched, &stop, &busy);
        let failing = |r: Result<(), Fail>| {
            if let Err(e) = r {
                fail.lock().unwrap().get_or_insert(e);
                stop_r.store(true, SeqCst);
            }
        };
        let wild = srv.conn()?;
        wild.subscribe("w/#")?;
        std::thread::scope(|sc| {
            let mut work: Vec<Box<dyn FnOnce(&mut Rng) -> Result<(), Fail> + Send + '_>> = vec![];
            for _ in 0..2 {
                work.push(Box::new(move |r| {
                    let c = srv_r.conn()?;
                    while !stop_r.load(SeqCst) {
                        let n = pi.fetch_add(1, SeqCst);
                        if n >= total {
                            pi.fetch_sub(1, SeqCst);
                            break;
                        }
                        let prio = if r.chance(300) { Some(r.below(3) as u8) } else { None };
                        ensure!(c.q_push("q", prio, &num(n))? == Resp::Ok, "reply", "push failed");
                        pd.fetch_add(1, SeqCst);
                    }
                    Ok(())
                }));
                work.push(Box::new(move |r| {
                    let c = srv_r.conn()?;
                    while !stop_r.load(SeqCst) {
                        let v = c.q_consume("q", Some(r.range(1, 8)), Some(0))?;
                        if v.is_empty() {
                            if consumed.lock().unwrap().len() as u64 >= total {
                                break;
                            }
                            std::thread::sleep(Duration::from_millis(1));
                        }
                        for m in v {
                            consumed.lock().unwrap().push(unnum(&m.payload));
                            ai.fetch_add(1, SeqCst);
                            ensure!(c.q_ack("q", &m.id)?, "reply", "the acknowledgement of a held message failed");
                            ad.fetch_add(1, SeqCst);
                        }
                    }
                    Ok(())
                }));
                work.push(Box::new(move |_| {
                    let c = srv_r.conn()?;
                    while !stop_r.load(SeqCst) {
                        let n = si.fetch_add(1, SeqCst);
                        if n >= total {
                            si.fetch_sub(1, SeqCst);
                            break;
                        }
                        let s = c.s_pub("s", &num(n))?;
                        sd.fetch_add(1, SeqCst);
                        ensure!(published.lock().unwrap().insert(s, n).is_none(), "reply", "two publishes got position {}", s);
                    }
                    Ok(())
                }));
                work.push(Box::new(move |r| {
                    let c = srv_r.conn()?;
                    let j = c.s_join("s", "g")?;
                    while !stop_r.load(SeqCst) {
                        let v = match c.s_fetch("s", "g", &j, r.range(1, 20) as u32, 0)? {
                            Ok(v) => v,
                            Err(e) => viol!("reply", "fetch failed: {}", e),
                        };
                        if v.is_empty() {
                            if fetched.lock().unwrap().len() as u64 >= total {
                                break;
                            }
                            std::thread::sleep(Duration::from_millis(1));
                        }
                        for m in v {
                            fetched.lock().unwrap().push((m.seq, unnum(&m.payload)));
                            if let Err(e) = c.s_ack("s", "g", &j, m.seq)? {
                                viol!("reply", "the acknowledgement of a held message failed: {}", e);
                            }
                        }
                    }
                    Ok(())
                }));
            }
            for half in 0..2u64 {
                work.push(Box::new(move |r| {
                    let c = srv_r.conn()?;
                    for v in 1..=total {
                        if stop_r.load(SeqCst) {
                            break;
                        }
                        let k = r.below(keys / 2) * 2 + half;
                        kv[k as usize].0.store(v, SeqCst);
                        c.must_ok(SET, &W::new().s(&format!("k{}", k)).s("{}").raw(&num(v)).0)?;
                        kv[k as usize].1.store(v, SeqCst);
                    }
                    Ok(())
                }));
            }
            let wild = &wild;
            work.push(Box::new(move |r| {
                let c = srv_r.conn()?;
                for n in 0..total {
                    c.publish(&format!("w/{}", r.below(5)), "{\"retain\":true}", &num(n))?;
                }
                for n in 0..total {
                    match wild.wait_push(patience) {
                        Some(p) => ensure!(unnum(&p.payload) == n, "delivery", "the subscriber received {} where {} was next", unnum(&p.payload), n),
                        None => return Err(Fail::Suspect(format!("the subscriber did not receive publish {}", n))),
                    }
                }
                Ok(())
            }));
            for w in work {
                let mut r = rngs.pop().unwrap();
                busy.fetch_add(1, SeqCst);
                let failing = &failing;
                sc.spawn(move || {
                    failing(w(&mut r));
                    busy.fetch_sub(1, SeqCst);
                });
            }
            for o in 0..3 {
                let mut r = rngs.pop().unwrap();
                let (failing, listings) = (&failing, &listings);
                sc.spawn(move || {
                    let mut f = || -> Result<(), Fail> {
                        loop {
                            if busy.load(SeqCst) == 0 || stop_r.load(SeqCst) {
                                return Ok(());
                            }
                            if o == 2 && r.chance(300) {
                                poke(&mut r, srv_r.http, &["q".into(), "s".into()], patience)?;
                                rep.count("hostile_requests", 1);
                                continue;
                            }
                            look(&mut r, srv_r, pi, pd, ai, ad, si, sd, kv, seen)?;
                            listings.fetch_add(1, SeqCst);
                            rep.eval(1);
                        }
                    };
                    let x = f();
                    failing(x);
                });
            }
        });
        if let Some(f) = fail.lock().unwrap().take() {
            return Err(f);
        }
        srv.ctl.calm();
        let mut v = consumed.lock().unwrap().clone();
        v.sort();
        ensure!(v == (0..total).collect::<Vec<_>>(), "delivery", "with the dashboard watching {} of {} messages were consumed exactly once", v.len(), total);
        let p = published.lock().unwrap().clone();
        let mut f = fetched.lock().unwrap().clone();
        f.sort();
        let want: Vec<(u64, u64)> = (1..=total).map(|s| (s, *p.get(&s).unwrap_or(&u64::MAX))).collect();
        ensure!(f == want, "delivery", "with the dashboard watching the group received {} messages, not exactly the {} published ones", f.len(), total);
        for (s, n) in seen.lock().unwrap().iter() {
            ensure!(p.get(s) == Some(n), "listing", "the dashboard showed payload {} at position {}, published there was {:?}", n, s, p.get(s));
        }
        rep.count("stream_messages_seen", seen.lock().unwrap().len() as u64);
        rep.distinct(hash64(format!("{} {}", total, listings.load(SeqCst)).as_bytes()));
        rep.count("listings_under_load", listings.load(SeqCst));
        Ok(())
    })
}
fn num(n: u64) -> Vec<u8> {
    let mut p = vec![0u8];
    p.extend(n.to_be_bytes());
    p
}
fn unnum(p: &[u8]) -> u64 {
    if p.len() == 9 {
        u64::from_be_bytes(p[1..9].try_into().unwrap())
    } else {
        u64::MAX
    }
}
fn shown_num(v: &Value) -> Option<u64> {
    Some(u64::from_be_bytes(unhex(v.as_str()?.strip_prefix("0x")?)?.try_into().ok()?))
}
/// One listing under load, judged by what was surely done before and what may have been done by its end.
#[allow(clippy::too_many_arguments)]
fn look(r: &mut Rng, srv: &Server, pi: &AtomicU64, pd: &AtomicU64, ai: &AtomicU64, ad: &AtomicU64, si: &AtomicU64, sd: &AtomicU64, kv: &[(AtomicU64, AtomicU64)], seen: &Mutex<Vec<(u64, u64)>>) -> Result<(), Fail> {
    let g = |x: &AtomicU64| x.load(SeqCst);
    match r.below(6) {
        0 => {
            let (ad0, pd0) = (g(ad), g(pd));
            let v = srv.get("/api/queue")?;
            let (ai1, pi1) = (g(ai), g(pi));
            let e = &v[0];
            let n = ["pending", "inflight", "dlq"].iter().map(|k| e[*k].as_u64().unwrap_or(1 << 40)).sum::<u64>();
            ensure!(n + ai1 >= pd0 && n + ad0 <= pi1, "counts", "the queue listing shows {} messages; pushed {}..{}, acknowledged {}..{}: {}", n, pd0, pi1, ad0, ai1, e);
            ensure!(e["dlq"] == json!(0), "counts", "dead letters out of nowhere: {}", e);
        }
        1 => {
            let state = *r.pick(&["pending", "inflight", "dlq"]);
            let (off, lim) = (*r.pick(&[0u64, 0, 3, 50]), *r.pick(&[1u64, 10, 1000]));
            let v = srv.get(&format!("/api/queue/q/messages?state={}&offset={}&limit={}", state, off, lim))?;
            let pi1 = g(pi);
            let t = v["total"].as_u64().unwrap_or(u64::MAX);
            let l = v["messages"].as_array().cloned().unwrap_or_default();
            ensure!(l.len() as u64 == t.saturating_sub(off).min(lim), "pages", "offset {} limit {} of {} {} messages returns {}", off, lim, t, state, l.len());
            let mut ids = BTreeSet::new();
            let mut ns = BTreeSet::new();
            for m in &l {
                let n = shown_num(&m["payload"]).unwrap_or(u64::MAX);
                ensure!(ids.insert(m["id"].to_string()) && ns.insert(n) && n < pi1, "listing", "entry {} of the {} listing is a duplicate or was never pushed", m, state);
                let att = if state == "pending" { 0 } else { 1 };
                ensure!(m["state"] == json!(state) && m["attempts"] == json!(att), "listing", "entry {} in the {} listing", m, state);
            }
        }
        2 => {
            let sd0 = g(sd);
            let v = srv.get("/api/stream")?;
            let si1 = g(si);
            let t = &v["topics"][0];
            let last = t["last_seq"].as_u64().unwrap_or(u64::MAX);
            ensure!(last >= sd0 && last <= si1, "counts", "the stream listing shows last position {} after {}..{} publishes", last, sd0, si1);
            for x in t["groups"].as_array().unwrap_or(&vec![]) {
                ensure!(x["ack_floor"].as_u64().unwrap_or(u64::MAX) + x["pending_count"].as_u64().unwrap_or(u64::MAX / 2) <= last, "counts", "group {} of a stream of {}", x, last);
            }
        }
        3 => {
            let sd0 = g(sd);
            let from = if r.chance(300) { None } else { Some(r.below(sd0 + 3)) };
            let lim = *r.pick(&[1u64, 10, 500]);
            let v = srv.get(&match from {
                Some(f) => format!("/api/stream/s/messages?limit={}&from={}", lim, f),
                None => format!("/api/stream/s/messages?limit={}", lim),
            })?;
            let si1 = g(si);
            let last = v["last_seq"].as_u64().unwrap_or(u64::MAX);
            ensure!(last >= sd0 && last <= si1, "counts", "the stream page shows last position {} after {}..{} publishes", last, sd0, si1);
            let mut l: Vec<(u64, u64)> = vec![];
            for m in v["messages"].as_array().cloned().unwrap_or_default() {
                l.push((m["seq"].as_u64().unwrap_or(0), shown_num(&m["payload"]).unwrap_or(u64::MAX)));
            }
            l.sort();
            let a = from.unwrap_or((last + 1).saturating_sub(lim)).max(1);
            ensure!(l.len() as u64 <= lim, "pages", "limit {} returned {}", lim, l.len());
            ensure!(l.iter().enumerate().all(|(i, x)| x.0 == a + i as u64), "listing", "positions {:?} listed from {}", l.iter().map(|x| x.0).collect::<Vec<_>>(), a);
            ensure!(!l.is_empty() || a > last, "listing", "nothing listed from {} of {}", a, last);
            seen.lock().unwrap().extend(l);
        }
        4 => {
            let lo: Vec<u64> = kv.iter().map(|k| g(&k.1)).collect();
            let (off, lim) = (*r.pick(&[0u64, 0, 7, 29]), *r.pick(&[1u64, 10, 1000]));
            let v = srv.get(&format!("/api/store?offset={}&limit={}", off, lim))?;
            let hi: Vec<u64> = kv.iter().map(|k| g(&k.0)).collect();
            ensure!(v["total"] == json!(kv.len()), "counts", "the store listing counts {} of {} keys", v["total"], kv.len());
            let l = v["keys"].as_array().cloned().unwrap_or_default();
            ensure!(l.len() as u64 == (kv.len() as u64).saturating_sub(off).min(lim), "pages", "offset {} limit {} of {} keys returns {}", off, lim, kv.len(), l.len());
            let mut ks = BTreeSet::new();
            for e in &l {
                let k = e["key"].as_str().and_then(|k| k.strip_prefix('k')).and_then(|k| k.parse::<usize>().ok()).filter(|k| *k < kv.len());
                let (k, n) = match (k, shown_num(&e["value"])) {
                    (Some(k), Some(n)) => (k, n),
                    _ => viol!("listing", "store entry {}", e),
                };
                ensure!(ks.insert(k), "listing", "key k{} is listed twice", k);
                ensure!(n >= lo[k] && n <= hi[k], "listing", "key k{} is shown with value {}, written were {}..{}", k, n, lo[k], hi[k]);
            }
        }
        _ => {
            let v = srv.get("/api/pubsub?limit=500")?;
            let l = v["topics"].as_array().cloned().unwrap_or_default();
            ensure!(v["total_topics"] == json!(l.len()), "counts", "{} topics counted, {} listed", v["total_topics"], l.len());
            ensure!(l.iter().any(|t| t["full_path"] == "w/#" && t["subscribers"] == 1) && v["wildcards"]["multi_level"].as_array().map_or(0, |x| x.len()) == 1, "listing", "the standing subscription is not listed: {}", short(&v));
        }
    }
    Ok(())
}
