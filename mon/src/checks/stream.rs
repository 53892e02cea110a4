//! C11 (the log), C12/C13 (groups), C14 (crash recovery), C15 (retention).
use crate::client::*;
use crate::http::enc;
use crate::proto::*;
use crate::report::Fail;
use crate::rng::{hash64, Rng};
use crate::run::{Ctx, Spec};
use crate::server::{Cfg, Server};
use crate::{ensure, viol};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn spec_log() -> Spec {
    Spec {
        scenarios: vec![("log", 1, log_scn)],
        par: 4,
        quick_s: 35,
        thorough_s: 400,
        level: "exploration",
        rule: "Concurrent publishers (sequential and pipelined) on several topics with tiny segments, small RAM windows and 1..256 cached file handles, under injected preemption, flush and eviction driven by virtual time, restarts in between; readers (HTTP ranges and group fetches) run concurrently. Numbers must be exactly 1..n, increase along each publisher and in real time; every read must be contiguous from the requested position, carry exactly the published bytes with unchanging timestamps and never be empty while a completed publish lies at or after it. One evaluation = one judged read or publish; distinct = distinct (configuration, position relative to the end, length) of reads.",
        assumptions: vec!["messages shown by the HTTP API are compared through its documented 0x rendering of raw payloads"],
    }
}

// ------------------------------------------------------------------ helpers
pub fn clock() -> impl Fn() -> u64 + Copy + Send + Sync {
    let t0 = Instant::now();
    move || t0.elapsed().as_nanos() as u64 + 1
}
/// Raw-type payload carrying a unique number.
pub fn body(r: &mut Rng, n: u64, max: usize) -> Vec<u8> {
    let mut p = vec![0u8];
    p.extend_from_slice(&n.to_be_bytes());
    let extra = match r.below(8) {
        0 => 0,
        1 => r.below(max as u64 + 1) as usize,
        _ => r.below((max as u64).min(60) + 1) as usize,
    };
    p.extend(r.bytes(extra));
    p
}
pub fn num(p: &[u8]) -> Option<u64> {
    if p.len() >= 9 && p[0] == 0 {
        Some(u64::from_be_bytes(p[1..9].try_into().unwrap()))
    } else {
        None
    }
}
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
/// Milliseconds since the epoch of an RFC 3339 UTC time.
pub fn rfc3339_ms(s: &str) -> Option<u64> {
    let n = |a: usize, b: usize| s.get(a..b)?.parse::<i64>().ok();
    let secs = days(n(0, 4)?, n(5, 7)?, n(8, 10)?) * 86400 + n(11, 13)? * 3600 + n(14, 16)? * 60 + n(17, 19)?;
    let mut rest = s.get(19..)?;
    let mut ms = 0;
    if let Some(f) = rest.strip_prefix('.') {
        let e = f.find(|c: char| !c.is_ascii_digit())?;
        ms = format!("{:0<3}", &f[..e]).get(..3)?.parse::<i64>().ok()?;
        rest = &f[e..];
    }
    if rest != "+00:00" && rest != "Z" {
        return None;
    }
    (secs * 1000 + ms).try_into().ok()
}
/// (last position, messages in ascending order)
pub fn read(srv: &Server, topic: &str, from: u64, limit: u64) -> Result<(u64, Vec<SMsg>), Fail> {
    let v = srv.get(&format!("/api/stream/{}/messages?from={}&limit={}", enc(topic), from, limit))?;
    let last = v["last_seq"].as_u64().ok_or_else(|| Fail::v("http", format!("stream listing without last_seq: {}", v)))?;
    let mut out = vec![];
    for m in v["messages"].as_array().ok_or_else(|| Fail::v("http", "stream listing without messages".into()))? {
        let it = (|| Some(SMsg { seq: m["seq"].as_u64()?, ts: rfc3339_ms(m["timestamp"].as_str()?)?, payload: super::queue::raw_payload(&m["payload"])? }))();
        out.push(it.ok_or_else(|| Fail::v("http", format!("unexpected entry in the listing of stream {:?}: {}", topic, m)))?);
    }
    out.reverse();
    Ok((last, out))
}
/// Everything from `from` on, page by page.
pub fn read_all(srv: &Server, topic: &str, from: u64, page: u64) -> Result<(u64, Vec<SMsg>), Fail> {
    let mut out: Vec<SMsg> = vec![];
    let mut at = from;
    loop {
        let (last, v) = read(srv, topic, at, page)?;
        ensure!(v.len() as u64 <= page, "limit", "a read of {:?} with limit {} returned {} messages", topic, page, v.len());
        if v.is_empty() {
            ensure!(at.max(1) > last, "gap", "reading {:?} from position {} returns nothing although its last position is {}", topic, at, last);
            return Ok((last, out));
        }
        at = v.last().unwrap().seq + 1;
        out.extend(v);
        if at > last {
            return Ok((last, out));
        }
    }
}
pub type Groups = BTreeMap<String, (u64, u64)>;
/// (last position, group -> (floor, pending))
pub fn groups(srv: &Server, topic: &str) -> Result<(u64, Groups), Fail> {
    let v = srv.get("/api/stream")?;
    for t in v["topics"].as_array().ok_or_else(|| Fail::v("http", "no topics in /api/stream".into()))? {
        if t["name"].as_str() == Some(topic) {
            let mut g = BTreeMap::new();
            for x in t["groups"].as_array().unwrap_or(&vec![]) {
                g.insert(x["id"].as_str().unwrap_or("?").to_string(), (x["ack_floor"].as_u64().unwrap_or(u64::MAX), x["pending_count"].as_u64().unwrap_or(u64::MAX)));
            }
            return Ok((t["last_seq"].as_u64().unwrap_or(0), g));
        }
    }
    Err(Fail::v("listing", format!("stream {:?} is missing from the stream listing", topic)))
}
pub fn contiguous(topic: &str, what: &str, v: &[SMsg], from: u64) -> Result<(), Fail> {
    for (i, m) in v.iter().enumerate() {
        ensure!(m.seq == from + i as u64, "contiguity", "{} of {:?} from position {} returned position {} where {} was due", what, topic, from, m.seq, from + i as u64);
    }
    Ok(())
}

// ------------------------------------------------------------------ C11
struct PubRec {
    topic: usize,
    n: u64,
    seq: u64,
    call: u64,
    ret: u64,
    /// publishes of one chain do not overlap
    chain: u64,
}
#[derive(Default)]
struct Seen {
    /// (topic, seq) -> (number, ts, hash)
    m: HashMap<(usize, u64), (u64, u64, u64)>,
}
impl Seen {
    fn note(&mut self, bodies: &Mutex<HashMap<u64, (usize, u64)>>, t: usize, name: &str, m: &SMsg) -> Result<(), Fail> {
        let n = num(&m.payload).ok_or_else(|| Fail::v("content", format!("{:?} position {} holds bytes nobody published: {}", name, m.seq, preview(&m.payload))))?;
        let h = hash64(&m.payload);
        match bodies.lock().unwrap().get(&n) {
            Some(&(bt, bh)) => {
                ensure!(bt == t, "crosstalk", "{:?} position {} holds message {} which was published to another topic", name, m.seq, n);
                ensure!(bh == h, "content", "{:?} position {}: message {} comes back with other bytes ({})", name, m.seq, n, preview(&m.payload));
            }
            None => viol!("content", "{:?} position {} holds a message nobody published", name, m.seq),
        }
        match self.m.insert((t, m.seq), (n, m.ts, h)) {
            None => {}
            Some(old) => {
                ensure!(old.0 == n, "immutable", "{:?} position {} held message {} and now holds message {}", name, m.seq, old.0, n);
                ensure!(old.1 == m.ts, "timestamp", "{:?} position {}: timestamp {} became {}", name, m.seq, old.1, m.ts);
            }
        }
        Ok(())
    }
}

fn log_scn(ctx: &mut Ctx) -> Result<(), Fail> {
    let seg = *ctx.rng.pick(&[1u64, 120, 600, 3000, 20000, 1 << 30]);
    let ram = *ctx.rng.pick(&[0u64, 1, 4, 20, 100, 1000]);
    let files = *ctx.rng.pick(&[1u64, 2, 3, 256]);
    let cfg = Cfg::frozen().set("STREAM_MAX_SEGMENT_SIZE", seg).set("STREAM_RAM_SOFT_LIMIT", ram).set("STREAM_MAX_OPEN_FILES", files);
    ctx.t(format!("segment {} ram {} files {}", seg, ram, files));
    ctx.server(cfg, |ctx, srv| {
        let nt = ctx.rng.range(1, 4) as usize;
        let names: Vec<String> = (0..nt).map(|i| format!("log{}", i)).collect();
        let c0 = srv.conn()?;
        for t in &names {
            let o = *ctx.rng.pick(&["{}", "{\"retention\":{\"maxAgeMs\":0,\"maxBytes\":0}}"]);
            ensure!(c0.s_create(t, o)? == Resp::Ok, "reply", "create failed");
        }
        let us = clock();
        let uniq = AtomicU64::new(1);
        let chains = AtomicU64::new(1);
        let bodies: Mutex<HashMap<u64, (usize, u64)>> = Mutex::new(HashMap::new());
        let recs: Mutex<Vec<PubRec>> = Mutex::new(vec![]);
        let seen = Mutex::new(Seen::default());
        // highest position whose publish has been answered, per topic
        let done: Vec<AtomicU64> = (0..nt).map(|_| AtomicU64::new(0)).collect();
        let mut group_pos: HashMap<(usize, usize), u64> = HashMap::new();
        let phases = if ctx.thorough { ctx.rng.range(4, 12) } else { ctx.rng.range(3, 6) };
        let mut conns: Vec<Conn> = vec![];
        for phase in 0..phases {
            let np = ctx.rng.range(1, 5) as usize;
            let nr = ctx.rng.range(1, 3) as usize;
            let per = ctx.rng.range(10, 60);
            let big = *ctx.rng.pick(&[40usize, 400, 9000, 60000]);
            conns.clear();
            for _ in 0..np + nr {
                conns.push(srv.conn()?);
            }
            if ctx.rng.chance(700) {
                srv.ctl.preempt(ctx.rng.range(60, 500), ctx.rng.range(200, 3000));
            }
            if ctx.rng.chance(300) {
                srv.ctl.io_delay(200, 2000);
            }
            let publishing = AtomicU64::new(np as u64);
            let errs: Mutex<Vec<Fail>> = Mutex::new(vec![]);
            let gp: Mutex<Vec<((usize, usize), u64)>> = Mutex::new(vec![]);
            let mut rngs: Vec<Rng> = (0..np + nr + 1).map(|_| ctx.rng.fork()).collect();
            let srv_ref: &Server = srv;
            let rep = ctx.rep;
            std::thread::scope(|sc| {
                for k in 0..np + nr {
                    let c = conns[k].clone();
                    let mut r = rngs.remove(0);
                    let (names, uniq, chains, bodies, recs, done, publishing, errs, seen, gp, gpos) = (&names, &uniq, &chains, &bodies, &recs, &done, &publishing, &errs, &seen, &gp, &group_pos);
                    sc.spawn(move || {
                        let mut run = || -> Result<(), Fail> {
                            if k < np {
                                let chain = chains.fetch_add(1, SeqCst);
                                let mut i = 0;
                                while i < per {
                                    let t = r.below(names.len() as u64) as usize;
                                    let burst = if r.chance(250) { r.range(2, 12) } else { 1 };
                                    let mut out = vec![];
                                    for _ in 0..burst {
                                        let n = uniq.fetch_add(1, SeqCst);
                                        let p = body(&mut r, n, big);
                                        bodies.lock().unwrap().insert(n, (t, hash64(&p)));
                                        let call = us();
                                        let id = c.send(S_PUB, &W::new().s(&names[t]).raw(&p).0);
                                        out.push((n, call, id));
                                    }
                                    for (n, call, id) in out {
                                        let seq = as_seq(c.wait(id)?)?;
                                        let ret = us();
                                        done[t].fetch_max(seq, SeqCst);
                                        let ch = if burst == 1 { chain } else { chains.fetch_add(1, SeqCst) };
                                        recs.lock().unwrap().push(PubRec { topic: t, n, seq, call, ret, chain: ch });
                                    }
                                    i += burst;
                                }
                                return Ok(());
                            }
                            let rd = k - np;
                            // one reader uses a group of its own on every topic, the others read ranges
                            let mut joined: HashMap<usize, (Joined, u64)> = HashMap::new();
                            loop {
                                let last_round = publishing.load(SeqCst) == 0;
                                let t = r.below(names.len() as u64) as usize;
                                let name = &names[t];
                                if r.chance(500) {
                                    let hi = done[t].load(SeqCst);
                                    let from = match r.below(5) {
                                        0 => r.below(3),
                                        1 => (hi + 2).saturating_sub(r.below(6)),
                                        _ => r.below(hi + 2),
                                    };
                                    let lim = *r.pick(&[1u64, 2, 7, 50, 500]);
                                    let (_, v) = read(srv_ref, name, from, lim)?;
                                    let from1 = from.max(1);
                                    contiguous(name, "a read", &v, from1)?;
                                    ensure!(v.len() as u64 <= lim, "limit", "a read of {:?} with limit {} returned {} messages", name, lim, v.len());
                                    ensure!(!v.is_empty() || hi < from1, "missing", "reading {:?} from {} returned nothing although position {} had been published before the read", name, from, hi);
                                    rep.distinct(hash64(format!("{} {} {} {} {}", seg, ram, files, (hi as i64 - from as i64).clamp(-3, 400), v.len()).as_bytes()));
                                    for m in &v {
                                        seen.lock().unwrap().note(bodies, t, name, m)?;
                                    }
                                } else {
                                    let g = format!("g{}", rd);
                                    if !joined.contains_key(&t) {
                                        let j = c.s_join(name, &g)?;
                                        let pos = gpos.get(&(rd, t)).copied().unwrap_or(0);
                                        ensure!(j.floor == pos, "floor", "group {:?} of {:?} rejoined at floor {} though exactly 1..{} are acknowledged", g, name, j.floor, pos);
                                        joined.insert(t, (j, pos));
                                    }
                                    let (j, pos) = joined.get_mut(&t).unwrap();
                                    let hi = done[t].load(SeqCst);
                                    let lim = *r.pick(&[1u32, 3, 20, 200]);
                                    let v = match c.s_fetch(name, &g, j, lim, 0)? {
                                        Ok(v) => v,
                                        Err(e) => viol!("reply", "fetch by the only member answered error {:?}", e),
                                    };
                                    contiguous(name, "a fetch", &v, *pos + 1)?;
                                    ensure!(v.len() <= lim as usize, "limit", "a fetch with limit {} returned {} messages", lim, v.len());
                                    ensure!(!v.is_empty() || hi <= *pos, "missing", "fetching {:?} after {} returned nothing although position {} had been published before", name, pos, hi);
                                    for m in &v {
                                        seen.lock().unwrap().note(bodies, t, name, m)?;
                                        if let Err(e) = c.s_ack(name, &g, j, m.seq)? {
                                            viol!("ack", "ack of position {} by its holder failed: {}", m.seq, e);
                                        }
                                        *pos = m.seq;
                                    }
                                }
                                rep.eval(1);
                                rep.count("reads_judged", 1);
                                if last_round {
                                    for (t, (j, pos)) in joined {
                                        gp.lock().unwrap().push(((rd, t), pos));
                                        let _ = c.s_leave(&names[t], &format!("g{}", rd), &j)?;
                                    }
                                    return Ok(());
                                }
                            }
                        };
                        if let Err(e) = run() {
                            errs.lock().unwrap().push(e);
                        }
                        if k < np {
                            publishing.fetch_sub(1, SeqCst);
                        }
                    });
                }
                // virtual time moves: flushes and evictions happen underneath
                let mut r = rngs.remove(0);
                let publishing = &publishing;
                sc.spawn(move || {
                    while publishing.load(SeqCst) > 0 {
                        srv_ref.adv(*r.pick(&[15u64, 60, 510, 700]));
                        std::thread::sleep(Duration::from_millis(r.range(1, 12)));
                    }
                });
            });
            if let Some(e) = errs.into_inner().unwrap().into_iter().next() {
                return Err(e);
            }
            for (k, p) in gp.into_inner().unwrap() {
                group_pos.insert(k, p);
            }
            for c in &conns {
                c.check()?;
            }
            srv.ctl.calm();
            // numbering
            {
                let mut rs = recs.lock().unwrap();
                rs.sort_by_key(|r| r.call);
                for t in 0..nt {
                    let mut by_seq: BTreeMap<u64, &PubRec> = BTreeMap::new();
                    let mut chain: HashMap<u64, u64> = HashMap::new();
                    let mut ends: Vec<(u64, u64)> = vec![];
                    for r in rs.iter().filter(|r| r.topic == t) {
                        if let Some(o) = by_seq.insert(r.seq, r) {
                            viol!("numbering", "messages {} and {} of {:?} were both given position {}", o.n, r.n, names[t], r.seq);
                        }
                        if let Some(p) = chain.insert(r.chain, r.seq) {
                            ensure!(p < r.seq, "order", "a publisher of {:?} got position {} after position {}", names[t], r.seq, p);
                        }
                        ends.push((r.ret, r.seq));
                    }
                    for (i, s) in by_seq.keys().enumerate() {
                        ensure!(*s == i as u64 + 1, "numbering", "{:?}: positions of the answered publishes have a gap: {} follows {}", names[t], s, i);
                    }
                    // real time: no publish that returned before another was sent has the larger number
                    ends.sort();
                    let mut i = 0;
                    let mut top = 0;
                    for r in rs.iter().filter(|r| r.topic == t) {
                        while i < ends.len() && ends[i].0 < r.call {
                            top = top.max(ends[i].1);
                            i += 1;
                        }
                        ensure!(top < r.seq, "realtime", "{:?}: a publish sent after position {} had been answered got position {}", names[t], top, r.seq);
                    }
                    ctx.rep.eval(by_seq.len() as u64);
                    let sn = seen.lock().unwrap();
                    for (s, r) in &by_seq {
                        if let Some(x) = sn.m.get(&(t, *s)) {
                            ensure!(x.0 == r.n, "content", "{:?}: position {} was given to message {} but reads as message {}", names[t], s, r.n, x.0);
                        }
                    }
                }
            }
            let how = ctx.rng.below(4);
            if how > 0 {
                srv.flushed(50)?;
                if how > 1 {
                    srv.adv(600);
                    srv.quiet();
                }
                if how > 2 {
                    // group positions too
                    srv.flushed(500)?;
                    srv.restart()?;
                    ctx.rep.count("restarts", 1);
                }
            }
            let n_by_topic: Vec<u64> = (0..nt).map(|t| done[t].load(SeqCst)).collect();
            for t in 0..nt {
                let n = n_by_topic[t];
                let page = *ctx.rng.pick(&[1u64, 3, 10, 97, 500]);
                let from = if ctx.rng.chance(500) { 0 } else { ctx.rng.range(1, n + 1) };
                let (last, v) = read_all(srv, &names[t], from, if n > 200 { page.max(10) } else { page })?;
                ensure!(last == n, "last", "{:?} reports last position {} after {} publishes (phase {})", names[t], last, n, phase);
                contiguous(&names[t], "a full read", &v, from.max(1))?;
                ensure!(v.len() as u64 == n + 1 - from.max(1), "missing", "a full read of {:?} from {} returned {} of {} messages", names[t], from, v.len(), n + 1 - from.max(1));
                let want: HashMap<u64, u64> = recs.lock().unwrap().iter().filter(|r| r.topic == t).map(|r| (r.seq, r.n)).collect();
                for m in &v {
                    seen.lock().unwrap().note(&bodies, t, &names[t], m)?;
                    ensure!(want.get(&m.seq).copied() == num(&m.payload), "content", "{:?}: position {} was given to message {:?} but reads as {:?}", names[t], m.seq, want.get(&m.seq), num(&m.payload));
                }
                ctx.rep.eval(v.len() as u64);
                ctx.rep.count("messages_read_back", v.len() as u64);
                ctx.rep.sample(json!({"topic": names[t], "segment_size": seg, "ram": ram, "files": files, "messages": n, "page": page, "restarted": how == 3}));
            }
        }
        Ok(())
    })
}
