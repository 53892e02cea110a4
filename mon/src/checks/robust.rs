//! C16: every request is answered exactly once, whatever the bytes.
use crate::client::*;
use crate::proto::*;
use crate::report::{Fail, Report};
use crate::rng::{hash64, Rng};
use crate::run::{Ctx, Spec};
use crate::server::{Cfg, Server};
use crate::{ensure, viol};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn spec() -> Spec {
    Spec {
        scenarios: vec![("frames", 3, frames), ("values", 2, values), ("flood", 1, flood), ("many", 1, many)],
        par: 3,
        quick_s: 50,
        thorough_s: 400,
        level: "exploration",
        rule: "(frames) Fuzzing connections send batches of valid, mutated and random frames (all opcodes and frame types, arbitrary and repeated ids, hostile numbers and names), cut into arbitrary fragments; every id must be answered exactly as often as it was sent, echoes with their bytes, frames that a reference parser finds malformed with an error; a frame declared larger than the limit ends only its own connection, one of exactly the limit is answered. Witness connections run exact store, queue, stream and pub/sub traffic meanwhile and must see nothing. (values) Hostile but well-formed argument values with their exact meaning in virtual time and across restarts, topics with up to a million levels. (flood) Clients that never read while they are flooded or flood; the others must be served. (many) One connection with hundreds of waiting requests outstanding and more behind them: each is answered once when its message, its deadline or its turn comes. A panic or the end of the server process is a violation. One evaluation = one answered frame or call; distinct by opcode, class of mutation and kind of answer.",
        assumptions: vec!["requests still unanswered when their connection ends are not owed an answer", "a wait longer than 200 ms may stay unanswered for the duration of the check"],
    }
}

#[derive(Default)]
struct RawSt {
    resp: HashMap<u32, Vec<(u8, Vec<u8>)>>,
    n: usize,
    bad: Option<String>,
    closed: bool,
}
/// A connection without any bookkeeping of its own.
struct Raw {
    s: TcpStream,
    st: Arc<Mutex<RawSt>>,
}
impl Raw {
    fn open(port: u16) -> Result<Raw, Fail> {
        let s = TcpStream::connect(("127.0.0.1", port)).map_err(|e| Fail::Suspect(format!("cannot connect: {}", e)))?;
        s.set_nodelay(true).ok();
        let st = Arc::new(Mutex::new(RawSt::default()));
        let (st2, mut rd) = (st.clone(), s.try_clone().unwrap());
        std::thread::Builder::new()
            .stack_size(256 << 10)
            .spawn(move || {
                let mut buf: Vec<u8> = vec![];
                let mut tmp = vec![0u8; 65536];
                loop {
                    match rd.read(&mut tmp) {
                        Ok(0) | Err(_) => break,
                        Ok(n) => buf.extend_from_slice(&tmp[..n]),
                    }
                    let mut off = 0;
                    let mut st = st2.lock().unwrap();
                    while buf.len() - off >= 10 {
                        let h = &buf[off..off + 10];
                        let len = u32::from_be_bytes(h[6..10].try_into().unwrap()) as usize;
                        if buf.len() - off < 10 + len {
                            break;
                        }
                        let id = u32::from_be_bytes(h[2..6].try_into().unwrap());
                        let body = buf[off + 10..off + 10 + len].to_vec();
                        match h[0] {
                            2 if h[1] <= 3 => {
                                st.n += 1;
                                st.resp.entry(id).or_default().push((h[1], body));
                            }
                            3 => {}
                            t => {
                                st.bad.get_or_insert(format!("frame of type {} status {} from the server", t, h[1]));
                            }
                        }
                        off += 10 + len;
                    }
                    buf.drain(..off);
                }
                st2.lock().unwrap().closed = true;
            })
            .map_err(|e| Fail::Inconclusive(format!("thread: {}", e)))?;
        Ok(Raw { s, st })
    }
    fn write(&self, b: &[u8]) -> bool {
        (&self.s).write_all(b).is_ok()
    }
    fn closed(&self) -> bool {
        self.st.lock().unwrap().closed
    }
}
impl Drop for Raw {
    fn drop(&mut self) {
        let _ = self.s.shutdown(Shutdown::Both);
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Exp {
    Echo(Vec<u8>),
    Error,
    Any,
    /// may wait for longer than this check
    Maybe,
}

/// What the protocol definition says about a request payload.
fn reference(ftype: u8, op: u8, p: &[u8]) -> Exp {
    if ftype != 1 {
        return Exp::Error;
    }
    let mut r = R(p);
    let mut wait = 0u64;
    let ok = (|| -> Option<()> {
        let str = |r: &mut R| -> Option<String> { r.blob().and_then(|b| std::str::from_utf8(b).ok().map(|s| s.to_string())) };
        let js = |r: &mut R| -> Option<Value> { str(r).and_then(|s| serde_json::from_str(&s).ok()) };
        match op {
            ECHO => {}
            SET | Q_CREATE | Q_PUSH | PUB | S_CREATE => {
                str(&mut r)?;
                js(&mut r)?;
            }
            Q_CONSUME => {
                str(&mut r)?;
                let v = js(&mut r)?;
                wait = match &v {
                    Value::Object(o) => o.get("waitMs").and_then(|w| w.as_u64()).unwrap_or(0),
                    Value::Array(a) => a.get(1).and_then(|w| w.as_u64()).unwrap_or(0),
                    _ => 0,
                };
            }
            GET | DEL | Q_EXISTS | Q_DELETE | Q_PURGE | SUB | UNSUB | S_EXISTS | S_DELETE | S_PUB => {
                str(&mut r)?;
            }
            Q_ACK => {
                r.id()?;
                str(&mut r)?;
            }
            Q_NACK => {
                r.id()?;
                str(&mut r)?;
                str(&mut r)?;
            }
            Q_PEEK_DLQ => {
                str(&mut r)?;
                r.u64()?;
            }
            Q_MOVE | Q_DEL_DLQ => {
                str(&mut r)?;
                r.id()?;
            }
            S_FETCH => {
                str(&mut r)?;
                str(&mut r)?;
                str(&mut r)?;
                r.u64()?;
                r.u32()?;
                wait = r.u32()? as u64;
            }
            S_JOIN => {
                str(&mut r)?;
                str(&mut r)?;
            }
            S_ACK => {
                str(&mut r)?;
                str(&mut r)?;
                str(&mut r)?;
                r.u64()?;
                r.u64()?;
            }
            S_SEEK => {
                str(&mut r)?;
                str(&mut r)?;
                if r.take(1)?[0] > 1 {
                    return None;
                }
            }
            S_LEAVE => {
                str(&mut r)?;
                str(&mut r)?;
                str(&mut r)?;
                r.u64()?;
            }
            _ => return None,
        }
        Some(())
    })();
    match ok {
        None => Exp::Error,
        Some(()) if op == ECHO => Exp::Echo(p.to_vec()),
        Some(()) if wait > 200 => Exp::Maybe,
        Some(()) => Exp::Any,
    }
}

const OPS: [u8; 27] = [
    ECHO, SET, GET, DEL, Q_CREATE, Q_PUSH, Q_CONSUME, Q_ACK, Q_EXISTS, Q_DELETE, Q_PEEK_DLQ, Q_MOVE, Q_DEL_DLQ, Q_PURGE, Q_NACK, PUB, SUB, UNSUB, S_CREATE, S_PUB, S_FETCH, S_JOIN, S_ACK, S_EXISTS, S_DELETE, S_SEEK, S_LEAVE,
];

fn hostile_u64(r: &mut Rng) -> u64 {
    match r.below(7) {
        0 => 0,
        1 => u64::MAX,
        2 => i64::MAX as u64,
        3 => u32::MAX as u64,
        4 => 1 << r.below(64),
        5 => r.next(),
        _ => r.below(10),
    }
}
fn name(r: &mut Rng, kind: &str) -> String {
    match r.below(20) {
        0 => "".into(),
        1 => format!("{}\u{e9}\u{4e2d} {}", kind, r.below(3)),
        2 => format!("{}-none", kind),
        3 => "x".repeat(r.range(1, 300) as usize),
        _ => format!("fz-{}{}", kind, r.below(4)),
    }
}
/// A well-formed request with arbitrary arguments.
fn gen_request(r: &mut Rng, cids: &[(String, u64)], ids: &[Id]) -> (u8, Vec<u8>) {
    let op = *r.pick(&OPS);
    let (cid, gen) = if cids.is_empty() || r.chance(200) { ("nobody".to_string(), hostile_u64(r)) } else { r.pick(cids).clone() };
    let id: Id = if ids.is_empty() || r.chance(300) { r.bytes(16).try_into().unwrap() } else { *r.pick(ids) };
    let st = name(r, "s");
    let q = name(r, "q");
    let g = format!("g{}", r.below(2));
    let sz = if r.chance(30) { r.range(1000, 60_000) } else { r.below(60) } as usize;
    let body = r.bytes(sz);
    let w = W::new();
    let p = match op {
        ECHO => w.raw(&body),
        SET => {
            let o = match r.below(4) {
                0 => "{}".to_string(),
                1 => format!("{{\"ttl\":{}}}", hostile_u64(r)),
                2 => "{\"ttl\":null}".into(),
                _ => format!("{{\"ttl\":{},\"x\":[1]}}", r.below(100)),
            };
            w.s(&name(r, "k")).s(&o).raw(&body)
        }
        GET | DEL => w.s(&name(r, "k")),
        Q_CREATE => w.s(&q).s(&match r.below(3) {
            0 => "{}".to_string(),
            1 => format!("{{\"visibilityTimeoutMs\":{},\"maxRetries\":{}}}", hostile_u64(r), r.next() as u32),
            _ => "{\"maxRetries\":0}".into(),
        }),
        Q_PUSH => return (op, enc_push(&q, Some(r.next() as u8), &body)),
        Q_CONSUME => {
            let b = if r.chance(300) { None } else { Some(hostile_u64(r)) };
            let wt = match r.below(10) {
                0 => hostile_u64(r),
                1 | 2 => r.below(60),
                _ => 0,
            };
            return (op, enc_consume(&q, b, Some(wt)));
        }
        Q_ACK => w.raw(&id).s(&q),
        Q_NACK => w.raw(&id).s(&q).s(&"r".repeat(sz)),
        Q_EXISTS | Q_PURGE => w.s(&q),
        Q_DELETE => w.s(&q),
        Q_PEEK_DLQ => w.s(&q).u32(hostile_u64(r) as u32).u32(hostile_u64(r) as u32),
        Q_MOVE | Q_DEL_DLQ => w.s(&q).raw(&id),
        PUB => {
            let t = if r.chance(50) { "a/".repeat(r.range(1, 60) as usize) } else { format!("fz/{}/{}", r.below(3), r.below(3)) };
            let o = match r.below(3) {
                0 => "{}".to_string(),
                1 => format!("{{\"retain\":true,\"ttl\":{}}}", hostile_u64(r)),
                _ => "{\"retain\":true,\"ttl\":null}".into(),
            };
            w.s(&t).s(&o).raw(&body)
        }
        SUB | UNSUB => {
            let t = match r.below(6) {
                0 => "fz/#".to_string(),
                1 => "fz/+/1".into(),
                2 => "".into(),
                3 => "#/x/+".into(),
                4 => "+/".repeat(r.range(1, 40) as usize),
                _ => format!("fz/{}/{}", r.below(3), r.below(3)),
            };
            w.s(&t)
        }
        S_CREATE => w.s(&st).s(&match r.below(3) {
            0 => "{}".to_string(),
            1 => format!("{{\"retention\":{{\"maxBytes\":{},\"maxAgeMs\":{}}}}}", hostile_u64(r), hostile_u64(r)),
            _ => "{\"retention\":null}".into(),
        }),
        S_PUB => w.s(&st).raw(&body),
        S_FETCH => {
            let wt = match r.below(10) {
                0 => hostile_u64(r) as u32,
                1 | 2 => r.below(60) as u32,
                _ => 0,
            };
            w.s(&st).s(&g).s(&cid).u64(gen).u32(hostile_u64(r) as u32).u32(wt)
        }
        S_JOIN => w.s(&g).s(&st),
        S_ACK => w.s(&st).s(&g).s(&cid).u64(gen).u64(hostile_u64(r)),
        S_EXISTS => w.s(&st),
        S_DELETE => w.s(&st),
        S_SEEK => w.s(&st).s(&g).u8(r.below(3) as u8),
        _ => w.s(&st).s(&g).s(&cid).u64(gen),
    };
    (op, p.0)
}

fn fuzz_conn(r: &mut Rng, srv: &Server, max: usize, patience: Duration, stop: &AtomicBool, rep: &Report) -> Result<(), Fail> {
    let c = Raw::open(srv.tcp)?;
    // something to refer to
    let mut cids: Vec<(String, u64)> = vec![];
    let mut sent: HashMap<u32, Vec<(Exp, u8, &'static str)>> = HashMap::new();
    let mut total = 0usize;
    let mut ids: Vec<Id> = vec![];
    for _batch in 0..r.range(1, 4) {
        let mut bytes: Vec<u8> = vec![];
        let mut n = r.range(1, 120);
        if bytes.is_empty() && r.chance(60) {
            n = 1;
        }
        for _ in 0..n {
            let (op, mut p) = gen_request(r, &cids, &ids);
            let mut ftype = 1u8;
            let mut op = op;
            let class = match r.below(14) {
                0 => {
                    let k = r.below(p.len() as u64 + 1) as usize;
                    p.truncate(k);
                    "truncated"
                }
                1 if !p.is_empty() => {
                    for _ in 0..r.range(1, 8) {
                        let i = r.below(p.len() as u64) as usize;
                        p[i] ^= 1 << r.below(8);
                    }
                    "flipped"
                }
                2 if p.len() >= 4 => {
                    p[..4].copy_from_slice(&(hostile_u64(r) as u32).to_be_bytes());
                    "length"
                }
                3 => {
                    op = r.next() as u8;
                    p = {
                        let n = r.below(40) as usize;
                        r.bytes(n)
                    };
                    "random"
                }
                4 => {
                    ftype = r.next() as u8;
                    "frametype"
                }
                5 => {
                    op = *r.pick(&[1, 5, 0x0f, 0x1b, 0x1f, 0x20, 0x24, 0x2f, 0x37, 0x3a, 0x3f, 0x40, 0x80, 0xff]);
                    "opcode"
                }
                6 => {
                    let o = match r.below(6) {
                        0 => "".to_string(),
                        1 => "{".into(),
                        2 => "[".repeat(100_000.min(max / 2)),
                        3 => "{\"batchSize\":-1,\"waitMs\":\"x\",\"ttl\":-1}".into(),
                        4 => "nul".into(),
                        _ => "\u{0}".into(),
                    };
                    op = *r.pick(&[SET, Q_CREATE, Q_PUSH, Q_CONSUME, PUB, S_CREATE]);
                    p = W::new().s("fz-json").s(&o).0;
                    "json"
                }
                7 => {
                    p.extend_from_slice(&[0xff; 9]);
                    "trailing"
                }
                8 if r.chance(60) => {
                    op = ECHO;
                    p = r.bytes(max);
                    "maximal"
                }
                _ => "valid",
            };
            if p.len() > max {
                continue;
            }
            let id = match r.below(12) {
                0 => 0,
                1 => u32::MAX,
                2 => 7,
                3 => 0x8000_0000,
                _ => r.next() as u32,
            };
            sent.entry(id).or_default().push((reference(ftype, op, &p), op, class));
            total += 1;
            bytes.extend_from_slice(&frame(ftype, op, id, &p));
        }
        // fragments
        let mode = r.below(5);
        let mut off = 0;
        while off < bytes.len() {
            let k = match mode {
                0 => bytes.len(),
                1 => 1 + r.below(3) as usize,
                2 => 1 + r.below(11) as usize,
                3 => 1 + r.below(3000) as usize,
                _ => 1 + r.below(40_000) as usize,
            };
            let k = if off > 4000 && mode <= 2 { k + 1500 } else { k };
            let e = (off + k).min(bytes.len());
            if !c.write(&bytes[off..e]) {
                return Err(Fail::Suspect("the server closed a connection that had sent well-formed frames".into()));
            }
            if r.chance(100) {
                std::thread::sleep(Duration::from_micros(r.below(400)));
            }
            off = e;
        }
        // answers
        let need: usize = sent.values().flatten().filter(|x| x.0 != Exp::Maybe).count();
        let end = Instant::now() + patience;
        loop {
            {
                let st = c.st.lock().unwrap();
                if let Some(b) = &st.bad {
                    viol!("protocol", "{}", b);
                }
                let have: usize = sent.iter().map(|(id, v)| st.resp.get(id).map_or(0, |x| x.len()).min(v.len())).sum();
                let certain: usize = sent.iter().map(|(id, v)| st.resp.get(id).map_or(0, |x| x.len()).min(v.iter().filter(|x| x.0 != Exp::Maybe).count())).sum();
                if have >= need && certain >= need {
                    break;
                }
                if st.closed {
                    viol!("closed", "the server closed a connection that had sent only complete frames within the limit ({} of {} answered)", st.n, total);
                }
                if Instant::now() > end {
                    let missing: Vec<String> = sent
                        .iter()
                        .filter(|(id, v)| st.resp.get(id).map_or(0, |x| x.len()) < v.iter().filter(|x| x.0 != Exp::Maybe).count())
                        .map(|(id, v)| format!("id {} {:?}", id, v.iter().map(|x| (format!("0x{:02x}", x.1), x.2)).collect::<Vec<_>>()))
                        .take(4)
                        .collect();
                    let text = format!("{} of {} frames are unanswered: {}", need - certain, total, missing.join(", "));
                    drop(st);
                    // Slow, or hanging? With all other traffic stopped, a server that means to answer has something to run.
                    stop.store(true, SeqCst);
                    srv.ctl.calm();
                    let n = c.st.lock().unwrap().n;
                    let t0 = Instant::now();
                    let (mut samples, mut asleep) = (0, 0);
                    while t0.elapsed() < Duration::from_secs(20) {
                        std::thread::sleep(Duration::from_millis(20));
                        samples += 1;
                        asleep += srv.asleep() as u32;
                        if c.st.lock().unwrap().n != n {
                            return Err(Fail::Suspect(text));
                        }
                    }
                    if asleep * 100 >= samples * 95 {
                        viol!("hang", "{} - and for 20 s the server had nothing to run", text);
                    }
                    return Err(Fail::Suspect(text));
                }
            }
            std::thread::sleep(Duration::from_micros(300));
        }
        // references for the next batch
        let st = c.st.lock().unwrap();
        for (id, v) in &sent {
            for (s, b) in st.resp.get(id).map(|x| &x[..]).unwrap_or(&[]) {
                if *s == 3 && v.len() == 1 {
                    match v[0].1 {
                        S_JOIN => {
                            if let Some(j) = dec_join(b) {
                                cids.push((j.cid, j.gen));
                            }
                        }
                        Q_CONSUME => {
                            for m in dec_consume(b).unwrap_or_default() {
                                ids.push(m.id);
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    if r.chance(500) {
        std::thread::sleep(Duration::from_millis(15));
    }
    // judgement
    let check = || -> Result<(), Fail> {
        let st = c.st.lock().unwrap();
        for (id, v) in &sent {
            let got = st.resp.get(id).cloned().unwrap_or_default();
            ensure!(got.len() <= v.len(), "multiple", "id {} was sent {} time(s) and answered {} times ({:?})", id, v.len(), got.len(), v.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>());
            for (s, b) in &got {
                ensure!(*s != 1 || { let mut r = R(b); r.blob().is_some() && r.0.is_empty() }, "protocol", "malformed error answer to id {}", id);
                ensure!(*s == 1 || *s == 3 || b.is_empty(), "protocol", "answer with status {} and a body to id {}", s, id);
            }
            if got.len() < v.len() && v.iter().any(|x| x.0 == Exp::Maybe) {
                continue; // a frame that may wait shares this id: the missing answer may be any of them
            }
            // echoes sent under this id must be answered with their bytes
            let mut pool = got.clone();
            for (e, _, _) in v {
                if let Exp::Echo(p) = e {
                    match pool.iter().position(|x| x.0 == 3 && x.1 == *p) {
                        Some(i) => {
                            pool.swap_remove(i);
                        }
                        None => viol!("mixed", "an echo of {} bytes under id {} was answered with {:?}", p.len(), id, got.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>()),
                    }
                }
            }
            let errs = v.iter().filter(|x| x.0 == Exp::Error).count();
            let got_errs = pool.iter().filter(|x| x.0 == 1).count();
            ensure!(got_errs >= errs, "accepted", "{} malformed frame(s) under id {} ({:?}) were answered with only {} error(s): {:?}", errs, id, v.iter().map(|x| (format!("0x{:02x}", x.1), x.2)).collect::<Vec<_>>(), got_errs, got.iter().map(|x| (x.0, preview(&x.1))).collect::<Vec<_>>());
            for ((_, op, class), (s, _)) in v.iter().zip(got.iter()) {
                rep.distinct(hash64(format!("{} {} {} {}", op, class, s, v.len().min(3)).as_bytes()));
            }
        }
        for id in st.resp.keys() {
            ensure!(sent.contains_key(id), "unsolicited", "an answer with id {} which was never sent", id);
        }
        Ok(())
    };
    check()?;
    rep.eval(total as u64);
    if r.chance(350) {
        // a frame beyond the limit ends this connection
        let len = *r.pick(&[max as u32 + 1, u32::MAX, 0x7fff_ffff, max as u32 * 2]);
        let mut f = vec![1u8, *r.pick(&OPS), 1, 2, 3, 4];
        f.extend_from_slice(&len.to_be_bytes());
        if r.chance(500) {
            f.extend_from_slice(&r.bytes(200));
        }
        c.write(&f);
        let end = Instant::now() + patience;
        while !c.closed() {
            if Instant::now() > end {
                return Err(Fail::Suspect(format!("a connection that declared a frame of {} bytes (limit {}) stays open", len, max)));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
        rep.count("oversized_frames", 1);
        check()?;
    }
    Ok(())
}

/// Exact traffic that must not notice anything.
fn witness(r: &mut Rng, srv: &Server, tag: u64, stop: &AtomicBool, rep: &Report) -> Result<(), Fail> {
    let c = srv.conn()?;
    let d = srv.conn()?;
    let (q, s, k, t) = (format!("witness-q{}", tag), format!("witness-s{}", tag), format!("witness-k{}", tag), format!("witness/{}", tag));
    ensure!(c.q_create(&q, "{\"visibilityTimeoutMs\":100000000}")? == Resp::Ok, "witness", "create failed");
    ensure!(c.s_create(&s, "{}")? == Resp::Ok, "witness", "create failed");
    let j = d.s_join(&s, "g")?;
    d.subscribe(&t)?;
    let mut n = 0u64;
    let mut worst = Duration::ZERO;
    while !stop.load(SeqCst) {
        n += 1;
        let sz = r.below(400) as usize;
        let b = [&n.to_be_bytes()[..], &r.bytes(sz)].concat();
        let t0 = Instant::now();
        c.must_ok(SET, &W::new().s(&k).s("{}").raw(&b).0)?;
        ensure!(d.call(GET, &W::new().s(&k).0)? == Resp::Data(b.clone()), "witness", "a key read back differs");
        c.must_ok(Q_PUSH, &enc_push(&q, Some(3), &b))?;
        let v = d.q_consume(&q, Some(5), Some(0))?;
        ensure!(v.len() == 1 && v[0].payload == b, "witness", "a queue returned {} message(s) instead of the one pushed", v.len());
        ensure!(d.q_ack(&q, &v[0].id)?, "witness", "ack failed");
        let seq = c.s_pub(&s, &b)?;
        ensure!(seq == n, "witness", "position {} instead of {}", seq, n);
        match d.s_fetch(&s, "g", &j, 5, 0)? {
            Ok(v) if v.len() == 1 && v[0].payload == b && v[0].seq == n => {}
            x => viol!("witness", "a fetch returned {:?}", x.map(|v| v.len())),
        }
        ensure!(d.s_ack(&s, "g", &j, n)?.is_ok(), "witness", "stream ack failed");
        c.publish(&t, "{}", &b)?;
        match d.wait_push(c.patience) {
            Some(p) if p.topic == t && p.payload == b => {}
            Some(p) => viol!("witness", "a subscriber was pushed topic {:?} ({} bytes)", p.topic, p.payload.len()),
            None => return Err(Fail::Suspect("a published message did not arrive".into())),
        }
        worst = worst.max(t0.elapsed());
        rep.eval(9);
    }
    c.check()?;
    d.check()?;
    rep.count("witness_rounds", n);
    rep.max("slowest_witness_round_ms", worst.as_millis() as u64);
    Ok(())
}

fn frames(ctx: &mut Ctx) -> Result<(), Fail> {
    let max = *ctx.rng.pick(&[10_485_760usize, 70_000, 300_000]);
    let cfg = Cfg::real().set("MAX_PAYLOAD_SIZE", max).set("CHANNEL_CAPACITY_SOCKET_WRITE", *ctx.rng.pick(&[1024u64, 1, 4]));
    let secs = if ctx.thorough { 12 } else { 5 };
    ctx.server(cfg, |ctx, srv| {
        if ctx.rng.chance(400) {
            srv.ctl.preempt(ctx.rng.range(50, 500), ctx.rng.range(50, 500));
        }
        let stop = AtomicBool::new(false);
        let errs: Mutex<Vec<Fail>> = Mutex::new(vec![]);
        let end = Instant::now() + Duration::from_secs(secs);
        let rngs: Vec<Rng> = (0..5).map(|_| ctx.rng.fork()).collect();
        let (rep, patience) = (ctx.rep, ctx.patience);
        let srv_ref: &Server = srv;
        std::thread::scope(|sc| {
            let (stop, errs) = (&stop, &errs);
            let mut ws = vec![];
            let mut fs = vec![];
            for (i, mut r) in rngs.into_iter().enumerate() {
                if i < 2 {
                    ws.push(sc.spawn(move || {
                        if let Err(e) = witness(&mut r, srv_ref, i as u64, stop, rep) {
                            errs.lock().unwrap().push(e);
                        }
                    }));
                } else {
                    fs.push(sc.spawn(move || {
                        while Instant::now() < end && !stop.load(SeqCst) && errs.lock().unwrap().is_empty() {
                            if let Err(e) = fuzz_conn(&mut r, srv_ref, max, patience, stop, rep) {
                                errs.lock().unwrap().push(e);
                            }
                            rep.count("fuzz_connections", 1);
                        }
                    }));
                }
            }
            for f in fs {
                let _ = f.join();
            }
            stop.store(true, SeqCst);
            for w in ws {
                let _ = w.join();
            }
        });
        if let Some(e) = errs.into_inner().unwrap().into_iter().min_by_key(|e| !matches!(e, Fail::Violation(..))) {
            return Err(e);
        }
        // the dashboard and a new connection work
        for p in ["/api/queue", "/api/stream", "/api/pubsub", "/api/store"] {
            srv.get(p)?;
        }
        let c = srv.conn()?;
        ensure!(c.echo(b"end")? == Resp::Data(b"end".to_vec()), "reply", "echo failed");
        ctx.rep.sample(json!({"scenario": "frames", "max_payload": max}));
        Ok(())
    })
}

fn values(ctx: &mut Ctx) -> Result<(), Fail> {
    ctx.server(Cfg::frozen(), |ctx, srv| {
        let c = srv.conn()?;
        let rep = ctx.rep;
        let n = ctx.rng.below(1000);
        // queues: visibility timeouts up to the largest number
        let vts = [0u64, 1, 1000, u32::MAX as u64, 1 << 53, i64::MAX as u64, u64::MAX - 1, u64::MAX];
        let mrs = [0u64, 1, 3, u32::MAX as u64];
        let mut held: Vec<(String, u64, Id)> = vec![];
        for _ in 0..6 {
            let (vt, mr) = (*ctx.rng.pick(&vts), *ctx.rng.pick(&mrs));
            let q = format!("v{}-{}-{}", vt, mr, n);
            ensure!(c.q_create(&q, &format!("{{\"visibilityTimeoutMs\":{},\"maxRetries\":{}}}", vt, mr))? == Resp::Ok, "reply", "creating a queue with visibility timeout {} failed", vt);
            if held.iter().any(|h| h.0 == q) {
                continue;
            }
            c.must_ok(Q_PUSH, &enc_push(&q, Some(255), b"m"))?;
            let b = *ctx.rng.pick(&[1u64, 2, 1 << 20, 1 << 32, 1 << 40, 1 << 47, 1 << 60, i64::MAX as u64, u64::MAX]);
            let v = c.q_consume(&q, Some(b), Some(*ctx.rng.pick(&[0, 1, u32::MAX as u64, u64::MAX])))?;
            ensure!(v.len() == 1 && v[0].payload == b"m", "consume", "consuming with batch size {} returned {} messages", b, v.len());
            rep.eval(3);
            rep.distinct(hash64(format!("v {} {} {}", vt, mr, b).as_bytes()));
            if vt > 0 {
                held.push((q, vt, v[0].id));
            }
        }
        ensure!(c.q_consume(&held.first().map(|h| h.0.clone()).unwrap_or_default(), Some(0), Some(0)).map(|v| v.is_empty()).unwrap_or(true), "consume", "a batch of size 0 is not empty");
        srv.adv(150);
        srv.settle();
        srv.flushed(1000)?;
        let now = srv.ctl.virtual_ms();
        let reboot = ctx.rng.chance(600);
        let c = if reboot {
            srv.restart()?;
            srv.quiet();
            srv.conn()?
        } else {
            c
        };
        for (q, vt, id) in &held {
            let v = c.q_consume(q, Some(10), Some(0))?;
            if *vt > now + 1_000_000 {
                ensure!(v.is_empty(), "early", "a message with visibility timeout {} ms was delivered again after {} ms{}", vt, now, if reboot { " and a restart" } else { "" });
                ensure!(c.q_ack(q, id)?, "lost", "a message held with visibility timeout {} ms cannot be acknowledged{}", vt, if reboot { " after a restart" } else { "" });
            }
            rep.eval(1);
        }
        // pages of the dead-letter queue, priorities
        ensure!(c.q_create("pages", "{\"maxRetries\":0}")? == Resp::Ok, "reply", "create failed");
        for i in 0..3u8 {
            c.must_ok(Q_PUSH, &enc_push("pages", None, &[i]))?;
            let v = c.q_consume("pages", Some(1), Some(0))?;
            ensure!(v.len() == 1 && c.q_nack("pages", &v[0].id, "r")?, "nack", "nack failed");
        }
        for (l, o, want) in [(u32::MAX, 0, 3), (u32::MAX, 1, 2), (0, 0, 0), (1, u32::MAX, 0), (u32::MAX, u32::MAX, 0), (2, 2, 1)] {
            let (t, v) = c.q_dlq("pages", l, o)?;
            ensure!(t == 3 && v.len() == want, "pages", "a dead-letter page (limit {}, offset {}) holds {} of {} messages", l, o, v.len(), t);
            rep.eval(1);
        }
        for bad in ["{\"priority\":256}", "{\"priority\":-1}", "{\"priority\":1.5}", "{\"prio\":1}"] {
            ensure!(c.call(Q_PUSH, &W::new().s("pages").s(bad).raw(b"x").0)?.is_err(), "accepted", "push with options {} was accepted", bad);
        }
        // streams
        let ret = *ctx.rng.pick(&["{\"retention\":{\"maxBytes\":18446744073709551615,\"maxAgeMs\":18446744073709551615}}", "{\"retention\":{\"maxAgeMs\":9223372036854775807}}", "{}"]);
        ensure!(c.s_create("sv", ret)? == Resp::Ok, "reply", "create failed");
        for i in 0..4u8 {
            c.s_pub("sv", &[i])?;
        }
        let group = match ctx.rng.below(4) {
            0 => "".to_string(),
            1 => "g".repeat(ctx.rng.range(60_000, 70_000) as usize),
            2 => "\u{0}/../\u{1F600}".to_string(),
            _ => "g".into(),
        };
        let glen = group.len();
        match c.call(S_JOIN, &W::new().s(&group).s("sv").0)? {
            Resp::Err(_) => ensure!(glen > 60_000, "reply", "joining a group with a name of {} bytes was refused", glen),
            Resp::Data(d) => {
                let Some(j) = dec_join(&d) else { viol!("decode", "undecodable join reply") };
                for (limit, want) in [(0u32, 0usize), (u32::MAX, 4)] {
                    match c.s_fetch("sv", &group, &j, limit, 0)? {
                        Ok(v) => ensure!(v.len() == want, "fetch", "a fetch with limit {} returned {} of 4 messages", limit, v.len()),
                        Err(e) => viol!("fetch", "a fetch with limit {} failed: {}", limit, e),
                    }
                }
                for s in [0, 5, u64::MAX, 1 << 63] {
                    ensure!(c.s_ack("sv", &group, &j, s)?.is_err(), "accepted", "acknowledging position {} which was never delivered succeeded", s);
                }
                for s in 1..=2 {
                    ensure!(c.s_ack("sv", &group, &j, s)?.is_ok(), "ack", "ack failed");
                }
                // a position once accepted is kept, however the group is called
                srv.flushed(600)?;
                srv.restart()?;
                let c2 = srv.conn()?;
                let j2 = c2.s_join("sv", &group)?;
                ensure!(j2.floor == 2, "floor", "the floor of a group with a name of {} bytes is {} after a restart, was 2", glen, j2.floor);
            }
            r => viol!("reply", "join answered {}", r.short()),
        }
        rep.eval(8);
        rep.distinct(hash64(format!("g {} {}", glen, ret.len()).as_bytes()));
        // topics of many levels
        let c = srv.conn()?;
        let wit = srv.conn()?;
        wit.subscribe("w/+")?;
        for _ in 0..6 {
            let lv = *ctx.rng.pick(&[10usize, 100, 127, 1_000, 1_025, 4_000, 20_000, 100_000, 1_000_000, 5_000_000]);
            let (op, opts) = *ctx.rng.pick(&[(SUB, ""), (UNSUB, ""), (PUB, "{}"), (PUB, "{\"retain\":true}"), (PUB, "{\"retain\":true}")]);
            let unit = *ctx.rng.pick(&["/", "a/", "+/", "b/"]);
            let mut t = unit.repeat(lv.min(10_000_000 / unit.len()));
            if ctx.rng.chance(300) {
                t.push('#');
            }
            let mut w = W::new().s(&t);
            if op == PUB {
                w = w.s(opts).raw(b"deep");
            }
            let d = srv.conn()?;
            match d.call(op, &w.0)? {
                Resp::Ok => {
                    rep.count("deep_topics_accepted", 1);
                    rep.max("deepest_topic_accepted", lv as u64);
                    if op == SUB && lv <= 100 && unit == "a/" {
                        c.publish(&"a/".repeat(lv), "{}", b"x")?;
                        ensure!(d.wait_push(c.patience).is_some(), "push", "a subscription of {} levels receives nothing", lv);
                    }
                    if ctx.rng.chance(500) {
                        d.call(UNSUB, &W::new().s(&t).0)?;
                    }
                }
                Resp::Err(_) => {
                    rep.count("deep_topics_refused", 1);
                    ensure!(lv >= 100, "refused", "a topic of {} levels was refused", lv);
                }
                r => viol!("reply", "opcode 0x{:02x} answered {}", op, r.short()),
            }
            d.close();
            c.publish("w/1", "{}", b"still")?;
            ensure!(wit.wait_push(c.patience).map(|p| p.payload) == Some(b"still".to_vec()), "push", "a message after a topic of {} levels did not arrive", lv);
            srv.get("/api/pubsub?limit=5")?;
            rep.eval(2);
            rep.distinct(hash64(format!("deep {} {} {}", lv, op, unit).as_bytes()));
        }
        if ctx.rng.chance(500) {
            srv.flushed(1000)?;
            srv.restart()?;
        }
        let c = srv.conn()?;
        c.subscribe("#")?;
        ensure!(c.echo(b"end")? == Resp::Data(b"end".to_vec()), "reply", "echo failed");
        c.check()?;
        Ok(())
    })
}

/// Clients that do not read; others are served.
fn flood(ctx: &mut Ctx) -> Result<(), Fail> {
    let secs = if ctx.thorough { 8 } else { 4 };
    let cap = *ctx.rng.pick(&[1u64, 16, 1024]);
    ctx.server(Cfg::real().set("CHANNEL_CAPACITY_SOCKET_WRITE", cap), |ctx, srv| {
        let stop = AtomicBool::new(false);
        let errs: Mutex<Vec<Fail>> = Mutex::new(vec![]);
        let rngs: Vec<Rng> = (0..2).map(|_| ctx.rng.fork()).collect();
        let rep = ctx.rep;
        let srv_ref: &Server = srv;
        let mut silent = vec![];
        for i in 0..3 {
            let c = srv.conn()?;
            c.write_timeout(Duration::from_millis(50));
            if i == 0 {
                c.subscribe("flood/#")?;
            }
            c.pause(true);
            silent.push(c);
        }
        let kinds: Vec<u64> = silent.iter().map(|_| ctx.rng.below(3)).collect();
        std::thread::scope(|sc| {
            let (stop, errs) = (&stop, &errs);
            for (i, mut r) in rngs.into_iter().enumerate() {
                sc.spawn(move || {
                    if let Err(e) = witness(&mut r, srv_ref, i as u64, stop, rep) {
                        errs.lock().unwrap().push(e);
                    }
                });
            }
            sc.spawn(move || {
                // flood the silent subscriber
                let r = (|| -> Result<(), Fail> {
                    let c = srv_ref.conn()?;
                    let mut n = 0;
                    while !stop.load(SeqCst) && n < 400 {
                        c.publish("flood/x", "{}", &[9; 100_000])?;
                        n += 1;
                    }
                    rep.count("pushes_to_a_silent_client", n);
                    Ok(())
                })();
                if let Err(e) = r {
                    errs.lock().unwrap().push(e);
                }
            });
            for (c, k) in silent.iter().zip(&kinds) {
                sc.spawn(move || {
                    // requests whose answers nobody reads
                    let t0 = Instant::now();
                    while !stop.load(SeqCst) && t0.elapsed() < Duration::from_secs(20) {
                        match k {
                            0 => c.send(ECHO, &[1; 50_000]),
                            1 => c.send(Q_EXISTS, &W::new().s("none").0),
                            _ => c.send(Q_CONSUME, &enc_consume("witness-none", None, None)),
                        };
                        if *k > 0 && t0.elapsed() > Duration::from_millis(1500) {
                            break;
                        }
                    }
                });
            }
            std::thread::sleep(Duration::from_secs(secs));
            stop.store(true, SeqCst);
        });
        for c in &silent {
            c.reset();
            c.pause(false);
        }
        match errs.into_inner().unwrap().into_iter().min_by_key(|e| !matches!(e, Fail::Violation(..))) {
            Some(e) => Err(e),
            None => Ok(()),
        }
    })
}

/// Hundreds of waiting requests on one connection: whatever comes behind them is answered at once, and each of them when its message is there.
fn many(ctx: &mut Ctx) -> Result<(), Fail> {
    let cap = *ctx.rng.pick(&[1u64, 16, 1024]);
    ctx.server(Cfg::real().set("CHANNEL_CAPACITY_SOCKET_WRITE", cap).set("QUEUE_VISIBILITY_MS", 3_600_000), |ctx, srv| {
        if ctx.rng.chance(300) {
            srv.ctl.preempt(ctx.rng.range(50, 500), ctx.rng.range(50, 300));
        }
        let c = srv.conn()?;
        let other = srv.conn()?;
        let total = *ctx.rng.pick(&[70u64, 300, 1100, if ctx.thorough { 5000 } else { 2200 }]);
        let per = ctx.rng.range(5, 60);
        let nq = (total + per - 1) / per;
        let streams = ctx.rng.chance(400);
        let mut waits: Vec<(u64, u32)> = vec![];
        let mut js = vec![];
        for q in 0..nq {
            if streams && q % 2 == 1 {
                c.s_create(&format!("m{}", q), "{}")?;
                js.push(Some(()));
            } else {
                c.q_create(&format!("m{}", q), "{}")?;
                js.push(None);
            }
        }
        for n in 0..total {
            let q = n / per;
            let name = format!("m{}", q);
            if js[q as usize].is_some() {
                // a group of its own per request: each is to get the same message
                let g = format!("g{}", n);
                let j = other.s_join(&name, &g)?;
                waits.push((q, c.send(S_FETCH, &enc_fetch(&name, &g, &j, 1, 3_600_000))));
            } else {
                waits.push((q, c.send(Q_CONSUME, &enc_consume(&name, Some(1), Some(3_600_000)))));
            }
        }
        ctx.rep.count("waiting_requests_on_one_connection", total);
        for (k, x) in [(0, &c), (1, &other), (2, &c)] {
            let p = ctx.rng.bytes(100);
            ensure!(x.echo(&p)? == Resp::Data(p), "reply", "echo next to {} waiting requests ({})", total, k);
            x.must_ok(SET, &W::new().s("k").s("{}").raw(&[k as u8]).0)?;
            ensure!(x.call(GET, &W::new().s("k").0)? == Resp::Data(vec![k as u8]), "reply", "get next to {} waiting requests", total);
        }
        // the messages come over the same connection or another one, all at once or one by one
        let src = if ctx.rng.chance(600) { &c } else { &other };
        let piped = ctx.rng.chance(500);
        let mut acks = vec![];
        for q in 0..nq {
            let name = format!("m{}", q);
            let here = waits.iter().filter(|w| w.0 == q).count();
            for k in 0..if js[q as usize].is_some() { 1 } else { here } {
                let id = if js[q as usize].is_some() { src.send(S_PUB, &W::new().s(&name).raw(format!("{}/{}", q, k).as_bytes()).0) } else { src.send(Q_PUSH, &enc_push(&name, None, format!("{}/{}", q, k).as_bytes())) };
                if piped {
                    acks.push(id);
                } else {
                    src.wait(id)?;
                }
            }
        }
        for id in acks {
            src.wait(id)?;
        }
        let mut seen = std::collections::BTreeSet::new();
        for (q, id) in &waits {
            let r = c.wait(*id)?;
            let (n, body) = if js[*q as usize].is_some() {
                let v = as_fetch(r)?.map_err(|e| Fail::v("reply", format!("a waiting fetch failed: {}", e)))?;
                (v.len(), v.first().map(|m| m.payload.clone()))
            } else {
                let v = as_batch(r)?;
                (v.len(), v.first().map(|m| m.payload.clone()))
            };
            ensure!(n == 1, "reply", "one of {} waiting requests was answered with {} messages", total, n);
            let b = String::from_utf8_lossy(&body.unwrap()).to_string();
            ensure!(b.starts_with(&format!("{}/", q)), "reply", "a request for m{} was answered with message {}", q, b);
            ensure!(js[*q as usize].is_some() || seen.insert(b.clone()), "reply", "message {} answers two requests", b);
            ctx.rep.eval(1);
        }
        c.check()?;
        other.check()?;
        ctx.rep.distinct(hash64(format!("many {} {} {} {}", total, per, streams, piped).as_bytes()));
        Ok(())
    })
}
