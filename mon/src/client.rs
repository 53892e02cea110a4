//! One TCP connection to the server: pipelined requests matched to responses by id, pushes queued in arrival order.
//! Any response nobody asked for, and any second response to a request, is recorded as an anomaly.
use crate::proto::*;
use crate::report::Fail;
use std::collections::{HashMap, VecDeque};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, PartialEq)]
pub struct Push {
    pub topic: String,
    pub payload: Vec<u8>,
    pub at: Instant,
}
#[derive(Default)]
struct St {
    waiting: HashMap<u32, Option<(Resp, Instant)>>,
    pushes: VecDeque<Push>,
    closed: bool,
    anomalies: Vec<String>,
}
struct Sh {
    m: Mutex<St>,
    cv: Condvar,
}
#[derive(Clone)]
pub struct Conn {
    w: Arc<Mutex<(TcpStream, u32)>>,
    raw: Arc<TcpStream>,
    sh: Arc<Sh>,
    pub patience: Duration,
    port: u16,
    paused: Arc<AtomicBool>,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Net {
    Closed,
    Timeout,
}

impl Conn {
    pub fn open(port: u16, patience: Duration) -> std::io::Result<Conn> {
        let s = TcpStream::connect(("127.0.0.1", port))?;
        s.set_nodelay(true)?;
        let sh = Arc::new(Sh { m: Mutex::new(St::default()), cv: Condvar::new() });
        let mut rd = s.try_clone()?;
        let sh2 = sh.clone();
        let paused = Arc::new(AtomicBool::new(false));
        let paused2 = paused.clone();
        std::thread::Builder::new().stack_size(256 << 10).spawn(move || {
            let mut buf: Vec<u8> = Vec::new();
            let mut tmp = vec![0u8; 65536];
            'o: loop {
                while paused2.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(2));
                }
                match rd.read(&mut tmp) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => buf.extend_from_slice(&tmp[..n]),
                }
                let mut off = 0;
                let mut st = sh2.m.lock().unwrap();
                while buf.len() - off >= 10 {
                    let h = &buf[off..off + 10];
                    let len = u32::from_be_bytes(h[6..10].try_into().unwrap()) as usize;
                    if buf.len() - off < 10 + len {
                        break;
                    }
                    let id = u32::from_be_bytes(h[2..6].try_into().unwrap());
                    let body = &buf[off + 10..off + 10 + len];
                    match h[0] {
                        2 => {
                            let r = match h[1] {
                                0 => Resp::Ok,
                                1 => {
                                    let mut r = R(body);
                                    match r.blob() {
                                        Some(b) => Resp::Err(String::from_utf8_lossy(b).to_string()),
                                        None => {
                                            st.anomalies.push(format!("malformed error response to id {}", id));
                                            Resp::Err("?".into())
                                        }
                                    }
                                }
                                2 => Resp::Null,
                                3 => Resp::Data(body.to_vec()),
                                x => {
                                    st.anomalies.push(format!("response status {} to id {}", x, id));
                                    Resp::Err("?".into())
                                }
                            };
                            match st.waiting.get_mut(&id) {
                                Some(slot @ None) => *slot = Some((r, Instant::now())),
                                Some(Some(_)) => st.anomalies.push(format!("second response to request id {}: {}", id, r.short())),
                                None => st.anomalies.push(format!("response to unknown request id {}: {}", id, r.short())),
                            }
                        }
                        3 => {
                            let mut r = R(body);
                            match r.blob().map(|b| String::from_utf8(b.to_vec())) {
                                Some(Ok(t)) => {
                                    let p = Push { topic: t, payload: r.0.to_vec(), at: Instant::now() };
                                    st.pushes.push_back(p)
                                }
                                _ => st.anomalies.push(format!("malformed push frame {}", hex(&body[..body.len().min(40)]))),
                            }
                        }
                        t => {
                            st.anomalies.push(format!("frame of unknown type {} from the server", t));
                            break 'o;
                        }
                    }
                    off += 10 + len;
                }
                buf.drain(..off);
                drop(st);
                sh2.cv.notify_all();
            }
            sh2.m.lock().unwrap().closed = true;
            sh2.cv.notify_all();
        })?;
        let raw = s.try_clone()?;
        Ok(Conn { w: Arc::new(Mutex::new((s, 1))), raw: Arc::new(raw), sh, patience, port, paused })
    }

    /// Send a request; the response is collected with `wait`.
    pub fn send(&self, op: u8, payload: &[u8]) -> u32 {
        let mut w = self.w.lock().unwrap();
        let id = w.1;
        w.1 = w.1.wrapping_add(1).max(1);
        self.sh.m.lock().unwrap().waiting.insert(id, None);
        let _ = w.0.write_all(&frame(1, op, id, payload));
        id
    }
    /// Register an id so that a hand-made frame carrying it may be answered.
    pub fn expect(&self, id: u32) {
        self.sh.m.lock().unwrap().waiting.insert(id, None);
    }
    pub fn write_raw(&self, b: &[u8]) -> std::io::Result<()> {
        self.w.lock().unwrap().0.write_all(b)
    }
    pub fn wait_for(&self, id: u32, d: Duration) -> Result<(Resp, Instant), Net> {
        let end = Instant::now() + d;
        let mut st = self.sh.m.lock().unwrap();
        loop {
            match st.waiting.get(&id) {
                Some(Some(_)) => return Ok(st.waiting.remove(&id).unwrap().unwrap()),
                _ => {}
            }
            if st.closed {
                return Err(Net::Closed);
            }
            let now = Instant::now();
            if now >= end {
                return Err(Net::Timeout);
            }
            st = self.sh.cv.wait_timeout(st, end - now).unwrap().0;
        }
    }
    pub fn ready(&self, id: u32) -> bool {
        matches!(self.sh.m.lock().unwrap().waiting.get(&id), Some(Some(_)))
    }
    pub fn wait(&self, id: u32) -> Result<Resp, Fail> {
        match self.wait_for(id, self.patience) {
            Ok(r) => Ok(r.0),
            Err(Net::Closed) => Err(Fail::Suspect("connection closed by the server while a request was outstanding".into())),
            Err(Net::Timeout) => {
                // conclusive only if the server demonstrably keeps serving others while this request stays unanswered
                let mut served = 0;
                for _ in 0..12 {
                    if let Ok(c) = Conn::open(self.port, self.patience) {
                        let e = c.send(ECHO, b"probe");
                        if c.wait_for(e, Duration::from_secs(2)).is_ok() {
                            served += 1;
                        }
                        c.close();
                    }
                    std::thread::sleep(Duration::from_millis(400));
                }
                if let Ok(r) = self.wait_for(id, Duration::from_millis(1)) {
                    return Ok(r.0);
                }
                if served >= 10 {
                    return Err(Fail::v("unanswered", format!("request unanswered for {:?} while the server answered {} later requests on other connections", self.patience, served)));
                }
                Err(Fail::Suspect(format!("request unanswered for {:?}", self.patience)))
            }
        }
    }
    pub fn call(&self, op: u8, payload: &[u8]) -> Result<Resp, Fail> {
        let id = self.send(op, payload);
        self.wait(id).map_err(|e| match e {
            Fail::Suspect(m) => Fail::Suspect(format!("opcode 0x{:02x}: {}", op, m)),
            Fail::Violation(s, m) => Fail::Violation(s, format!("opcode 0x{:02x}: {}", op, m)),
            e => e,
        })
    }
    pub fn closed(&self) -> bool {
        self.sh.m.lock().unwrap().closed
    }
    /// Wait until the server has closed the connection.
    pub fn wait_closed(&self, d: Duration) -> bool {
        let end = Instant::now() + d;
        let mut st = self.sh.m.lock().unwrap();
        while !st.closed {
            let now = Instant::now();
            if now >= end {
                return false;
            }
            st = self.sh.cv.wait_timeout(st, end - now).unwrap().0;
        }
        true
    }
    pub fn drain_pushes(&self) -> Vec<Push> {
        self.sh.m.lock().unwrap().pushes.drain(..).collect()
    }
    pub fn wait_push(&self, d: Duration) -> Option<Push> {
        let end = Instant::now() + d;
        let mut st = self.sh.m.lock().unwrap();
        loop {
            if let Some(p) = st.pushes.pop_front() {
                return Some(p);
            }
            let now = Instant::now();
            if st.closed || now >= end {
                return None;
            }
            st = self.sh.cv.wait_timeout(st, end - now).unwrap().0;
        }
    }
    pub fn anomalies(&self) -> Vec<String> {
        self.sh.m.lock().unwrap().anomalies.clone()
    }
    pub fn check(&self) -> Result<(), Fail> {
        match self.anomalies().first() {
            Some(a) => Err(Fail::v("protocol", format!("{}", a))),
            None => Ok(()),
        }
    }
    pub fn close(&self) {
        let _ = self.raw.shutdown(Shutdown::Both);
    }
    /// Give up writes that block longer than this (the frame may be cut off).
    pub fn write_timeout(&self, d: Duration) {
        let _ = self.raw.set_write_timeout(Some(d));
    }
    pub fn half_close(&self) {
        let _ = self.raw.shutdown(Shutdown::Write);
    }
    /// Stop or resume reading from the socket (at most one more buffer is read after pausing).
    pub fn pause(&self, on: bool) {
        self.paused.store(on, SeqCst);
    }
    /// Pushes up to and including the fence message.
    pub fn until_fence(&self, topic: &str, payload: &[u8]) -> Result<Vec<Push>, Fail> {
        let end = Instant::now() + self.patience;
        let mut v = Vec::new();
        loop {
            let now = Instant::now();
            match self.wait_push(end.saturating_duration_since(now)) {
                Some(p) => {
                    let f = p.topic == topic && p.payload == payload;
                    v.push(p);
                    if f {
                        return Ok(v);
                    }
                }
                None => {
                    if self.closed() {
                        return Err(Fail::Suspect("subscriber connection closed by the server".into()));
                    }
                    return Err(Fail::Suspect(format!("a subscriber never received the message published to {:?} (got {} others)", topic, v.len())));
                }
            }
        }
    }
    /// Abort with RST.
    pub fn reset(&self) {
        use std::os::unix::io::AsRawFd;
        let l = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(self.raw.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
            // shutdown() would send FIN; connecting an AF_UNSPEC address aborts a TCP socket at once
            let mut a: libc::sockaddr = std::mem::zeroed();
            a.sa_family = libc::AF_UNSPEC as u16;
            libc::connect(self.raw.as_raw_fd(), &a, std::mem::size_of::<libc::sockaddr>() as u32);
        }
    }

    // ------------------------------------------------------------ typed helpers
    pub fn echo(&self, d: &[u8]) -> Result<Resp, Fail> {
        self.call(ECHO, d)
    }
    pub fn q_create(&self, q: &str, opts: &str) -> Result<Resp, Fail> {
        self.call(Q_CREATE, &W::new().s(q).s(opts).0)
    }
    pub fn q_push(&self, q: &str, prio: Option<u8>, p: &[u8]) -> Result<Resp, Fail> {
        self.call(Q_PUSH, &enc_push(q, prio, p))
    }
    pub fn q_consume(&self, q: &str, batch: Option<u64>, wait: Option<u64>) -> Result<Vec<QMsg>, Fail> {
        as_batch(self.call(Q_CONSUME, &enc_consume(q, batch, wait))?)
    }
    pub fn q_ack(&self, q: &str, id: &Id) -> Result<bool, Fail> {
        as_ok(self.call(Q_ACK, &W::new().raw(id).s(q).0)?)
    }
    pub fn q_nack(&self, q: &str, id: &Id, reason: &str) -> Result<bool, Fail> {
        as_ok(self.call(Q_NACK, &W::new().raw(id).s(q).s(reason).0)?)
    }
    pub fn q_dlq(&self, q: &str, limit: u32, offset: u32) -> Result<(u32, Vec<DMsg>), Fail> {
        match self.call(Q_PEEK_DLQ, &W::new().s(q).u32(limit).u32(offset).0)? {
            Resp::Data(d) => dec_dlq(&d).ok_or_else(|| Fail::v("decode", "undecodable DLQ listing".into())),
            r => Err(Fail::v("reply", format!("DLQ peek answered {}", r.short()))),
        }
    }
    pub fn q_move(&self, q: &str, id: &Id) -> Result<bool, Fail> {
        as_bool(self.call(Q_MOVE, &W::new().s(q).raw(id).0)?)
    }
    pub fn q_del_dlq(&self, q: &str, id: &Id) -> Result<bool, Fail> {
        as_bool(self.call(Q_DEL_DLQ, &W::new().s(q).raw(id).0)?)
    }
    pub fn q_purge(&self, q: &str) -> Result<u32, Fail> {
        match self.call(Q_PURGE, &W::new().s(q).0)? {
            Resp::Data(d) if d.len() == 4 => Ok(u32::from_be_bytes(d[..].try_into().unwrap())),
            r => Err(Fail::v("reply", format!("purge answered {}", r.short()))),
        }
    }
    pub fn s_create(&self, t: &str, opts: &str) -> Result<Resp, Fail> {
        self.call(S_CREATE, &W::new().s(t).s(opts).0)
    }
    pub fn s_pub(&self, t: &str, p: &[u8]) -> Result<u64, Fail> {
        as_seq(self.call(S_PUB, &W::new().s(t).raw(p).0)?)
    }
    pub fn s_join(&self, t: &str, g: &str) -> Result<Joined, Fail> {
        match self.call(S_JOIN, &W::new().s(g).s(t).0)? {
            Resp::Data(d) => dec_join(&d).ok_or_else(|| Fail::v("decode", "undecodable join reply".into())),
            r => Err(Fail::v("reply", format!("join answered {}", r.short()))),
        }
    }
    pub fn s_fetch(&self, t: &str, g: &str, j: &Joined, limit: u32, wait: u32) -> Result<Result<Vec<SMsg>, String>, Fail> {
        as_fetch(self.call(S_FETCH, &enc_fetch(t, g, j, limit, wait))?)
    }
    pub fn s_ack(&self, t: &str, g: &str, j: &Joined, seq: u64) -> Result<Result<(), String>, Fail> {
        as_unit(self.call(S_ACK, &W::new().s(t).s(g).s(&j.cid).u64(j.gen).u64(seq).0)?)
    }
    pub fn s_seek(&self, t: &str, g: &str, end: bool) -> Result<Result<(), String>, Fail> {
        as_unit(self.call(S_SEEK, &W::new().s(t).s(g).u8(end as u8).0)?)
    }
    pub fn s_leave(&self, t: &str, g: &str, j: &Joined) -> Result<Result<(), String>, Fail> {
        as_unit(self.call(S_LEAVE, &W::new().s(t).s(g).s(&j.cid).u64(j.gen).0)?)
    }
    pub fn must_ok(&self, op: u8, payload: &[u8]) -> Result<(), Fail> {
        match self.call(op, payload)? {
            Resp::Ok => Ok(()),
            r => Err(Fail::v("reply", format!("opcode 0x{:02x} answered {} where success was due", op, r.short()))),
        }
    }
    pub fn publish(&self, topic: &str, opts: &str, p: &[u8]) -> Result<(), Fail> {
        self.must_ok(PUB, &W::new().s(topic).s(opts).raw(p).0)
    }
    pub fn subscribe(&self, pat: &str) -> Result<(), Fail> {
        self.must_ok(SUB, &W::new().s(pat).0)
    }
    pub fn unsubscribe(&self, pat: &str) -> Result<(), Fail> {
        self.must_ok(UNSUB, &W::new().s(pat).0)
    }
}

pub fn enc_push(q: &str, prio: Option<u8>, p: &[u8]) -> Vec<u8> {
    let o = match prio {
        Some(n) => format!("{{\"priority\":{}}}", n),
        None => "{}".into(),
    };
    W::new().s(q).s(&o).raw(p).0
}
pub fn enc_consume(q: &str, batch: Option<u64>, wait: Option<u64>) -> Vec<u8> {
    let mut o = Vec::new();
    if let Some(b) = batch {
        o.push(format!("\"batchSize\":{}", b));
    }
    if let Some(w) = wait {
        o.push(format!("\"waitMs\":{}", w));
    }
    W::new().s(q).s(&format!("{{{}}}", o.join(","))).0
}
pub fn enc_fetch(t: &str, g: &str, j: &Joined, limit: u32, wait: u32) -> Vec<u8> {
    W::new().s(t).s(g).s(&j.cid).u64(j.gen).u32(limit).u32(wait).0
}
pub fn as_batch(r: Resp) -> Result<Vec<QMsg>, Fail> {
    match r {
        Resp::Data(d) => dec_consume(&d).ok_or_else(|| Fail::v("decode", "undecodable consume reply".into())),
        r => Err(Fail::v("reply", format!("consume answered {}", r.short()))),
    }
}
pub fn as_fetch(r: Resp) -> Result<Result<Vec<SMsg>, String>, Fail> {
    match r {
        Resp::Data(d) => dec_fetch(&d).map(Ok).ok_or_else(|| Fail::v("decode", "undecodable fetch reply".into())),
        Resp::Err(e) => Ok(Err(e)),
        r => Err(Fail::v("reply", format!("fetch answered {}", r.short()))),
    }
}
pub fn as_seq(r: Resp) -> Result<u64, Fail> {
    match r {
        Resp::Data(d) if d.len() == 8 => Ok(u64::from_be_bytes(d[..].try_into().unwrap())),
        r => Err(Fail::v("reply", format!("stream publish answered {}", r.short()))),
    }
}
pub fn as_unit(r: Resp) -> Result<Result<(), String>, Fail> {
    match r {
        Resp::Ok => Ok(Ok(())),
        Resp::Err(e) => Ok(Err(e)),
        r => Err(Fail::v("reply", format!("unexpected reply {}", r.short()))),
    }
}
pub fn as_ok(r: Resp) -> Result<bool, Fail> {
    match r {
        Resp::Ok => Ok(true),
        Resp::Err(_) => Ok(false),
        r => Err(Fail::v("reply", format!("unexpected reply {}", r.short()))),
    }
}
pub fn as_bool(r: Resp) -> Result<bool, Fail> {
    match r {
        Resp::Data(d) if d == [0] || d == [1] => Ok(d[0] == 1),
        r => Err(Fail::v("reply", format!("unexpected reply {}", r.short()))),
    }
}
