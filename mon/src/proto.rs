//! Wire protocol of the server: request encoders and reply decoders.
pub const ECHO: u8 = 0x00;
pub const SET: u8 = 0x02;
pub const GET: u8 = 0x03;
pub const DEL: u8 = 0x04;
pub const Q_CREATE: u8 = 0x10;
pub const Q_PUSH: u8 = 0x11;
pub const Q_CONSUME: u8 = 0x12;
pub const Q_ACK: u8 = 0x13;
pub const Q_EXISTS: u8 = 0x14;
pub const Q_DELETE: u8 = 0x15;
pub const Q_PEEK_DLQ: u8 = 0x16;
pub const Q_MOVE: u8 = 0x17;
pub const Q_DEL_DLQ: u8 = 0x18;
pub const Q_PURGE: u8 = 0x19;
pub const Q_NACK: u8 = 0x1A;
pub const PUB: u8 = 0x21;
pub const SUB: u8 = 0x22;
pub const UNSUB: u8 = 0x23;
pub const S_CREATE: u8 = 0x30;
pub const S_PUB: u8 = 0x31;
pub const S_FETCH: u8 = 0x32;
pub const S_JOIN: u8 = 0x33;
pub const S_ACK: u8 = 0x34;
pub const S_EXISTS: u8 = 0x35;
pub const S_DELETE: u8 = 0x36;
pub const S_SEEK: u8 = 0x38;
pub const S_LEAVE: u8 = 0x39;

pub type Id = [u8; 16];

#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> W {
        W(Vec::new())
    }
    pub fn s(mut self, v: &str) -> W {
        self.0.extend_from_slice(&(v.len() as u32).to_be_bytes());
        self.0.extend_from_slice(v.as_bytes());
        self
    }
    pub fn u8(mut self, v: u8) -> W {
        self.0.push(v);
        self
    }
    pub fn u32(mut self, v: u32) -> W {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> W {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn raw(mut self, v: &[u8]) -> W {
        self.0.extend_from_slice(v);
        self
    }
}

pub fn frame(ftype: u8, op: u8, id: u32, payload: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(10 + payload.len());
    v.push(ftype);
    v.push(op);
    v.extend_from_slice(&id.to_be_bytes());
    v.extend_from_slice(&(payload.len() as u32).to_be_bytes());
    v.extend_from_slice(payload);
    v
}

#[derive(Debug, Clone, PartialEq)]
pub enum Resp {
    Ok,
    Null,
    Err(String),
    Data(Vec<u8>),
}
impl Resp {
    pub fn is_err(&self) -> bool {
        matches!(self, Resp::Err(_))
    }
    pub fn short(&self) -> String {
        match self {
            Resp::Data(d) => format!("Data[{}]{}", d.len(), preview(d)),
            Resp::Err(e) => format!("Err({})", e),
            r => format!("{:?}", r),
        }
    }
}
pub fn preview(d: &[u8]) -> String {
    let n = d.len().min(48);
    String::from_utf8_lossy(&d[..n]).escape_debug().to_string()
}

pub struct R<'a>(pub &'a [u8]);
impl<'a> R<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    pub fn u32(&mut self) -> Option<u32> {
        self.take(4).map(|b| u32::from_be_bytes(b.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Option<u64> {
        self.take(8).map(|b| u64::from_be_bytes(b.try_into().unwrap()))
    }
    pub fn blob(&mut self) -> Option<&'a [u8]> {
        let n = self.u32()? as usize;
        self.take(n)
    }
    pub fn id(&mut self) -> Option<Id> {
        self.take(16).map(|b| b.try_into().unwrap())
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct QMsg {
    pub id: Id,
    pub payload: Vec<u8>,
}
pub fn dec_consume(d: &[u8]) -> Option<Vec<QMsg>> {
    let mut r = R(d);
    let n = r.u32()?;
    let mut v = Vec::new();
    for _ in 0..n {
        let id = r.id()?;
        v.push(QMsg { id, payload: r.blob()?.to_vec() });
    }
    if r.0.is_empty() {
        Some(v)
    } else {
        None
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct DMsg {
    pub id: Id,
    pub payload: Vec<u8>,
    pub attempts: u32,
    pub reason: String,
}
pub fn dec_dlq(d: &[u8]) -> Option<(u32, Vec<DMsg>)> {
    let mut r = R(d);
    let total = r.u32()?;
    let n = r.u32()?;
    let mut v = Vec::new();
    for _ in 0..n {
        let id = r.id()?;
        let payload = r.blob()?.to_vec();
        let attempts = r.u32()?;
        let reason = String::from_utf8(r.blob()?.to_vec()).ok()?;
        v.push(DMsg { id, payload, attempts, reason });
    }
    if r.0.is_empty() {
        Some((total, v))
    } else {
        None
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct SMsg {
    pub seq: u64,
    pub ts: u64,
    pub payload: Vec<u8>,
}
pub fn dec_fetch(d: &[u8]) -> Option<Vec<SMsg>> {
    let mut r = R(d);
    let n = r.u32()?;
    let mut v = Vec::new();
    for _ in 0..n {
        let seq = r.u64()?;
        let ts = r.u64()?;
        v.push(SMsg { seq, ts, payload: r.blob()?.to_vec() });
    }
    if r.0.is_empty() {
        Some(v)
    } else {
        None
    }
}
#[derive(Debug, Clone, PartialEq)]
pub struct Joined {
    pub floor: u64,
    pub gen: u64,
    pub cid: String,
}
pub fn dec_join(d: &[u8]) -> Option<Joined> {
    let mut r = R(d);
    let floor = r.u64()?;
    let gen = r.u64()?;
    let cid = String::from_utf8(r.blob()?.to_vec()).ok()?;
    Some(Joined { floor, gen, cid })
}
pub fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{:02x}", b)).collect()
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
pub fn uuid_str(id: &Id) -> String {
    let h = hex(id);
    format!("{}-{}-{}-{}-{}", &h[0..8], &h[8..12], &h[12..16], &h[16..20], &h[20..32])
}
pub fn uuid_parse(s: &str) -> Option<Id> {
    unhex(&s.replace('-', ""))?.try_into().ok()
}
