//! Minimal HTTP/1.1 GET client for the dashboard API.
use std::io::{Read, Write};
use std::net::TcpStream;
use std::time::Duration;

pub fn enc(s: &str) -> String {
    s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-_~".contains(&b) { (b as char).to_string() } else { format!("%{:02X}", b) }).collect()
}
/// Returns (status, body); Err when no complete response arrived.
pub fn request(port: u16, method: &str, path: &str, patience: Duration) -> Result<(u16, Vec<u8>), String> {
    let mut s = TcpStream::connect(("127.0.0.1", port)).map_err(|e| format!("connect: {}", e))?;
    s.set_read_timeout(Some(patience)).ok();
    s.set_nodelay(true).ok();
    s.write_all(format!("{} {} HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n", method, path).as_bytes()).map_err(|e| format!("write: {}", e))?;
    let mut buf = Vec::new();
    s.read_to_end(&mut buf).map_err(|e| format!("read: {} after {} bytes", e, buf.len()))?;
    let p = buf.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| format!("no HTTP response ({} bytes)", buf.len()))?;
    let head = String::from_utf8_lossy(&buf[..p]).to_string();
    let status: u16 = head.split(' ').nth(1).and_then(|x| x.parse().ok()).ok_or("bad status line")?;
    let body = &buf[p + 4..];
    let chunked = head.to_ascii_lowercase().contains("transfer-encoding: chunked");
    if !chunked {
        return Ok((status, body.to_vec()));
    }
    let mut out = Vec::new();
    let mut i = 0;
    loop {
        let e = body[i..].windows(2).position(|w| w == b"\r\n").ok_or("bad chunk")? + i;
        let n = usize::from_str_radix(String::from_utf8_lossy(&body[i..e]).trim(), 16).map_err(|_| "bad chunk size")?;
        if n == 0 {
            break;
        }
        if e + 2 + n > body.len() {
            return Err("truncated chunk".into());
        }
        out.extend_from_slice(&body[e + 2..e + 2 + n]);
        i = e + 2 + n + 2;
    }
    Ok((status, out))
}
