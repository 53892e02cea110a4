//! The system under test: the real server binary in a scratch directory, as an unprivileged user, with libchaos loaded.
use crate::client::Conn;
use crate::ctl::Ctl;
use crate::http;
use crate::report::Fail;
use crate::run::Ctx;
use serde_json::Value;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

static SEQ: AtomicU64 = AtomicU64::new(0);
static PORT: AtomicU32 = AtomicU32::new(0);
pub const UID: u32 = 65534;

/// Scratch root of this harness process (removed at exit).
pub fn scratch_root() -> PathBuf {
    PathBuf::from(format!("/tmp/nexo-mon-{}", std::process::id()))
}
pub fn chown(p: &Path) {
    let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
    unsafe { libc::chown(c.as_ptr(), UID, UID) };
}
pub fn init_scratch(bin: &str, lib: &str) -> std::io::Result<()> {
    // leftovers of dead harness processes
    if let Ok(rd) = std::fs::read_dir("/tmp") {
        for e in rd.flatten() {
            let n = e.file_name().to_string_lossy().to_string();
            if let Some(pid) = n.strip_prefix("nexo-mon-").and_then(|x| x.parse::<u32>().ok()) {
                if !Path::new(&format!("/proc/{}", pid)).exists() {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
    }
    let r = scratch_root();
    std::fs::create_dir_all(&r)?;
    use std::os::unix::fs::PermissionsExt;
    std::fs::set_permissions(&r, std::fs::Permissions::from_mode(0o755))?;
    std::fs::copy(bin, r.join("nexo"))?;
    std::fs::copy(lib, r.join("libchaos.so"))?;
    std::fs::set_permissions(r.join("nexo"), std::fs::Permissions::from_mode(0o755))?;
    std::fs::set_permissions(r.join("libchaos.so"), std::fs::Permissions::from_mode(0o755))?;
    Ok(())
}

fn free_port() -> u16 {
    loop {
        let n = PORT.fetch_add(1, Relaxed) + (std::process::id() % 180) * 97;
        let p = 10000 + (n % 20000) as u16;
        let bindable = unsafe {
            // same options as the server (no SO_REUSEPORT): a port somebody listens on must fail here
            let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
            let one: i32 = 1;
            libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_REUSEADDR, &one as *const _ as *const libc::c_void, 4);
            let mut a: libc::sockaddr_in = std::mem::zeroed();
            a.sin_family = libc::AF_INET as u16;
            a.sin_port = p.to_be();
            let r = libc::bind(fd, &a as *const _ as *const libc::sockaddr, std::mem::size_of::<libc::sockaddr_in>() as u32);
            libc::close(fd);
            r == 0
        };
        if bindable {
            return p;
        }
    }
}

#[derive(Clone, Default)]
pub struct Cfg {
    pub env: Vec<(String, String)>,
    /// the server's clocks stand still unless advanced
    pub frozen: bool,
    /// descriptor limit (0: 4096)
    pub nofile: u64,
}
impl Cfg {
    pub fn frozen() -> Cfg {
        Cfg { frozen: true, ..Default::default() }
    }
    pub fn real() -> Cfg {
        Cfg::default()
    }
    pub fn set(mut self, k: &str, v: impl ToString) -> Cfg {
        self.env.push((k.into(), v.to_string()));
        self
    }
}

pub struct Server {
    child: Option<Child>,
    pub ctl: Ctl,
    pub dir: PathBuf,
    pub tcp: u16,
    pub http: u16,
    cfg: Cfg,
    patience: Duration,
    pub keep: bool,
    expected_dead: bool,
    pub starts: u32,
}

impl Server {
    pub fn start(ctx: &Ctx, cfg: Cfg) -> Result<Server, Fail> {
        let dir = scratch_root().join(format!("s{}", SEQ.fetch_add(1, Relaxed)));
        let mk = || -> std::io::Result<Ctl> {
            std::fs::create_dir_all(dir.join("data"))?;
            chown(&dir.join("data"));
            Ctl::new(&dir.join("ctl"), &dir.join("data"), ctx.seed | 1)
        };
        let ctl = mk().map_err(|e| Fail::Inconclusive(format!("scratch dir: {}", e)))?;
        if cfg.frozen {
            ctl.freeze();
        }
        let mut s = Server { child: None, ctl, dir, tcp: 0, http: 0, cfg, patience: ctx.patience, keep: false, expected_dead: false, starts: 0 };
        s.boot()?;
        Ok(s)
    }
    pub fn data(&self) -> PathBuf {
        self.dir.join("data")
    }
    pub fn set_env(&mut self, k: &str, v: impl ToString) {
        self.cfg.env.retain(|(a, _)| a != k);
        self.cfg.env.push((k.into(), v.to_string()));
    }
    fn spawn(&mut self) -> std::io::Result<()> {
        self.tcp = free_port();
        self.http = free_port();
        let log = std::fs::OpenOptions::new().create(true).append(true).open(self.dir.join("log"))?;
        let d = self.data();
        let root = scratch_root();
        let mut c = Command::new(root.join("nexo"));
        c.env_clear()
            .env("LD_PRELOAD", root.join("libchaos.so"))
            .env("NEXO_CHAOS_CTL", &self.ctl.path)
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", &d)
            .env("SERVER_HOST", "127.0.0.1")
            .env("SERVER_SOCKET_TCP_PORT", self.tcp.to_string())
            .env("SERVER_DASHBOARD_HTTP_PORT", self.http.to_string())
            .env("QUEUE_ROOT_PERSISTENCE_PATH", d.join("queues"))
            .env("STREAM_ROOT_PERSISTENCE_PATH", d.join("streams"))
            .env("PUBSUB_ROOT_PERSISTENCE_PATH", d.join("pubsub"))
            .env("TOKIO_WORKER_THREADS", "4");
        for (k, v) in &self.cfg.env {
            c.env(k, v);
        }
        c.current_dir(&d).stdin(Stdio::null()).stdout(log.try_clone()?).stderr(log);
        let files = if self.cfg.nofile == 0 { 4096 } else { self.cfg.nofile };
        let root_user = unsafe { libc::getuid() } == 0;
        unsafe {
            c.pre_exec(move || {
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                let g = 16u64 << 30;
                let lim = libc::rlimit { rlim_cur: g, rlim_max: g };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                let lim = libc::rlimit { rlim_cur: files, rlim_max: files };
                libc::setrlimit(libc::RLIMIT_NOFILE, &lim);
                if root_user {
                    libc::setgroups(0, std::ptr::null());
                    if libc::setgid(UID) != 0 || libc::setuid(UID) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                }
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        self.child = Some(c.spawn()?);
        Ok(())
    }
    fn boot(&mut self) -> Result<(), Fail> {
        self.expected_dead = false;
        self.starts += 1;
        for attempt in 0..6 {
            let log_before = self.log().len();
            self.spawn().map_err(|e| Fail::Inconclusive(format!("spawn: {}", e)))?;
            let end = Instant::now() + self.patience * 2;
            loop {
                if let Ok(Some(st)) = self.child.as_mut().unwrap().try_wait() {
                    let l = self.log();
                    let new = l.get(log_before..).unwrap_or("").to_string();
                    if new.contains("Failed to bind") || new.contains("Address already in use") {
                        std::fs::write(self.dir.join("log"), &l[..log_before]).ok();
                        break; // other ports
                    }
                    if self.ctl.crashed_kind_peek() != 0 {
                        // an armed crash point fired during start-up
                        self.expected_dead = true;
                        return Err(Fail::Inconclusive("crash point during start-up".into()));
                    }
                    self.expected_dead = true;
                    if attempt < 1 {
                        break;
                    }
                    return Err(Fail::v("startup", format!("server exited during start-up ({}): {}", st, tail(&new))));
                }
                if std::net::TcpStream::connect(("127.0.0.1", self.tcp)).is_ok() && std::net::TcpStream::connect(("127.0.0.1", self.http)).is_ok() {
                    return Ok(());
                }
                if Instant::now() > end {
                    return Err(Fail::Suspect("server did not start listening".into()));
                }
                std::thread::sleep(Duration::from_millis(3));
            }
        }
        Err(Fail::Inconclusive("no usable port".into()))
    }
    pub fn conn(&self) -> Result<Conn, Fail> {
        let mut n = 0;
        loop {
            match Conn::open(self.tcp, self.patience) {
                Ok(c) => return Ok(c),
                Err(e) => {
                    n += 1;
                    if n > 20 {
                        return Err(Fail::Suspect(format!("cannot connect: {}", e)));
                    }
                    std::thread::sleep(Duration::from_millis(100));
                }
            }
        }
    }
    pub fn log(&self) -> String {
        String::from_utf8_lossy(&std::fs::read(self.dir.join("log")).unwrap_or_default()).to_string()
    }
    /// A panic or abort recorded by the server.
    pub fn panicked(&self) -> Option<String> {
        let l = self.log();
        let p = ["panicked at", "memory allocation of", "stack overflow", "has overflowed its stack", "ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "LeakSanitizer"].iter().filter_map(|k| l.find(k)).min()?;
        let s = l[..p].rfind('\n').map(|x| x + 1).unwrap_or(0);
        Some(l[s..].chars().take(600).collect())
    }
    pub fn kill(&mut self) {
        self.expected_dead = true;
        if let Some(c) = self.child.as_mut() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    /// The process dies by itself (armed crash point); true when it did within d.
    pub fn wait_dead(&mut self, d: Duration) -> bool {
        let end = Instant::now() + d;
        while Instant::now() < end {
            if let Some(c) = self.child.as_mut() {
                if let Ok(Some(_)) = c.try_wait() {
                    self.expected_dead = self.ctl.crashed_kind_peek() != 0;
                    return true;
                }
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        false
    }
    pub fn pid(&self) -> u32 {
        self.child.as_ref().map_or(0, |c| c.id())
    }
    pub fn alive(&mut self) -> bool {
        matches!(self.child.as_mut().map(|c| c.try_wait()), Some(Ok(None)))
    }
    /// Kill (if still running) and start again on the same data.
    pub fn restart(&mut self) -> Result<(), Fail> {
        self.kill();
        self.ctl.calm();
        self.ctl.crashed_kind();
        self.boot()
    }
    /// Start a dead server again, keeping armed faults.
    pub fn reboot(&mut self) -> Result<(), Fail> {
        self.boot()
    }
    pub fn died_unexpectedly(&mut self) -> Option<String> {
        if self.expected_dead {
            return None;
        }
        match self.child.as_mut().map(|c| c.try_wait()) {
            Some(Ok(Some(st))) => {
                if self.ctl.crashed_kind_peek() != 0 {
                    None
                } else {
                    Some(format!("server process ended ({}): {}", st, tail(&self.log())))
                }
            }
            _ => None,
        }
    }
    pub fn adv(&self, ms: u64) {
        self.ctl.advance_ms(ms);
    }
    /// Let the server's due timers run (after `adv`); real time only, decides nothing.
    pub fn settle(&self) {
        std::thread::sleep(Duration::from_millis(12));
    }
    /// Every thread of the server is blocked (none runnable or in disk wait).
    pub fn asleep(&self) -> bool {
        let pid = match &self.child {
            Some(c) => c.id(),
            None => return true,
        };
        let rd = match std::fs::read_dir(format!("/proc/{}/task", pid)) {
            Ok(r) => r,
            Err(_) => return true,
        };
        for e in rd.flatten() {
            if let Ok(s) = std::fs::read_to_string(e.path().join("stat")) {
                let st = s.rfind(')').and_then(|p| s[p + 1..].trim_start().chars().next()).unwrap_or('?');
                if st == 'R' || st == 'D' {
                    return false;
                }
            }
        }
        true
    }
    /// The whole server hangs: it answers nobody - an echo on a new connection stays unanswered for 15 s - while none of
    /// its threads wants to run. (A slow machine has runnable threads, a waiting request leaves echoes answered.)
    pub fn stuck(&mut self) -> bool {
        self.ctl.calm();
        std::thread::sleep(Duration::from_millis(300));
        if !self.alive() {
            return false;
        }
        let mut s = match std::net::TcpStream::connect_timeout(&([127, 0, 0, 1], self.tcp).into(), Duration::from_secs(5)) {
            Ok(s) => s,
            Err(_) => return false,
        };
        use std::io::{Read, Write};
        s.set_read_timeout(Some(Duration::from_millis(100))).ok();
        if s.write_all(&crate::proto::frame(1, 0, 1, b"stuck?")).is_err() {
            return false;
        }
        let ops = self.ctl.fileops();
        for _ in 0..150 {
            match s.read(&mut [0u8; 64]) {
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {}
                _ => return false,
            }
            if !self.asleep() {
                return false;
            }
        }
        self.ctl.fileops() == ops
    }
    /// Wait until the server does nothing any more: no file operation for a while and its threads seen blocked
    /// repeatedly in that time. False when it never gets there (within 20 s) - no conclusion then.
    pub fn quiet(&self) -> bool {
        let end = Instant::now() + Duration::from_secs(20);
        let mut last = self.ctl.fileops();
        let mut since = Instant::now();
        let mut seen = 0;
        while Instant::now() < end {
            std::thread::sleep(Duration::from_millis(4));
            let n = self.ctl.fileops();
            if n != last {
                last = n;
                since = Instant::now();
                seen = 0;
                continue;
            }
            if self.asleep() {
                seen += 1;
            }
            if seen >= 8 && since.elapsed() >= Duration::from_millis(50) {
                return true;
            }
        }
        false
    }
    /// Let two complete flush intervals of `ms` pass in quiescence: everything answered before is due on disk.
    pub fn flushed(&self, ms: u64) -> Result<(), Fail> {
        self.ctl.calm();
        for _ in 0..2 {
            if !self.quiet() {
                return Err(Fail::Inconclusive("the server does not come to rest".into()));
            }
            self.adv(ms + 5);
        }
        if !self.quiet() {
            return Err(Fail::Inconclusive("the server does not come to rest".into()));
        }
        Ok(())
    }
    pub fn get_raw(&self, path: &str) -> Result<(u16, Vec<u8>), Fail> {
        let mut last = String::new();
        for _ in 0..2 {
            match http::request(self.http, "GET", path, self.patience) {
                Ok(r) => return Ok(r),
                Err(e) => last = e,
            }
        }
        Err(Fail::Suspect(format!("GET {}: {}", path, last)))
    }
    pub fn get(&self, path: &str) -> Result<Value, Fail> {
        let (st, b) = self.get_raw(path)?;
        if st != 200 {
            return Err(Fail::v("http", format!("GET {} answered status {}: {}", path, st, String::from_utf8_lossy(&b))));
        }
        serde_json::from_slice(&b).map_err(|e| Fail::v("http", format!("GET {}: body is not JSON ({})", path, e)))
    }
}
fn tail(s: &str) -> String {
    let n = s.len().saturating_sub(800);
    s.chars().skip(n.min(s.chars().count())).collect()
}
impl Drop for Server {
    fn drop(&mut self) {
        self.kill();
        if !self.keep {
            let _ = std::fs::remove_dir_all(&self.dir);
        }
    }
}
