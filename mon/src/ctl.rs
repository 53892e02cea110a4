//! Shared control page of libchaos (see ../chaos/chaos.c).
use std::os::unix::fs::PermissionsExt;
use std::os::unix::io::AsRawFd;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

/// Kinds of file operations.
pub mod kind {
    pub const WRITE: u64 = 1 << 1;
    pub const PWRITE: u64 = 1 << 2;
    pub const TRUNC: u64 = 1 << 3;
    pub const RENAME: u64 = 1 << 4;
    pub const UNLINK: u64 = 1 << 5;
    pub const CREAT: u64 = 1 << 6;
    pub const MKDIR: u64 = 1 << 7;
    pub const SYNC: u64 = 1 << 8;
    pub const OPEN: u64 = 1 << 9;
    pub const READ: u64 = 1 << 10;
}

#[repr(C)]
pub struct Page {
    magic: u64,
    clock_mode: AtomicU64,
    mono_base_ns: i64,
    real_base_ns: i64,
    offset_ns: AtomicI64,
    preempt_every_us: AtomicU64,
    preempt_max_us: AtomicU64,
    seed: AtomicU64,
    crash_at: AtomicI64,
    torn_permille: AtomicU64,
    io_delay_permille: AtomicU64,
    io_delay_max_us: AtomicU64,
    n_fileops: AtomicU64,
    n_preempts: AtomicU64,
    n_delays: AtomicU64,
    crashed_kind: AtomicU64,
    kinds: [AtomicU64; 16],
    err_no: AtomicU64,
    err_permille: AtomicU64,
    err_mask: AtomicU64,
    n_errs: AtomicU64,
    gauge_req: AtomicU64,
    gauge_ack: AtomicU64,
    heap_live: AtomicU64,
    fds: AtomicU64,
    threads: AtomicU64,
    root: [u8; 512],
}

pub struct Ctl {
    p: *mut Page,
    pub path: PathBuf,
}
unsafe impl Send for Ctl {}
unsafe impl Sync for Ctl {}

fn now(clock: libc::clockid_t) -> i64 {
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(clock, &mut ts) };
    ts.tv_sec as i64 * 1_000_000_000 + ts.tv_nsec as i64
}

impl Ctl {
    pub fn new(path: &Path, root: &Path, seed: u64) -> std::io::Result<Ctl> {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path)?;
        f.set_len(std::mem::size_of::<Page>() as u64)?;
        std::fs::set_permissions(path, std::fs::Permissions::from_mode(0o666))?;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Page>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        let p = p as *mut Page;
        unsafe {
            (*p).mono_base_ns = now(libc::CLOCK_MONOTONIC);
            (*p).real_base_ns = now(libc::CLOCK_REALTIME);
            (*p).seed.store(seed, SeqCst);
            (*p).crash_at.store(-1, SeqCst);
            let r = root.to_str().unwrap().as_bytes();
            (&mut (*p).root)[..r.len()].copy_from_slice(r);
            (*p).magic = 0x4e45584f43484f53;
        }
        Ok(Ctl { p, path: path.to_path_buf() })
    }
    fn g(&self) -> &Page {
        unsafe { &*self.p }
    }
    /// Virtual time: the server's clocks only move when `advance_ms` is called.
    pub fn freeze(&self) {
        self.g().clock_mode.store(1, SeqCst);
    }
    pub fn advance_ms(&self, ms: u64) {
        self.g().offset_ns.fetch_add(ms as i64 * 1_000_000, SeqCst);
    }
    pub fn virtual_ms(&self) -> u64 {
        (self.g().offset_ns.load(SeqCst) / 1_000_000) as u64
    }
    /// The server's wall clock, in milliseconds since the epoch, at that virtual time (frozen clock).
    pub fn wall_ms(&self, virtual_ms: u64) -> u64 {
        ((self.g().real_base_ns + virtual_ms as i64 * 1_000_000) / 1_000_000) as u64
    }
    pub fn preempt(&self, every_us: u64, max_us: u64) {
        self.g().preempt_max_us.store(max_us, SeqCst);
        self.g().preempt_every_us.store(every_us, SeqCst);
    }
    pub fn io_delay(&self, permille: u64, max_us: u64) {
        self.g().io_delay_max_us.store(max_us, SeqCst);
        self.g().io_delay_permille.store(permille, SeqCst);
    }
    pub fn crash_after(&self, ops: i64, torn_permille: u64) {
        self.g().torn_permille.store(torn_permille, SeqCst);
        self.g().crash_at.store(ops, SeqCst);
    }
    /// File operations of the kinds in `mask` fail with `errno`, each with a probability of permille.
    pub fn errors(&self, errno: i32, permille: u64, mask: u64) {
        self.g().err_no.store(0, SeqCst);
        self.g().err_permille.store(permille, SeqCst);
        self.g().err_mask.store(mask, SeqCst);
        self.g().err_no.store(errno as u64, SeqCst);
    }
    pub fn n_errs(&self) -> u64 {
        self.g().n_errs.load(SeqCst)
    }
    /// Live heap bytes, open descriptors and threads of the server process, as of now.
    pub fn gauges(&self) -> Option<(u64, u64, u64)> {
        let r = self.g().gauge_req.fetch_add(1, SeqCst) + 1;
        let end = std::time::Instant::now() + std::time::Duration::from_secs(10);
        while self.g().gauge_ack.load(SeqCst) != r {
            if std::time::Instant::now() > end {
                return None;
            }
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        let g = self.g();
        Some((g.heap_live.load(SeqCst), g.fds.load(SeqCst), g.threads.load(SeqCst)))
    }
    pub fn calm(&self) {
        self.errors(0, 0, 0);
        self.preempt(0, 0);
        self.io_delay(0, 0);
        self.crash_after(-1, 0);
    }
    pub fn fileops(&self) -> u64 {
        self.g().n_fileops.load(SeqCst)
    }
    pub fn preempts(&self) -> u64 {
        self.g().n_preempts.load(SeqCst)
    }
    pub fn crashed_kind_peek(&self) -> u64 {
        self.g().crashed_kind.load(SeqCst)
    }
    pub fn kinds(&self) -> Vec<u64> {
        self.g().kinds.iter().map(|k| k.load(SeqCst)).collect()
    }
    pub fn crashed_kind(&self) -> u64 {
        self.g().crashed_kind.swap(0, SeqCst)
    }
}
impl Drop for Ctl {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.p as *mut libc::c_void, std::mem::size_of::<Page>()) };
    }
}
