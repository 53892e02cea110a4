// libchaos: LD_PRELOAD instrumentation for the nexo server process (monitoring only; /repo is not modified).
//  * virtual clock      : clock_gettime() = base + offset, advanced by the harness through a shared page
//  * random preemption  : running threads are interrupted by a signal whose handler sleeps, at arbitrary instructions
//  * crash points       : SIGKILL at the N-th file operation under a root, optionally after a torn (partial) write
//  * slow I/O           : random delays before file operations under the root
//  * failing I/O        : file operations under the root fail at random with a given errno, writes possibly after a part of them
#undef _FORTIFY_SOURCE
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <stdatomic.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <malloc.h>
#include <sys/epoll.h>

struct ctl {
  uint64_t magic;
  _Atomic uint64_t clock_mode;     // 0 real+offset, 1 frozen base+offset
  int64_t mono_base_ns;            // used in frozen mode
  int64_t real_base_ns;
  _Atomic int64_t offset_ns;
  _Atomic uint64_t preempt_every_us;
  _Atomic uint64_t preempt_max_us;
  _Atomic uint64_t seed;
  _Atomic int64_t crash_at;        // <0: off; otherwise number of further file operations before SIGKILL
  _Atomic uint64_t torn_permille;  // fraction of the crashing write that reaches the file
  _Atomic uint64_t io_delay_permille;
  _Atomic uint64_t io_delay_max_us;
  _Atomic uint64_t n_fileops;      // out: file operations seen
  _Atomic uint64_t n_preempts;     // out
  _Atomic uint64_t n_delays;       // out
  _Atomic uint64_t crashed_kind;   // out: kind of the operation crashed at (1 write 2 pwrite 3 trunc 4 rename 5 unlink 6 creat 7 mkdir 8 sync)
  _Atomic uint64_t kinds[16];      // out: per kind counters
  _Atomic uint64_t err_no;         // 0: off
  _Atomic uint64_t err_permille;
  _Atomic uint64_t err_mask;       // bit per kind that may fail
  _Atomic uint64_t n_errs;         // out: errors injected
  _Atomic uint64_t gauge_req;      // raised by the harness to have the gauges below taken
  _Atomic uint64_t gauge_ack;      // out: last request served
  _Atomic uint64_t heap_live;      // out: bytes of live heap allocations
  _Atomic uint64_t fds;            // out: open descriptors
  _Atomic uint64_t threads;        // out
  char root[512];
};

static struct ctl *C;
static __thread uint64_t rs;

static long raw_nanosleep_us(uint64_t us) {
  struct timespec t = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 };
  return syscall(SYS_nanosleep, &t, NULL);
}
static uint64_t rnd(void) {
  if (!rs) rs = (C ? atomic_load(&C->seed) : 1) * 0x9E3779B97F4A7C15ull + (uint64_t)syscall(SYS_gettid) * 0xD1342543DE82EF95ull + 1;
  uint64_t z = (rs += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

// ---------------------------------------------------------------- clock
static int is_mono(clockid_t c) { return c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME; }
static int is_real(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI; }
static int (*real_cgt)(clockid_t, struct timespec *);
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!real_cgt) {
    real_cgt = dlsym(RTLD_NEXT, "clock_gettime");
    if (!real_cgt) return (int)syscall(SYS_clock_gettime, id, ts);
  }
  if (C && (is_mono(id) || is_real(id))) {
    int64_t off = atomic_load_explicit(&C->offset_ns, memory_order_acquire);
    int64_t ns;
    if (atomic_load_explicit(&C->clock_mode, memory_order_acquire) == 1) {
      ns = (is_mono(id) ? C->mono_base_ns : C->real_base_ns) + off;
    } else {
      struct timespec t; int r = real_cgt(id, &t); if (r) return r;
      ns = (int64_t)t.tv_sec * 1000000000ll + t.tv_nsec + off;
    }
    ts->tv_sec = ns / 1000000000ll; ts->tv_nsec = ns % 1000000000ll;
    return 0;
  }
  return real_cgt(id, ts);
}

// With a frozen clock a timer that becomes due by advancing it must be noticed soon: poll at least every 2 ms.
static int cap_timeout(int t) {
  if (C && atomic_load_explicit(&C->clock_mode, memory_order_acquire) == 1 && (t < 0 || t > 2)) return 2;
  return t;
}
int epoll_wait(int e, struct epoll_event *ev, int n, int t) {
  return (int)syscall(SYS_epoll_pwait, e, ev, n, cap_timeout(t), NULL, 8) ;
}
int epoll_pwait(int e, struct epoll_event *ev, int n, int t, const sigset_t *s) {
  return (int)syscall(SYS_epoll_pwait, e, ev, n, cap_timeout(t), s, 8);
}

// ---------------------------------------------------------------- preemption
static void on_preempt(int s) {
  (void)s; int e = errno;
  uint64_t m = C ? atomic_load(&C->preempt_max_us) : 0;
  if (m) { atomic_fetch_add(&C->n_preempts, 1); raw_nanosleep_us(rnd() % m + 1); }
  errno = e;
}
static int sig_preempt(void) { return SIGRTMIN + 9; }

static int thread_running(pid_t tid) {
  char p[64]; snprintf(p, sizeof p, "/proc/self/task/%d/stat", tid);
  int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDONLY | O_CLOEXEC, 0);
  if (fd < 0) return 0;
  char b[256]; ssize_t n = syscall(SYS_read, fd, b, sizeof b - 1); syscall(SYS_close, fd);
  if (n <= 0) return 0;
  b[n] = 0; char *q = strrchr(b, ')');
  return q && q[1] == ' ' && q[2] == 'R';
}
static uint64_t entries(const char *dir) {
  uint64_t n = 0; DIR *d = opendir(dir); struct dirent *e;
  if (!d) return 0;
  while ((e = readdir(d))) n += e->d_name[0] != '.';
  closedir(d); return n;
}
static void gauges(void) {
  uint64_t r = atomic_load(&C->gauge_req);
  if (r == atomic_load(&C->gauge_ack)) return;
  atomic_store(&C->fds, entries("/proc/self/fd"));
  atomic_store(&C->threads, entries("/proc/self/task"));
  struct mallinfo2 m = mallinfo2();
  atomic_store(&C->heap_live, (uint64_t)m.uordblks + m.hblkhd);
  atomic_store(&C->gauge_ack, r);
}
static void *preempter(void *a) {
  (void)a;
  pid_t self = (pid_t)syscall(SYS_gettid), pid = getpid();
  pid_t tids[256]; int n = 0; int age = 0;
  sigset_t all; sigfillset(&all); pthread_sigmask(SIG_BLOCK, &all, NULL);
  for (;;) {
    gauges();
    uint64_t ev = atomic_load(&C->preempt_every_us);
    if (!ev) { raw_nanosleep_us(2000); continue; }
    raw_nanosleep_us(rnd() % (2 * ev) + 1);
    if (n == 0 || ++age > 200) {
      age = 0; n = 0;
      DIR *d = opendir("/proc/self/task");
      if (d) { struct dirent *e; while ((e = readdir(d)) && n < 256) { pid_t t = atoi(e->d_name); if (t > 0 && t != self) tids[n++] = t; } closedir(d); }
    }
    if (!n) continue;
    int start = (int)(rnd() % (uint64_t)n);
    for (int i = 0; i < n; i++) {
      pid_t t = tids[(start + i) % n];
      if (thread_running(t)) { syscall(SYS_tgkill, pid, t, sig_preempt()); break; }
    }
  }
  return NULL;
}

// ---------------------------------------------------------------- file operations
#define MAXFD 65536
static unsigned char tracked[MAXFD];

static int under_root_path(int dirfd, const char *path) {
  if (!C || !C->root[0] || !path) return 0;
  size_t l = strlen(C->root);
  if (path[0] == '/') return strncmp(path, C->root, l) == 0;
  if (dirfd == AT_FDCWD) { char b[512]; if (syscall(SYS_getcwd, b, sizeof b) < 0) return 0; return strncmp(b, C->root, l) == 0; }
  return 1;
}
enum { K_WRITE = 1, K_PWRITE, K_TRUNC, K_RENAME, K_UNLINK, K_CREAT, K_MKDIR, K_SYNC, K_OPEN, K_READ };

static void die(int kind) {
  atomic_store(&C->crashed_kind, (uint64_t)kind);
  syscall(SYS_kill, getpid(), SIGKILL);
  for (;;) pause();
}
// returns 1 when the process must crash at this operation
static int file_op(int kind) {
  atomic_fetch_add(&C->n_fileops, 1);
  atomic_fetch_add(&C->kinds[kind], 1);
  if (atomic_load(&C->crash_at) >= 0 && atomic_fetch_sub(&C->crash_at, 1) == 0) return 1;
  uint64_t pm = atomic_load(&C->io_delay_permille);
  if (pm && rnd() % 1000 < pm) {
    uint64_t m = atomic_load(&C->io_delay_max_us);
    if (m) { atomic_fetch_add(&C->n_delays, 1); raw_nanosleep_us(rnd() % m + 1); }
  }
  return 0;
}
// returns 1 when this operation must fail (errno set)
static int fails(int kind) {
  if (!C || !atomic_load_explicit(&C->err_no, memory_order_acquire)) return 0;
  if (!(atomic_load(&C->err_mask) >> kind & 1) || rnd() % 1000 >= atomic_load(&C->err_permille)) return 0;
  int e = (int)atomic_load(&C->err_no);
  if (!e) return 0;
  atomic_fetch_add(&C->n_errs, 1);
  errno = e;
  return 1;
}
// of a failing write this much still gets through (0: none, it fails)
static size_t part(size_t n) { return n > 1 && rnd() % 3 == 0 ? rnd() % (n - 1) + 1 : 0; }
static size_t torn_len(size_t n) { return (size_t)((__uint128_t)n * atomic_load(&C->torn_permille) / 1000); }
#define TRACKED(fd) (C && (fd) >= 0 && (fd) < MAXFD && (tracked[fd] & 1))
#define UNDER(fd) (C && (fd) >= 0 && (fd) < MAXFD && tracked[fd])

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  int u = C && under_root_path(dirfd, path);
  if (u && (flags & O_CREAT)) {
    struct stat st;
    if (fstatat(dirfd, path, &st, 0) != 0) {
      if (file_op(K_CREAT)) die(K_CREAT);
      if (fails(K_CREAT)) return -1;
    }
  }
  if (u && fails(K_OPEN)) return -1;
  int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
  if (fd >= 0 && fd < MAXFD) {
    int w = (flags & O_ACCMODE) != O_RDONLY;
    tracked[fd] = (unsigned char)(u ? (w ? 3 : 2) : 0); // 1: for writing, 2: under the root
  }
  return fd;
}
#define OPEN_MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { OPEN_MODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { OPEN_MODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { OPEN_MODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { OPEN_MODE return do_open(d, p, flags | O_LARGEFILE, mode); }
static int (*real_close)(int);
int close(int fd) {
  if (!real_close) real_close = dlsym(RTLD_NEXT, "close");
  if (fd >= 0 && fd < MAXFD) tracked[fd] = 0;
  return real_close(fd);
}
// with a frozen clock the kernel would stamp files with real time: keep modification times on the virtual clock
static ssize_t stamp(int fd, ssize_t r) {
  if (r > 0 && TRACKED(fd) && atomic_load_explicit(&C->clock_mode, memory_order_acquire) == 1) {
    int e = errno; struct timespec t[2]; clock_gettime(CLOCK_REALTIME, &t[0]); t[1] = t[0];
    syscall(SYS_utimensat, fd, NULL, t, 0); errno = e;
  }
  return r;
}
static ssize_t (*real_write)(int, const void *, size_t);
ssize_t write(int fd, const void *b, size_t n) {
  if (!real_write) real_write = dlsym(RTLD_NEXT, "write");
  if (TRACKED(fd) && file_op(K_WRITE)) { size_t k = torn_len(n); if (k) real_write(fd, b, k); die(K_WRITE); }
  if (TRACKED(fd) && fails(K_WRITE)) { int e = errno; size_t k = part(n); if (k) return stamp(fd, real_write(fd, b, k)); errno = e; return -1; }
  return stamp(fd, real_write(fd, b, n));
}
static ssize_t (*real_read)(int, void *, size_t);
ssize_t read(int fd, void *b, size_t n) {
  if (!real_read) real_read = dlsym(RTLD_NEXT, "read");
  if (UNDER(fd) && fails(K_READ)) return -1;
  return real_read(fd, b, n);
}
static ssize_t do_pread(int fd, void *b, size_t n, off_t o) {
  if (UNDER(fd) && fails(K_READ)) return -1;
  return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_pread(fd, b, n, o); }
static DIR *(*real_opendir)(const char *);
DIR *opendir(const char *p) {
  if (!real_opendir) real_opendir = dlsym(RTLD_NEXT, "opendir");
  if (under_root_path(AT_FDCWD, p) && fails(K_OPEN)) return NULL;
  return real_opendir(p);
}
static ssize_t (*real_writev)(int, const struct iovec *, int);
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!real_writev) real_writev = dlsym(RTLD_NEXT, "writev");
  if (TRACKED(fd) && file_op(K_WRITE)) { if (c > 0) { size_t k = torn_len(v[0].iov_len); if (k) syscall(SYS_write, fd, v[0].iov_base, k); } die(K_WRITE); }
  if (TRACKED(fd) && fails(K_WRITE)) { int e = errno; size_t k = c > 0 ? part(v[0].iov_len) : 0; if (k) return stamp(fd, syscall(SYS_write, fd, v[0].iov_base, k)); errno = e; return -1; }
  return stamp(fd, real_writev(fd, v, c));
}
static ssize_t do_pwrite(int fd, const void *b, size_t n, off_t o) {
  if (TRACKED(fd) && file_op(K_PWRITE)) { size_t k = torn_len(n); if (k) syscall(SYS_pwrite64, fd, b, k, o); die(K_PWRITE); }
  if (TRACKED(fd) && fails(K_PWRITE)) { int e = errno; size_t k = part(n); if (k) return stamp(fd, syscall(SYS_pwrite64, fd, b, k, o)); errno = e; return -1; }
  return stamp(fd, syscall(SYS_pwrite64, fd, b, n, o));
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_pwrite(fd, b, n, o); }
int ftruncate(int fd, off_t l) { if (TRACKED(fd) && file_op(K_TRUNC)) die(K_TRUNC); if (TRACKED(fd) && fails(K_TRUNC)) return -1; return (int)syscall(SYS_ftruncate, fd, l); }
int ftruncate64(int fd, off64_t l) { if (TRACKED(fd) && file_op(K_TRUNC)) die(K_TRUNC); if (TRACKED(fd) && fails(K_TRUNC)) return -1; return (int)syscall(SYS_ftruncate, fd, l); }
int fsync(int fd) { if (TRACKED(fd) && file_op(K_SYNC)) die(K_SYNC); if (TRACKED(fd) && fails(K_SYNC)) return -1; return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (TRACKED(fd) && file_op(K_SYNC)) die(K_SYNC); if (TRACKED(fd) && fails(K_SYNC)) return -1; return (int)syscall(SYS_fdatasync, fd); }
int rename(const char *a, const char *b) { if (C && under_root_path(AT_FDCWD, b) && file_op(K_RENAME)) die(K_RENAME); if (under_root_path(AT_FDCWD, b) && fails(K_RENAME)) return -1; return (int)syscall(SYS_rename, a, b); }
int unlink(const char *a) { if (C && under_root_path(AT_FDCWD, a) && file_op(K_UNLINK)) die(K_UNLINK); if (under_root_path(AT_FDCWD, a) && fails(K_UNLINK)) return -1; return (int)syscall(SYS_unlink, a); }
int unlinkat(int d, const char *a, int f) { if (C && under_root_path(d, a) && file_op(K_UNLINK)) die(K_UNLINK); if (under_root_path(d, a) && fails(K_UNLINK)) return -1; return (int)syscall(SYS_unlinkat, d, a, f); }
int rmdir(const char *a) { if (C && under_root_path(AT_FDCWD, a) && file_op(K_UNLINK)) die(K_UNLINK); if (under_root_path(AT_FDCWD, a) && fails(K_UNLINK)) return -1; return (int)syscall(SYS_rmdir, a); }
int mkdir(const char *a, mode_t m) { if (C && under_root_path(AT_FDCWD, a) && file_op(K_MKDIR)) die(K_MKDIR); if (under_root_path(AT_FDCWD, a) && fails(K_MKDIR)) return -1; return (int)syscall(SYS_mkdir, a, m); }

__attribute__((constructor)) static void init(void) {
  real_cgt = dlsym(RTLD_NEXT, "clock_gettime");
  real_close = dlsym(RTLD_NEXT, "close");
  real_write = dlsym(RTLD_NEXT, "write");
  real_writev = dlsym(RTLD_NEXT, "writev");
  const char *p = getenv("NEXO_CHAOS_CTL");
  if (!p) return;
  int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDWR | O_CLOEXEC, 0);
  if (fd < 0) { perror("chaos ctl"); _exit(97); }
  void *m = mmap(NULL, sizeof(struct ctl), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  syscall(SYS_close, fd);
  if (m == MAP_FAILED) { perror("chaos mmap"); _exit(97); }
  struct ctl *c = m;
  if (c->magic != 0x4e45584f43484f53ull) { fprintf(stderr, "chaos: bad ctl page\n"); _exit(97); }
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_preempt; sa.sa_flags = SA_RESTART; sigfillset(&sa.sa_mask);
  sigaction(sig_preempt(), &sa, NULL);
  C = c;
  pthread_t t; pthread_create(&t, NULL, preempter, NULL); pthread_detach(t);
}
