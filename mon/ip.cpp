#include "ip.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <execinfo.h>
#include <sys/syscall.h>
#include <unordered_map>

extern "C" void AnnotateIgnoreReadsBegin(const char *, int) __attribute__((weak));
extern "C" void AnnotateIgnoreReadsEnd(const char *, int) __attribute__((weak));
#define REAL(ret, name, args) extern "C" ret __real_##name args
REAL(int, open, (const char *, int, ...));
REAL(int, open64, (const char *, int, ...));
REAL(int, openat, (int, const char *, int, ...));
REAL(int, creat, (const char *, mode_t));
REAL(int, close, (int));
REAL(ssize_t, read, (int, void *, size_t));
REAL(ssize_t, pread, (int, void *, size_t, off_t));
REAL(ssize_t, write, (int, const void *, size_t));
REAL(ssize_t, pwrite, (int, const void *, size_t, off_t));
REAL(ssize_t, writev, (int, const struct iovec *, int));
REAL(int, ftruncate, (int, off_t));
REAL(int, truncate, (const char *, off_t));
REAL(int, unlink, (const char *));
REAL(int, unlinkat, (int, const char *, int));
REAL(int, remove, (const char *));
REAL(int, rename, (const char *, const char *));
REAL(int, link, (const char *, const char *));
REAL(int, symlink, (const char *, const char *));
REAL(int, mkdir, (const char *, mode_t));
REAL(int, rmdir, (const char *));
REAL(int, chmod, (const char *, mode_t));
REAL(void *, mmap, (void *, size_t, int, int, int, off_t));
REAL(int, munmap, (void *, size_t));
REAL(int, fcntl, (int, int, ...));
REAL(int, fstat, (int, struct stat *));
REAL(int, stat, (const char *, struct stat *));
REAL(int, lstat, (const char *, struct stat *));
REAL(DIR *, opendir, (const char *));
REAL(int, closedir, (DIR *));
REAL(struct dirent *, readdir, (DIR *));
REAL(int, fsync, (int));
REAL(int, fdatasync, (int));
REAL(void *, malloc, (size_t));
REAL(void *, calloc, (size_t, size_t));
REAL(void *, realloc, (void *, size_t));
REAL(void, free, (void *));
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t *));
REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t *));
REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t *));
REAL(int, pthread_rwlock_destroy, (pthread_rwlock_t *));
REAL(int, pthread_mutex_destroy, (pthread_mutex_t *));
REAL(int, pthread_mutex_lock, (pthread_mutex_t *));
REAL(int, pthread_mutex_unlock, (pthread_mutex_t *));

namespace ip {
const char *cls_name[NCLS] = {"open", "read", "pread", "write", "ftruncate", "unlink", "mkdir", "rmdir", "mmap", "munmap",
                              "close", "fcntl", "fstat", "stat", "opendir", "readdir", "rename", "fsync", "truncate"};
struct Spin {
  std::atomic_flag f = ATOMIC_FLAG_INIT;
  void lock() { while (f.test_and_set(std::memory_order_acquire)) sched_yield(); }
  void unlock() { f.clear(std::memory_order_release); }
};
// The guard also hides the ledgers' own memory from ThreadSanitizer: its
// interceptors (malloc, memset) see them, but not the spin lock.
struct SG {
  Spin &s;
  SG(Spin &x) : s(x) { s.lock(); if (AnnotateIgnoreReadsBegin) AnnotateIgnoreReadsBegin(__FILE__, __LINE__); }
  ~SG() { if (AnnotateIgnoreReadsEnd) AnnotateIgnoreReadsEnd(__FILE__, __LINE__); s.unlock(); }
};
static Spin g_mu;  // protects everything below except atomics

static std::string g_root;
static std::vector<std::string> g_escapes, g_effects;
bool log_effects = false;
void (*on_mut)(const Op &) = nullptr;
void (*on_sync)(const char *path) = nullptr;
std::atomic<long> n_alloc{0}, n_sys{0}, n_readbytes{0}, n_lock{0}, n_delay{0}, n_contended{0};
std::atomic<int> jitter_permille{0};

// fd table
struct FdInfo { char *path; bool ours; bool urandom; };
static FdInfo g_fd[4096];
static long g_open_fds = 0, g_max_fds = 0, g_dirs = 0;

static std::string abspath(const char *p) {
  std::string s;
  if (p[0] != '/') { char b[8192]; if (getcwd(b, sizeof b)) s = b; s += "/"; }
  s += p;
  std::vector<std::string> comp;
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('/', i);
    if (j == std::string::npos) j = s.size();
    std::string c = s.substr(i, j - i);
    if (c == "..") { if (!comp.empty()) comp.pop_back(); }
    else if (!c.empty() && c != ".") comp.push_back(c);
    i = j + 1;
  }
  std::string o;
  for (auto &c : comp) o += "/" + c;
  return o.empty() ? "/" : o;
}
static bool under(const std::string &a) {
  return a.size() >= g_root.size() && a.compare(0, g_root.size(), g_root) == 0 && (a.size() == g_root.size() || a[g_root.size()] == '/');
}
void set_guard(const std::string &root) { g_root = abspath(root.c_str()); }
// returns false when refused
static bool guard(const char *verb, const char *path) {
  if (g_root.empty() || !path) return true;
  std::string a = abspath(path);
  if (under(a)) return true;
  if (a == "/dev/urandom" || a == "/dev/random" || a == "/dev/null") return true;
  SG g(g_mu);
  if (g_escapes.size() < 100) g_escapes.push_back(std::string(verb) + " " + a);
  return false;
}
static void effect(const char *verb, const char *path) {
  if (!log_effects) return;
  std::string a = abspath(path);
  SG g(g_mu);
  g_effects.push_back(std::string(verb) + " " + a);
}
std::vector<std::string> take_escapes() { SG g(g_mu); auto v = g_escapes; g_escapes.clear(); return v; }
std::vector<std::string> take_effects() { SG g(g_mu); auto v = g_effects; g_effects.clear(); return v; }

// ---- faults
static bool f_armed = false, f_random = false;
static Fault f_plan;
static Rng f_rng(1);
static unsigned f_permille = 0;
static uint32_t f_mask = 0;
static long f_fired = 0, f_left = 0;
static bool f_pending = false;
static long f_calls[NCLS];
static long f_total = 0;
static std::string f_last;
void arm(const Fault &f) { f_plan = f; f_armed = true; f_random = false; f_fired = 0; f_left = 0; f_pending = false; reset_calls(); f_last.clear(); }
void arm_random(uint64_t seed, unsigned pm, uint32_t mask) { f_rng = Rng(seed); f_permille = pm; f_mask = mask; f_random = true; f_armed = true; f_fired = 0; f_pending = false; reset_calls(); f_last.clear(); }
void disarm() { f_armed = false; f_random = false; f_pending = false; f_left = 0; }
long fired() { return f_fired; }
long calls(int c) { return c < 0 ? f_total : f_calls[c]; }
void reset_calls() { memset(f_calls, 0, sizeof f_calls); f_total = 0; }
std::string last_fault() { return f_last; }
static int rnd_errno(int cls) {
  static const int W[] = {ENOSPC, EIO, EDQUOT, EFBIG}, O[] = {EMFILE, ENFILE, EACCES, EIO, ENOMEM}, M[] = {ENOMEM, EAGAIN, ENODEV}, S[] = {EIO, EACCES, ENOMEM}, R[] = {EIO, EBADF};
  switch (cls) {
    case C_WRITE: return W[f_rng.below(4)];
    case C_OPEN: case C_OPENDIR: return O[f_rng.below(5)];
    case C_MMAP: return M[f_rng.below(3)];
    case C_STAT: case C_FSTAT: return S[f_rng.below(3)];
    default: return R[f_rng.below(2)];
  }
}
// Returns true if this call must fail (errno set). *cap (if given) may be set to a short length.
static bool fault(int cls, const char *what, size_t *cap = nullptr) {
  n_sys.fetch_add(1, std::memory_order_relaxed);
  f_calls[cls]++;
  f_total++;
  if (!f_armed) return false;
  if (f_random) {
    if (!(f_mask >> cls & 1)) return false;
    if (f_rng.below(1000) >= f_permille) return false;
    if (cap && *cap > 1 && f_rng.chance(40)) { *cap = 1 + f_rng.below(*cap - 1); return false; }
    f_fired++;
    errno = rnd_errno(cls);
    f_last = std::string(cls_name[cls]) + "(" + what + ")=" + std::to_string(errno);
    return true;
  }
  if (f_pending && (f_plan.cls < 0 || cls == f_plan.cls)) {
    f_pending = false;
    f_left = f_plan.repeat < 0 ? -1 : f_plan.repeat;
  }
  if (f_left != 0 && (f_plan.cls < 0 || cls == f_plan.cls)) {
    if (f_left > 0) f_left--;
    f_fired++;
    errno = f_plan.err;
    f_last = std::string(cls_name[cls]) + "(" + what + ")=" + std::to_string(errno);
    return true;
  }
  long n = f_plan.cls < 0 ? f_total : f_calls[cls];
  if ((f_plan.cls < 0 || cls == f_plan.cls) && n == f_plan.nth && f_fired == 0) {
    if (f_plan.partial > 0 && cap) {
      if (*cap > 1) { if ((size_t)f_plan.partial < *cap) *cap = f_plan.partial; else *cap -= 1; f_pending = true; return false; }
    }
    f_left = f_plan.repeat < 0 ? -1 : f_plan.repeat - 1;
    f_fired++;
    errno = f_plan.err;
    f_last = std::string(cls_name[cls]) + "(" + what + ")=" + std::to_string(errno);
    return true;
  }
  return false;
}
// ---- short I/O
static bool s_on = false;
static Rng s_rng(1);
static unsigned s_pct, s_eintr;
long n_short = 0, n_eintr = 0;
void set_short(bool on, uint64_t seed, unsigned pct, unsigned ei) { s_on = on; s_rng = Rng(seed); s_pct = pct; s_eintr = ei; }
static bool shortio(size_t *n) {  // true: EINTR
  if (!s_on) return false;
  if (s_rng.chance(s_eintr)) { n_eintr++; errno = EINTR; return true; }
  if (n && *n > 1 && s_rng.chance(s_pct)) { *n = 1 + s_rng.below(*n - 1); n_short++; }
  return false;
}
// ---- deterministic random
static bool d_on = false;
static Rng d_rng(1);
void set_det_random(bool on, uint64_t seed) { d_on = on; d_rng = Rng(seed); }

bool count_mapreads = false;
long n_mapread = 0;
static std::map<uintptr_t, size_t> map_ranges;
// ---- allocation ledger
struct AllocRec { void *p; size_t n; void *site[4]; size_t seq; };
extern "C" void __msan_poison(const void *, size_t) __attribute__((weak));
extern "C" long __msan_test_shadow(const void *, size_t) __attribute__((weak));
std::atomic<long> n_unknown{0}, n_slack{0};
static void fresh(void *p, size_t n) {
  // under MemorySanitizer only the library's own allocations start uninitialised
  if (!p || !n || !__msan_poison) return;
  __msan_poison(p, n);
  if (__msan_test_shadow && __msan_test_shadow(p, n) == 0) n_unknown += n;
}
// the allocator may give the block to a monitor next, whose allocations are taken as initialised
extern "C" void __msan_unpoison(const void *, size_t) __attribute__((weak));
static void stale(void *p, size_t n) {
  if (p && n && __msan_unpoison) __msan_unpoison(p, n);
}
static Spin a_mu;
static std::unordered_map<void *, AllocRec> *a_map;
static size_t a_seq = 0, a_bytes = 0;
static bool a_on = true;
long fail_alloc_after = -1;
static void a_add(void *p, size_t n, void *site) {
  if (!p || !a_on) return;
  n_alloc.fetch_add(1, std::memory_order_relaxed);
  SG g(a_mu);
  if (!a_map) a_map = new std::unordered_map<void *, AllocRec>();
  AllocRec r{p, n, {site, 0, 0, 0}, a_seq++};
#ifndef NO_FP_WALK
  void **fp = (void **)__builtin_frame_address(0);
  void **f1 = (void **)fp[0];  // frame of wrapper
  for (int i = 1; i < 4 && f1 > fp && (char *)f1 - (char *)fp < 100000; i++) {
    r.site[i] = f1[1];
    void **nx = (void **)f1[0];
    if (nx <= f1 || (char *)nx - (char *)f1 > 1000000) break;
    f1 = nx;
  }
#endif
  (*a_map)[p] = r;
  a_bytes += n;
}
static size_t a_del(void *p) {
  if (!p || !a_on) return 0;
  SG g(a_mu);
  if (!a_map) return 0;
  auto it = a_map->find(p);
  if (it == a_map->end()) return 0;
  size_t n = it->second.n;
  a_map->erase(it);
  a_bytes -= n;
  return n;
}
// ---- mapping ledger
struct MapRec { void *p; size_t n; size_t seq; };
static Spin m_mu;
static std::unordered_map<void *, MapRec> *m_map;

Res live() {
  Res r;
  { SG g(a_mu); r.allocs = a_map ? (long)a_map->size() : 0; r.bytes = a_bytes; }
  { SG g(m_mu); r.maps = m_map ? (long)m_map->size() : 0; }
  SG g(g_mu);
  r.fds = g_open_fds;
  r.dirs = g_dirs;
  return r;
}
size_t mark() { SG g(a_mu); return a_seq; }
extern "C" void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out, size_t n) __attribute__((weak));
static std::string sym(void *pc) {
  if (!pc) return "";
  char b[512];
  if (__sanitizer_symbolize_pc) { __sanitizer_symbolize_pc((char *)pc - 1, "%f", b, sizeof b); b[511] = 0; return b; }
  snprintf(b, sizeof b, "%p", pc);
  return b;
}
std::string leak_report(size_t since) {
  std::vector<AllocRec> v;
  { SG g(a_mu); if (a_map) for (auto &e : *a_map) if (e.second.seq >= since) v.push_back(e.second); }
  std::string s;
  size_t k = 0;
  for (auto &r : v) {
    if (k++ == 3) break;
    s += "[" + std::to_string(r.n) + "B allocated in";
    for (void *p : r.site) if (p) s += " " + sym(p);
    s += "] ";
  }
  std::vector<std::string> fds;
  { SG g(g_mu); for (auto &f : g_fd) if (f.ours && f.path) fds.push_back(f.path); }
  for (auto &f : fds) s += "[fd " + f + "] ";
  return s;
}
long max_wr_fds() { SG g(g_mu); return g_max_fds; }
void reset_max_fds() { SG g(g_mu); g_max_fds = g_open_fds; }

static void fd_opened(int fd, const char *path) {
  if (fd < 0 || fd >= 4096) return;
  SG g(g_mu);
  g_fd[fd].path = (char *)__real_malloc(strlen(path) + 1);
  strcpy(g_fd[fd].path, path);
  g_fd[fd].ours = true;
  g_fd[fd].urandom = !strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random");
  g_open_fds++;
  if (g_open_fds > g_max_fds) g_max_fds = g_open_fds;
}
static const char *fd_path(int fd) { return fd >= 0 && fd < 4096 && g_fd[fd].ours ? g_fd[fd].path : ""; }

// ---- threads
struct Held { std::atomic<void *> l; std::atomic<int> mode; };
struct TS {
  std::atomic<int> state;  // 0 unused 1 run 2 wait 3 done
  std::atomic<void *> lock;
  std::atomic<int> mode;
  std::atomic<uint64_t> epoch;
  Held held[32];
  Rng rng;
};
static TS g_ts[128];
static __thread TS *t_self;
void thread_begin(int slot, uint64_t seed) {
  TS *t = &g_ts[slot];
  t->rng = Rng(seed);
  t->state.store(1, std::memory_order_relaxed);
  t_self = t;
}
void threads_reset(int n) {
  for (int i = 0; i < 128; i++) {
    for (auto &h : g_ts[i].held) h.l.store(nullptr, std::memory_order_relaxed);
    g_ts[i].state.store(i < n ? 1 : 0, std::memory_order_release);
  }
}
void thread_end() {
  if (t_self) t_self->state.store(3, std::memory_order_relaxed);
  t_self = nullptr;
}
static void nap(unsigned us) {
  struct timespec ts = {0, (long)us * 1000};
  nanosleep(&ts, nullptr);
}
void (*on_sched)();
void sched_point() {
  TS *t = t_self;
  if (!t) return;
  if (on_sched) on_sched();
  t->epoch.fetch_add(1, std::memory_order_relaxed);
  int j = jitter_permille.load(std::memory_order_relaxed);
  if (!j || (int)t->rng.below(1000) >= j) return;
  n_delay.fetch_add(1, std::memory_order_relaxed);
  switch (t->rng.below(4)) {
    case 0: case 1: sched_yield(); break;
    case 2: nap(1 + t->rng.below(20)); break;
    case 3: nap(20 + t->rng.below(300)); break;
  }
}
static void lk_wait(void *l, int mode) {
  n_lock.fetch_add(1, std::memory_order_relaxed);
  sched_point();
  TS *t = t_self;
  if (!t) return;
  t->lock.store(l, std::memory_order_relaxed);
  t->mode.store(mode, std::memory_order_relaxed);
  t->state.store(2, std::memory_order_release);
}
static void lk_got(void *l, int mode) {
  TS *t = t_self;
  if (!t) return;
  for (auto &h : t->held)
    if (!h.l.load(std::memory_order_relaxed)) { h.mode.store(mode, std::memory_order_relaxed); h.l.store(l, std::memory_order_release); break; }
  t->state.store(1, std::memory_order_release);
  t->epoch.fetch_add(1, std::memory_order_relaxed);
}
static void lk_rel(void *l) {
  TS *t = t_self;
  if (t) {
    for (auto &h : t->held)
      if (h.l.load(std::memory_order_relaxed) == l) { h.l.store(nullptr, std::memory_order_release); return; }
  }
  // released by another thread than the acquirer
  for (auto &o : g_ts)
    for (auto &h : o.held)
      if (h.l.load(std::memory_order_relaxed) == l && h.mode.load() == 0) { h.l.store(nullptr, std::memory_order_release); return; }
}
// Lock discipline.  What is released must be held, what is destroyed must not be,
// and a process's only thread must not wait for a lock nobody else could release.
static void lk_misuse(const char *what) {
  static char b[200];
  int n = snprintf(b, sizeof b, "LOCK MISUSE: %s\n", what);
  if (write(2, b, n) < 0) {}
  abort();
}
static bool lk_alone() {
  if (t_self) return false;
  for (auto &t : g_ts) { int s = t.state.load(std::memory_order_relaxed); if (s == 1 || s == 2) return false; }
  return true;
}
static void lk_check_rel(pthread_rwlock_t *l) {
  auto &d = l->__data;
  if (__atomic_load_n(&d.__cur_writer, __ATOMIC_RELAXED) != (int)syscall(SYS_gettid) && __atomic_load_n(&d.__readers, __ATOMIC_RELAXED) >> 3 == 0)
    lk_misuse("a read-write lock is released that this thread does not hold");
}
static void lk_check_rel(pthread_mutex_t *l) {
  if (__atomic_load_n(&l->__data.__lock, __ATOMIC_RELAXED) == 0) lk_misuse("a mutex is released that is not held");
}
bool deadlocked(std::string *why) {
  int waiting = 0;
  std::string w;
  for (int i = 0; i < 128; i++) {
    TS &t = g_ts[i];
    int s = t.state.load(std::memory_order_acquire);
    if (s == 1) return false;
    if (s != 2) continue;
    waiting++;
    void *l = t.lock.load(std::memory_order_relaxed);
    int m = t.mode.load(std::memory_order_relaxed);
    bool conf = false;
    for (int k = 0; k < 128 && !conf; k++) {
      TS &o = g_ts[k];
      if (o.state.load() != 2 && o.state.load() != 3) continue;
      for (auto &h : o.held)
        if (h.l.load() == l && (m == 1 || h.mode.load() == 1)) {
          conf = true;
          w += " T" + std::to_string(i) + (m ? " waits to write-lock " : " waits to read-lock ") + "a lock " + (h.mode.load() ? "write-held" : "read-held") + " by T" + std::to_string(k) + (o.state.load() == 3 ? " (finished)" : "") + ";";
          break;
        }
    }
    if (!conf) return false;
  }
  if (why) *why = w;
  return waiting > 0;
}
bool all_done(int n) {
  for (int i = 0; i < n; i++) if (g_ts[i].state.load(std::memory_order_acquire) != 3) return false;
  return true;
}
uint64_t epochs() {
  uint64_t s = 0;
  for (auto &t : g_ts) s += t.epoch.load(std::memory_order_relaxed);
  return s;
}
uint64_t now_ns() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (uint64_t)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}
// ---- raw helpers
bool read_file(const std::string &p, Bytes &out) {
  int fd = __real_open(p.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) return false;
  struct stat st;
  __real_fstat(fd, &st);
  out.resize(st.st_size);
  size_t o = 0;
  while (o < out.size()) { ssize_t n = __real_pread(fd, out.data() + o, out.size() - o, o); if (n <= 0) break; o += n; }
  out.resize(o);
  __real_close(fd);
  return true;
}
bool write_file(const std::string &p, const void *d, size_t n) {
  int fd = __real_open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0640);
  if (fd < 0) return false;
  size_t o = 0;
  while (o < n) { ssize_t k = __real_write(fd, (const char *)d + o, n - o); if (k <= 0) break; o += k; }
  __real_close(fd);
  return o == n;
}
std::vector<std::string> list_dir(const std::string &d) {
  std::vector<std::string> v;
  DIR *dp = __real_opendir(d.c_str());
  if (!dp) return v;
  while (struct dirent *e = __real_readdir(dp)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) v.push_back(e->d_name);
  __real_closedir(dp);
  return v;
}
DirImage read_dir(const std::string &d) {
  DirImage im;
  for (auto &n : list_dir(d)) {
    struct stat st;
    if (__real_lstat((d + "/" + n).c_str(), &st) || !S_ISREG(st.st_mode)) continue;
    read_file(d + "/" + n, im[n]);
  }
  return im;
}
size_t file_size(const std::string &p) { struct stat st; return __real_lstat(p.c_str(), &st) ? 0 : (size_t)st.st_size; }
bool exists(const std::string &p) { struct stat st; return __real_lstat(p.c_str(), &st) == 0; }
void mkdir_p(const std::string &p) {
  for (size_t i = 1; i <= p.size(); i++)
    if (i == p.size() || p[i] == '/') __real_mkdir(p.substr(0, i).c_str(), 0755);
}
static void rm_rec(const std::string &p) {
  struct stat st;
  if (__real_lstat(p.c_str(), &st)) return;
  if (S_ISDIR(st.st_mode)) {
    for (auto &n : list_dir(p)) rm_rec(p + "/" + n);
    __real_rmdir(p.c_str());
  } else __real_unlink(p.c_str());
}
void rm_rf(const std::string &p) {
  std::string a = abspath(p.c_str());
  if (g_root.size() < 4 || !under(a)) { fprintf(stderr, "harness: refusing to remove %s\n", a.c_str()); _exit(4); }
  rm_rec(a);
}
void write_dir(const std::string &d, const DirImage &im) {
  rm_rf(d);
  mkdir_p(d);
  for (auto &e : im) write_file(d + "/" + e.first, e.second.data(), e.second.size());
}
int nfds() { return (int)list_dir("/proc/self/fd").size() - 1; }

static void mut(int cls, const char *path, int fd, const void *data, size_t len, int64_t off, int flags) {
  if (on_mut) { Op o{cls, path, fd, data, len, off, flags}; on_mut(o); }
}
}  // namespace ip
using namespace ip;

// What a mapping has beyond the length asked for is nobody's to read.
extern "C" void __asan_poison_memory_region(void const volatile *, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
static void map_slack(void *p, size_t n, bool on) {
  size_t k = (4096 - n % 4096) % 4096;
  if (!k || !n || !__asan_poison_memory_region) return;
  if (on) { __asan_poison_memory_region((char *)p + n, k); n_slack.fetch_add(1, std::memory_order_relaxed); }
  else __asan_unpoison_memory_region((char *)p + n, k);
}
bool ip::old_kernel = false;
long ip::n_old_kernel = 0;
static int do_open(const char *path, int flags, mode_t mode) {
  bool wr = (flags & (O_CREAT | O_TRUNC | O_APPEND)) || (flags & O_ACCMODE) != O_RDONLY;
  sched_point();
  if (wr && !guard("open-for-write", path)) { errno = EACCES; return -1; }
  if (shortio(nullptr)) return -1;
  if (old_kernel && (flags & O_CLOEXEC)) { n_old_kernel++; errno = EINVAL; return -1; }
  if (fault(C_OPEN, path)) return -1;
  bool fresh = (flags & O_CREAT) && !ip::exists(path);
  if (fresh || (flags & O_TRUNC)) mut(C_OPEN, path, -1, nullptr, 0, 0, flags);
  int fd = __real_open(path, flags, mode);
  if (fd >= 0) { fd_opened(fd, path); if (fresh) effect("create", path); else if (wr) effect("openw", path); }
  return fd;
}
extern "C" {
int __wrap_open(const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  return do_open(path, flags, mode);
}
int __wrap_open64(const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  return do_open(path, flags, mode);
}
int __wrap_openat(int dfd, const char *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
  if (dfd == AT_FDCWD || path[0] == '/') return do_open(path, flags, mode);
  return __real_openat(dfd, path, flags, mode);
}
int __wrap_creat(const char *path, mode_t mode) { return do_open(path, O_CREAT | O_TRUNC | O_WRONLY, mode); }
int __wrap_close(int fd) {
  sched_point();
  // a failing close still releases the descriptor
  bool f = fault(C_CLOSE, fd_path(fd));
  int e = errno;
  if (fd >= 0 && fd < 4096) {
    SG g(g_mu);
    if (g_fd[fd].ours) { g_open_fds--; __real_free(g_fd[fd].path); g_fd[fd].path = nullptr; g_fd[fd].ours = false; g_fd[fd].urandom = false; }
  }
  int r = __real_close(fd);
  if (f) { errno = e; return -1; }
  return r;
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (d_on && fd >= 0 && fd < 4096 && g_fd[fd].urandom) {
    if (shortio(&n)) return -1;
    d_rng.fill(b, n);
    return n;
  }
  sched_point();
  if (shortio(&n)) return -1;
  if (fault(C_READ, fd_path(fd), &n)) return -1;
  n_readbytes.fetch_add(n, std::memory_order_relaxed);
  return __real_read(fd, b, n);
}
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) {
  sched_point();
  if (shortio(&n)) return -1;
  if (fault(C_PREAD, fd_path(fd), &n)) return -1;
  n_readbytes.fetch_add(n, std::memory_order_relaxed);
  return __real_pread(fd, b, n, o);
}
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
ssize_t __wrap_write(int fd, const void *b, size_t n) {
  sched_point();
  if (shortio(&n)) return -1;
  if (fault(C_WRITE, fd_path(fd), &n)) return -1;
  mut(C_WRITE, fd_path(fd), fd, b, n, -1, 0);
  return __real_write(fd, b, n);
}
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) {
  sched_point();
  if (shortio(&n)) return -1;
  if (fault(C_WRITE, fd_path(fd), &n)) return -1;
  mut(C_WRITE, fd_path(fd), fd, b, n, o, 0);
  return __real_pwrite(fd, b, n, o);
}
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { return __wrap_pwrite(fd, b, n, o); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) {
  // deliver the vector one element at a time (legal short counts)
  for (int i = 0; i < c; i++) if (v[i].iov_len) return __wrap_write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
int __wrap_ftruncate(int fd, off_t n) {
  sched_point();
  if (fault(C_FTRUNC, fd_path(fd))) return -1;
  mut(C_FTRUNC, fd_path(fd), fd, nullptr, n, n, 0);
  return __real_ftruncate(fd, n);
}
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_truncate(const char *p, off_t n) {
  if (!guard("truncate", p)) { errno = EACCES; return -1; }
  if (fault(C_TRUNC, p)) return -1;
  mut(C_TRUNC, p, -1, nullptr, n, n, 0);
  int r = __real_truncate(p, n);
  if (!r) effect("truncate", p);
  return r;
}
int __wrap_unlink(const char *p) {
  sched_point();
  if (!guard("unlink", p)) { errno = EACCES; return -1; }
  if (fault(C_UNLINK, p)) return -1;
  mut(C_UNLINK, p, -1, nullptr, 0, 0, 0);
  int r = __real_unlink(p);
  if (!r) effect("unlink", p);
  return r;
}
int __wrap_unlinkat(int d, const char *p, int f) {
  if (d == AT_FDCWD || p[0] == '/') return f & AT_REMOVEDIR ? __real_rmdir(p) : __wrap_unlink(p);
  return __real_unlinkat(d, p, f);
}
int __wrap_remove(const char *p) {
  if (!guard("remove", p)) { errno = EACCES; return -1; }
  if (fault(C_UNLINK, p)) return -1;
  mut(C_UNLINK, p, -1, nullptr, 0, 0, 0);
  int r = __real_remove(p);
  if (!r) effect("unlink", p);
  return r;
}
int __wrap_rename(const char *a, const char *b) {
  if (!guard("rename", a) || !guard("rename", b)) { errno = EACCES; return -1; }
  if (fault(C_RENAME, a)) return -1;
  mut(C_RENAME, a, -1, b, 0, 0, 0);
  int r = __real_rename(a, b);
  if (!r) { effect("unlink", a); effect("create", b); }
  return r;
}
int __wrap_link(const char *a, const char *b) {
  if (!guard("link", b)) { errno = EACCES; return -1; }
  int r = __real_link(a, b);
  if (!r) effect("create", b);
  return r;
}
int __wrap_symlink(const char *a, const char *b) {
  if (!guard("symlink", b)) { errno = EACCES; return -1; }
  int r = __real_symlink(a, b);
  if (!r) effect("create", b);
  return r;
}
int __wrap_mkdir(const char *p, mode_t m) {
  sched_point();
  if (!guard("mkdir", p)) { errno = EACCES; return -1; }
  if (fault(C_MKDIR, p)) return -1;
  mut(C_MKDIR, p, -1, nullptr, 0, 0, 0);
  int r = __real_mkdir(p, m);
  if (!r) effect("mkdir", p);
  return r;
}
int __wrap_rmdir(const char *p) {
  sched_point();
  if (!guard("rmdir", p)) { errno = EACCES; return -1; }
  if (fault(C_RMDIR, p)) return -1;
  mut(C_RMDIR, p, -1, nullptr, 0, 0, 0);
  int r = __real_rmdir(p);
  if (!r) effect("rmdir", p);
  return r;
}
int __wrap_chmod(const char *p, mode_t m) {
  if (!guard("chmod", p)) { errno = EACCES; return -1; }
  int r = __real_chmod(p, m);
  if (!r) effect("chmod", p);
  return r;
}
// copies made by the library (redirected in its objects only)
extern void *__asan_memcpy(void *, const void *, size_t) __attribute__((weak));
void *__wrap___asan_memcpy(void *d, const void *s, size_t n) {
  if (count_mapreads) {
    auto it = map_ranges.upper_bound((uintptr_t)s);
    if (it != map_ranges.begin()) { --it; if ((uintptr_t)s < it->first + it->second) n_mapread++; }
  }
  return __asan_memcpy(d, s, n);
}
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  sched_point();
  if (fault(C_MMAP, fd_path(fd))) return MAP_FAILED;
  void *p = __real_mmap(a, n, pr, fl, fd, o);
  if (p != MAP_FAILED) {
    SG g(m_mu);
    if (!m_map) m_map = new std::unordered_map<void *, MapRec>();
    (*m_map)[p] = MapRec{p, n, 0};
    if (count_mapreads) map_ranges[(uintptr_t)p] = n;
    map_slack(p, n, true);
  }
  return p;
}
int __wrap_munmap(void *p, size_t n) {
  sched_point();
  if (fault(C_MUNMAP, "")) return -1;
  {
    // forget before unmapping: another thread may get the same address
    SG g(m_mu);
    if (count_mapreads) map_ranges.erase((uintptr_t)p);
    if (m_map) {
      auto it = m_map->find(p);
      if (it != m_map->end() && (it->second.n + 4095) / 4096 == (n + 4095) / 4096) m_map->erase(it);
    }
  }
  map_slack(p, n, false);
  return __real_munmap(p, n);
}
int __wrap_fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  sched_point();
  if (fault(C_FCNTL, fd_path(fd))) return -1;
  return __real_fcntl(fd, cmd, arg);
}
int __wrap_fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  if (fault(C_FCNTL, fd_path(fd))) return -1;
  return __real_fcntl(fd, cmd, arg);
}
int __wrap_fstat(int fd, struct stat *st) {
  sched_point();
  if (fault(C_FSTAT, fd_path(fd))) return -1;
  return __real_fstat(fd, st);
}
int __wrap_stat(const char *p, struct stat *st) {
  sched_point();
  if (fault(C_STAT, p)) return -1;
  return __real_stat(p, st);
}
int __wrap_lstat(const char *p, struct stat *st) {
  sched_point();
  if (fault(C_STAT, p)) return -1;
  return __real_lstat(p, st);
}
DIR *__wrap_opendir(const char *p) {
  if (fault(C_OPENDIR, p)) return nullptr;
  DIR *d = __real_opendir(p);
  if (d) { SG g(g_mu); g_dirs++; }
  return d;
}
int __wrap_closedir(DIR *d) {
  { SG g(g_mu); g_dirs--; }
  return __real_closedir(d);
}
struct dirent *__wrap_readdir(DIR *d) {
  if (fault(C_READDIR, "")) return nullptr;
  return __real_readdir(d);
}
int __wrap_fsync(int fd) {
  if (fault(C_FSYNC, fd_path(fd))) return -1;
  int r = __real_fsync(fd);
  if (!r && on_sync) on_sync(fd_path(fd));
  return r;
}
int __wrap_fdatasync(int fd) {
  sched_point();
  if (fault(C_FSYNC, fd_path(fd))) return -1;
  struct stat st;
  if (__real_fstat(fd, &st)) return -1;   // EBADF and the like
  if (on_sync) on_sync(fd_path(fd));
  return 0;  // tmpfs scratch: nothing to sync
}
void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);
  fresh(p, n);
  a_add(p, n, __builtin_return_address(0));
  return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  void *p = __real_calloc(a, b);
  a_add(p, a * b, __builtin_return_address(0));
  return p;
}
void *__wrap_realloc(void *q, size_t n) {
  size_t had = a_del(q);
  if (had && n && __msan_poison) {
    void *p = __real_malloc(n);
    if (!p) return p;
    fresh(p, n);
    memcpy(p, q, had < n ? had : n);
    stale(q, had);
    __real_free(q);
    a_add(p, n, __builtin_return_address(0));
    return p;
  }
  void *p = __real_realloc(q, n);
  if (p && n > had) fresh((char *)p + had, n - had);
  a_add(p, n, __builtin_return_address(0));
  return p;
}
void __wrap_free(void *p) {
  stale(p, a_del(p));
  __real_free(p);
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  lk_wait(l, 0);
  int r = pthread_rwlock_tryrdlock(l);
  if (r && lk_alone()) lk_misuse("the only thread waits for a lock that is still held");
  if (r) { n_contended.fetch_add(1, std::memory_order_relaxed); r = __real_pthread_rwlock_rdlock(l); }
  lk_got(l, 0);
  return r;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  lk_wait(l, 1);
  int r = pthread_rwlock_trywrlock(l);
  if (r && lk_alone()) lk_misuse("the only thread waits for a lock that is still held");
  if (r) { n_contended.fetch_add(1, std::memory_order_relaxed); r = __real_pthread_rwlock_wrlock(l); }
  lk_got(l, 1);
  return r;
}
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *l) {
  if (__atomic_load_n(&l->__data.__cur_writer, __ATOMIC_RELAXED) || __atomic_load_n(&l->__data.__readers, __ATOMIC_RELAXED) >> 3) lk_misuse("a read-write lock is destroyed that is still held");
  return __real_pthread_rwlock_destroy(l);
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *l) {
  if (__atomic_load_n(&l->__data.__lock, __ATOMIC_RELAXED)) lk_misuse("a mutex is destroyed that is still held");
  return __real_pthread_mutex_destroy(l);
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l) {
  lk_check_rel(l);
  lk_rel(l);
  int r = __real_pthread_rwlock_unlock(l);
  sched_point();
  return r;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *l) {
  lk_wait(l, 1);
  int r = pthread_mutex_trylock(l);
  if (r && lk_alone()) lk_misuse("the only thread waits for a lock that is still held");
  if (r) { n_contended.fetch_add(1, std::memory_order_relaxed); r = __real_pthread_mutex_lock(l); }
  lk_got(l, 1);
  return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *l) {
  lk_check_rel(l);
  lk_rel(l);
  int r = __real_pthread_mutex_unlock(l);
  sched_point();
  return r;
}
}
