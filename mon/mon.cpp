#include <errno.h>
#include "mon.h"
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/resource.h>

Ctx cx;
static std::string out_file, progress_file;
static int progress_fd = -1;

Limits real_limits;
void set_limits(const Limits &l) {
  if (&urkel_verif_max_file_size) urkel_verif_max_file_size = l.max_file;
  if (&urkel_verif_write_buffer) urkel_verif_write_buffer = l.wbuf;
  if (&urkel_verif_read_buffer) urkel_verif_read_buffer = l.rbuf;
  if (&urkel_verif_max_open_files) urkel_verif_max_open_files = l.max_open;
}
Limits get_limits() {
  Limits l{0x7ffff000, 64u << 20, 1u << 20, 32};
  if (&urkel_verif_max_file_size) l.max_file = urkel_verif_max_file_size;
  if (&urkel_verif_write_buffer) l.wbuf = urkel_verif_write_buffer;
  if (&urkel_verif_read_buffer) l.rbuf = urkel_verif_read_buffer;
  if (&urkel_verif_max_open_files) l.max_open = urkel_verif_max_open_files;
  return l;
}

void Ctx::t(const char *fmt, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  fprintf(stderr, "TRACE %s\n", b);
}
bool Ctx::viol(Mask m, const char *key, const char *fmt, ...) {
  if (!wants(m)) return false;
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  viols.push_back(V{key, b, cas});
  fprintf(stderr, "VIOL %s: %s\n", key, b);
  throw CaseEnd();
}
void harness_error(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "HARNESS-ERROR ");
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  va_end(ap);
  _exit(4);
}
static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static void write_out(bool complete) {
  if (out_file.empty()) return;
  std::string tmp = out_file + ".tmp";
  FILE *f = fopen(tmp.c_str(), "w");
  if (!f) harness_error("cannot write %s", tmp.c_str());
  fprintf(f, "{\"complete\":%s,\"case\":%ld,\"stats\":{", complete ? "true" : "false", cx.cas);
  bool first = true;
  for (auto &e : cx.stats) { fprintf(f, "%s%s:%ld", first ? "" : ",", jstr(e.first).c_str(), e.second); first = false; }
  fprintf(f, "},\"distinct\":{");
  first = true;
  for (auto &e : cx.distinct) {
    fprintf(f, "%s%s:[", first ? "" : ",", jstr(e.first).c_str());
    bool f2 = true;
    for (auto h : e.second) { fprintf(f, "%s%llu", f2 ? "" : ",", (unsigned long long)(h >> 12)); f2 = false; }
    fprintf(f, "]");
    first = false;
  }
  fprintf(f, "},\"samples\":[");
  first = true;
  for (auto &s : cx.samples) { fprintf(f, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
  fprintf(f, "],\"viols\":[");
  first = true;
  for (auto &v : cx.viols) { fprintf(f, "%s{\"key\":%s,\"case\":%ld,\"detail\":%s}", first ? "" : ",", jstr(v.key).c_str(), v.cas, jstr(v.detail).c_str()); first = false; }
  fprintf(f, "]}\n");
  fclose(f);
  rename(tmp.c_str(), out_file.c_str());
}
void save_progress() {
  if (progress_fd < 0) return;
  char b[64];
  int n = snprintf(b, sizeof b, "%-20ld\n", cx.cas);
  if (pwrite(progress_fd, b, n, 0) != n) harness_error("progress");
}

int main(int argc, char **argv) {
  std::string mode;
  long from = 0, to = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() -> std::string { if (i + 1 >= argc) harness_error("missing argument to %s", a.c_str()); return argv[++i]; };
    if (a == "--prop") cx.prop = atoi(nx().c_str() + 1);
    else if (a == "--seed") cx.seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--from") from = atol(nx().c_str());
    else if (a == "--to") to = atol(nx().c_str());
    else if (a == "--dir") cx.dir = nx();
    else if (a == "--out") out_file = nx();
    else if (a == "--progress") progress_file = nx();
    else if (a == "--thorough") cx.thorough = true;
    else if (a == "--trace") cx.trace = true;
    else if (a == "--opt") { std::string o = nx(); auto e = o.find('='); cx.opt[o.substr(0, e)] = e == std::string::npos ? "1" : o.substr(e + 1); }
    else mode = a;
  }
  if (cx.dir.size() < 5) harness_error("need --dir");
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  ip::mkdir_p(cx.dir);
  ip::set_guard(cx.dir);
  if (chdir(cx.dir.c_str())) harness_error("chdir");
  real_limits = get_limits();
  if (!progress_file.empty()) progress_fd = open(progress_file.c_str(), O_CREAT | O_WRONLY, 0644);
  struct { const char *n; void (*f)(); } modes[] = {
    {"sim", run_sim}, {"proof", run_proof}, {"crash", run_crash}, {"power", run_power}, {"fault", run_fault}, {"short", run_short},
    {"conc", run_conc}, {"lin", run_lin}, {"proc", run_proc}, {"path", run_path}, {"big", run_big}, {"hash", run_hash}, {"damage", run_damage}, {"cost", run_cost}};
  void (*fn)() = nullptr;
  for (auto &m : modes) if (mode == m.n) fn = m.f;
  if (!fn) harness_error("unknown mode %s", mode.c_str());
  for (long c = from; c < to; c++) {
    cx.cas = c;
    save_progress();
    set_limits(real_limits);
    try {
      fn();
      auto esc = ip::take_escapes();
      if (!esc.empty()) cx.viol(~0u, "effect-outside-scratch", "the library tried to modify a path outside its directory: %s", esc[0].c_str());
      cx.add("cases");
      if (long u = ip::n_unknown.exchange(0)) cx.add("uninitialised_bytes_tracked", u);
      if (long u = ip::n_slack.exchange(0)) cx.add("mappings_guarded", u);
    } catch (CaseEnd &) {
      // what went wrong is another property's business
      if (cx.viols.empty()) { cx.add("abandoned_cases"); ip::disarm(); ip::on_mut = nullptr; continue; }
      write_out(true);
      _exit(1);
    }
    ip::disarm();
    ip::on_mut = nullptr;
  }
  write_out(true);
  fflush(stdout);
  _exit(0);
}

// ------------------------------------------------------------------ API
// Before a call: the error state is something no call may rely on.  A sentinel,
// and where errors are judged also any stale library or system code.
static void stale() {
  static thread_local long cas = -1;
  static thread_local Rng r(1);
  if (cas != cx.cas) { cas = cx.cas; r = Rng(mix(cx.seed, mix(cx.cas, 0x57a1e))); }
  urkel_errno = ESENT;
  if (cx.prop != P19 && cx.prop != P09) return;
  static const int E[] = {0, EINTR, EAGAIN, ENOENT, EEXIST, EINVAL, ENOMEM, EACCES, ENOSPC, ERANGE, EBADF};
  if (r.chance(50)) { urkel_errno = 1 + r.below(13); cx.add("stale_errno_presets"); }
  errno = E[r.below(11)];
}
const char *ename(int e) {
  switch (e) {
    case 0: return "0"; case 1: return "EHASHMISMATCH"; case 2: return "ESAMEKEY"; case 3: return "ESAMEPATH"; case 4: return "ENEGDEPTH";
    case 5: return "EPATHMISMATCH"; case 6: return "ETOODEEP"; case 7: return "EINVAL"; case 8: return "ENOTFOUND"; case 9: return "ECORRUPTION";
    case 10: return "ENOUPDATE"; case 11: return "EBADWRITE"; case 12: return "EBADOPEN"; case 13: return "EITEREND"; case ESENT: return "unset";
  }
  static __thread char b[24];
  snprintf(b, sizeof b, "%d", e);
  return b;
}
// MemorySanitizer build: output buffers start undefined, and bytes handed to the caller must have been written
extern "C" long __msan_test_shadow(const void *, size_t) __attribute__((weak));
extern "C" void __msan_poison(const void *, size_t) __attribute__((weak));
extern "C" void __msan_unpoison(const void *, size_t) __attribute__((weak));
static void defined_out(const char *what, const void *p, size_t n) {
  if (!__msan_test_shadow || !p || !n) return;
  long at = __msan_test_shadow(p, n);
  if (at < 0) cx.add("output_bytes_defined", n);
  else cx.viol(M(P14), "uninitialised-output", "%s: byte %ld of %zu bytes handed to the caller was never written", what, at, n);
}
namespace {
struct KB {  // exact-size heap copy of a 32-byte argument
  uint8_t *p;
  explicit KB(const H32 &h) : p(new uint8_t[32]) { memcpy(p, h.data(), 32); }
  explicit KB(const H32 *h) : p(nullptr) { if (h) { p = new uint8_t[32]; memcpy(p, h->data(), 32); } }
  ~KB() { delete[] p; }
  KB(const KB &) = delete;
};
struct OB {  // exact-size output buffer
  uint8_t *p;
  size_t n;
  explicit OB(size_t k) : p(new uint8_t[k ? k : 1]), n(k) { memset(p, 0xA5, k ? k : 1); if (__msan_poison) __msan_poison(p, k ? k : 1); }
  ~OB() { if (__msan_unpoison) __msan_unpoison(p, n ? n : 1); delete[] p; }
};
}
template <class Fn> static Res getlike(long es, Fn fn) {
  Res r;
  OB b(es >= 0 && es <= 1023 ? es : 1023);
  size_t sz = 0xdeadbeefdeadull;
  stale();
  r.ret = fn(b.p, &sz);
  r.err = urkel_errno;
  r.size = sz;
  if (r.ret && sz <= b.n) { defined_out("value", b.p, sz); r.v.assign(b.p, b.p + sz); }
  return r;
}
Res a_get(urkel_t *db, const H32 &k, const H32 *root, long es) { KB kb(k), rb(root); return getlike(es, [&](uint8_t *v, size_t *s) { return urkel_get(db, v, s, kb.p, rb.p); }); }
Res a_tx_get(urkel_tx_t *tx, const H32 &k, long es) { KB kb(k); return getlike(es, [&](uint8_t *v, size_t *s) { return urkel_tx_get(tx, v, s, kb.p); }); }
#define SIMPLE(call) Res r; stale(); r.ret = call; r.err = urkel_errno; return r
Res a_has(urkel_t *db, const H32 &k, const H32 *root) { KB kb(k), rb(root); SIMPLE(urkel_has(db, kb.p, rb.p)); }
Res a_tx_has(urkel_tx_t *tx, const H32 &k) { KB kb(k); SIMPLE(urkel_tx_has(tx, kb.p)); }
static uint8_t *vdup(const Bytes &v) { uint8_t *p = new uint8_t[v.size() ? v.size() : 1]; if (v.size()) memcpy(p, v.data(), v.size()); return p; }
Res a_insert(urkel_t *db, const H32 &k, const Bytes &v) {
  KB kb(k); uint8_t *p = vdup(v); Res r; stale(); r.ret = urkel_insert(db, kb.p, p, v.size()); r.err = urkel_errno; delete[] p; return r;
}
Res a_tx_insert(urkel_tx_t *tx, const H32 &k, const Bytes &v) {
  KB kb(k); uint8_t *p = vdup(v); Res r; stale(); r.ret = urkel_tx_insert(tx, kb.p, p, v.size()); r.err = urkel_errno; delete[] p; return r;
}
Res a_remove(urkel_t *db, const H32 &k) { KB kb(k); SIMPLE(urkel_remove(db, kb.p)); }
Res a_tx_remove(urkel_tx_t *tx, const H32 &k) { KB kb(k); SIMPLE(urkel_tx_remove(tx, kb.p)); }
static Res provelike(std::function<int(unsigned char **, size_t *)> fn) {
  Res r;
  unsigned char *p = (unsigned char *)(uintptr_t)0x10;
  size_t n = 0xdeadbeefdeadull;
  stale();
  r.ret = fn(&p, &n);
  r.err = urkel_errno;
  r.size = n;
  if (r.ret) {
    defined_out("proof", p, n);
    r.v.assign(p, p + n);
    urkel_free(p);
  } else {
    r.v.clear();
    r.size = (p == nullptr && n == 0) ? 0 : 1;  // 1 = outputs not cleared
  }
  return r;
}
Res a_prove(urkel_t *db, const H32 &k, const H32 *root) { KB kb(k), rb(root); return provelike([&](unsigned char **p, size_t *n) { return urkel_prove(db, p, n, kb.p, rb.p); }); }
Res a_tx_prove(urkel_tx_t *tx, const H32 &k) { KB kb(k); return provelike([&](unsigned char **p, size_t *n) { return urkel_tx_prove(tx, p, n, kb.p); }); }
H32 a_root(urkel_t *db) { OB o(32); urkel_root(db, o.p); defined_out("root", o.p, 32); H32 h; memcpy(h.data(), o.p, 32); return h; }
H32 a_tx_root(urkel_tx_t *tx) { OB o(32); urkel_tx_root(tx, o.p); defined_out("transaction root", o.p, 32); H32 h; memcpy(h.data(), o.p, 32); return h; }
Res a_inject(urkel_t *db, const H32 &h) { KB kb(h); SIMPLE(urkel_inject(db, kb.p)); }
Res a_tx_inject(urkel_tx_t *tx, const H32 &h) { KB kb(h); SIMPLE(urkel_tx_inject(tx, kb.p)); }
Res a_commit(urkel_tx_t *tx) { SIMPLE(urkel_tx_commit(tx)); }
urkel_tx_t *a_tx_create(urkel_t *db, const H32 *root, int *err) {
  KB rb(root);
  stale();
  urkel_tx_t *t = urkel_tx_create(db, rb.p);
  if (err) *err = urkel_errno;
  return t;
}
urkel_t *a_open(const std::string &path, int *err) {
  stale();
  char *p = strdup(path.c_str());
  urkel_t *d = urkel_open(p);
  int e = urkel_errno;
  free(p);
  if (err) *err = e;
  return d;
}
Res a_destroy(const std::string &path) { SIMPLE(urkel_destroy(path.c_str())); }
VRes a_verify(const Bytes &proof, const H32 &key, const H32 &root) {
  VRes r;
  KB kb(key), rb(root);
  uint8_t *p = new uint8_t[proof.size() ? proof.size() : 1];
  if (proof.size()) memcpy(p, proof.data(), proof.size());
  OB o(1023);
  size_t n = 0xdeadbeefdeadull;
  int ex = 0x77;
  stale();
  r.ret = urkel_verify(&ex, o.p, &n, p, proof.size(), kb.p, rb.p);
  r.err = urkel_errno;
  r.exists = ex;
  r.len = n;
  if (n <= 1023) { defined_out("verified value", o.p, n); r.value.assign(o.p, o.p + n); }
  delete[] p;
  return r;
}
IterRes a_walk(urkel_iter_t *it, long limit, bool values) {
  IterRes r;
  for (;;) {
    if (limit >= 0 && (long)r.recs.size() >= limit) { r.err = -1; return r; }
    OB k(32), v(1023);
    size_t n = 0xdeadbeefull;
    stale();
    int ret = values ? urkel_iter_next(it, k.p, v.p, &n) : urkel_iter_next(it, k.p, nullptr, nullptr);
    r.err = urkel_errno;
    if (!ret) break;
    H32 h;
    defined_out("key", k.p, 32);
    memcpy(h.data(), k.p, 32);
    if (!values) n = 0;
    if (n <= 1023) defined_out("value", v.p, n);
    r.recs.push_back({h, n <= 1023 ? Bytes(v.p, v.p + n) : Bytes(2000)});
    if (r.recs.size() > 200000) break;
  }
  for (int i = 0; i < 2; i++) {
    OB k(32), v(1023);
    size_t n = 0;
    stale();
    if (urkel_iter_next(it, k.p, v.p, &n) || urkel_errno != URKEL_EITEREND) r.sticky_end = false;
  }
  return r;
}
bool same(const KV &want, const IterRes &got) {
  if (want.size() != got.recs.size()) return false;
  size_t i = 0;
  for (auto &e : want) {
    if (got.recs[i].first != e.first || got.recs[i].second != e.second->v) return false;
    i++;
  }
  return true;
}
std::string kvdiff(const KV &want, const IterRes &got) {
  char b[512];
  size_t i = 0;
  for (auto &e : want) {
    if (i >= got.recs.size()) { snprintf(b, sizeof b, "record %zu of %zu missing (key %s)", i, want.size(), hexs(e.first).c_str()); return b; }
    if (got.recs[i].first != e.first) { snprintf(b, sizeof b, "record %zu: key %s instead of %s", i, hex(got.recs[i].first).c_str(), hex(e.first).c_str()); return b; }
    if (got.recs[i].second != e.second->v) { snprintf(b, sizeof b, "record %zu (key %s): value of %zu bytes instead of %zu", i, hexs(e.first).c_str(), got.recs[i].second.size(), e.second->v.size()); return b; }
    i++;
  }
  if (got.recs.size() > i) { snprintf(b, sizeof b, "extra record %s after %zu", hexs(got.recs[i].first).c_str(), i); return b; }
  return "equal";
}

// ------------------------------------------------------------------ generators
KeyGen KeyGen::make(Rng &r, int fam, int n) {
  KeyGen g;
  g.fam = fam;
  std::set<H32> s;
  H32 base;
  r.fill(base.data(), 32);
  int tries = 0;
  std::vector<H32> pool;
  while ((int)s.size() < n && tries++ < n * 30) {
    H32 k;
    switch (fam) {
      case 0: r.fill(k.data(), 32); break;
      case 1: {  // clusters
        if (pool.size() < 3 || r.chance(10)) { r.fill(k.data(), 32); pool.push_back(k); }
        else { k = r.pick(pool); int f = 1 + r.below(3); while (f--) kflip(k, r.below(256)); pool.push_back(k); }
        break;
      }
      case 2: {  // one-bit chain: maximal depth
        k = base;
        if (!s.empty()) { unsigned i = (unsigned)((s.size() - 1) & 255); kflip(k, 255 - i); if (s.size() > 256) r.fill(k.data() + 31, 1); }
        break;
      }
      case 3: {  // sequential tail
        k = base;
        uint64_t c = s.size() + tries;
        for (int i = 0; i < 4; i++) k[31 - i] = c >> (8 * i);
        break;
      }
      case 4: {  // differ in leading bits only
        k = base;
        k[0] = r.next();
        k[1] = r.next() & 0xC0;
        break;
      }
      case 5: {  // degenerate patterns
        uint8_t f = r.chance(50) ? 0 : 0xff;
        k.fill(f);
        int c = r.below(3);
        while (c--) kflip(k, r.chance(50) ? r.below(8) : 248 + r.below(8));
        break;
      }
      case 6: {  // chosen long shared prefixes
        static const int L[] = {0, 1, 2, 7, 8, 9, 126, 127, 128, 129, 130, 253, 254, 255};
        if (pool.empty() || r.chance(15)) { r.fill(k.data(), 32); }
        else {
          k = r.pick(pool);
          int b = L[r.below(14)];
          kflip(k, b);
          for (int i = b + 1; i < 256; i++) if (r.chance(50)) kflip(k, i);
        }
        pool.push_back(k);
        break;
      }
      case 7: {  // few bits at the end
        k = base;
        k[31] = r.next();
        if (r.chance(30)) k[30] = r.next();
        break;
      }
      case 8: {  // comb: chain from the front with random tails
        k = base;
        unsigned i = r.below(64);
        kflip(k, i);
        for (int j = 31; j > 8; j--) if (r.chance(50)) k[j] = r.next();
        break;
      }
      default: {  // mixture
        if (pool.empty() || r.chance(30)) r.fill(k.data(), 32);
        else { k = r.pick(pool); kflip(k, r.below(256)); }
        pool.push_back(k);
        if (r.chance(5)) k.fill(0);
        if (r.chance(5)) k.fill(0xff);
      }
    }
    s.insert(k);
  }
  g.keys.assign(s.begin(), s.end());
  for (size_t i = g.keys.size(); i > 1; i--) std::swap(g.keys[i - 1], g.keys[r.below(i)]);
  return g;
}
H32 KeyGen::absent(Rng &r) const {
  H32 k;
  if (keys.empty() || r.chance(20)) { r.fill(k.data(), 32); return k; }
  k = r.pick(keys);
  if (r.chance(50)) kflip(k, r.below(256));
  else {
    int b = r.below(256);
    kflip(k, b);
    for (int i = b + 1; i < 256; i++) if (r.chance(50)) kflip(k, i);
  }
  return k;
}
Bytes gen_value(Rng &r, int mode) {
  static const int L[] = {0, 1, 2, 3, 7, 8, 31, 32, 33, 37, 38, 39, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 767, 768, 1021, 1022, 1023};
  size_t n;
  switch (mode) {
    case 0: n = r.below(40); break;
    case 1: n = L[r.below(sizeof L / sizeof *L)]; break;
    case 2: n = r.below(1024); break;
    case 3: n = r.chance(70) ? 0 : r.below(4); break;
    default: n = r.chance(80) ? r.below(100) : L[r.below(sizeof L / sizeof *L)];
  }
  Bytes v(n);
  if (r.chance(90)) r.fill(v.data(), n); else memset(v.data(), r.chance(50) ? 0 : 0xff, n);
  return v;
}
Limits gen_limits(Rng &r, bool scaled) {
  Limits l = real_limits;
  if (!scaled) return l;
  switch (r.below(4)) {
    case 0: l.max_file = 1100 + r.below(200); break;
    case 1: l.max_file = 1100 + r.below(3000); break;
    case 2: l.max_file = 38 * r.range(29, 200) + r.below(3) - 1; break;
    case 3: l.max_file = 4096 * r.range(1, 8); break;
  }
  if (r.chance(60)) l.wbuf = r.chance(50) ? r.range(1, 400) : r.range(400, 20000);
  if (r.chance(60)) l.rbuf = r.chance(50) ? r.range(76, 300) : r.range(300, 8000);
  if (r.chance(70)) l.max_open = r.range(1, 6);
  return l;
}
bool kv_eq(const KV &a, const KV &b) {
  if (a.size() != b.size()) return false;
  auto j = b.begin();
  for (auto &e : a) {
    if (e.first != j->first || e.second->v != j->second->v) return false;
    ++j;
  }
  return true;
}
