// Several processes and one database (P15).  Each worker process opens, uses,
// closes, destroys and dies; every call is logged in shared memory with global
// time stamps and the log is judged afterwards:
//  - the times during which processes certainly hold the database never overlap,
//    and no destroy succeeds inside one;
//  - an open or destroy fails only if another process was active meanwhile;
//  - what a holder finds is what the previous holder left (or an empty database
//    after a successful destroy);
//  - while a holder is idle no file changes.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <algorithm>
#include "sim.h"
namespace {
enum EK { E_OPEN = 1, E_OPENED, E_OPENFAIL, E_COMMIT, E_COMMITTED, E_CLOSE, E_CLOSED, E_DESTROY, E_DESTROYED, E_DESTROYFAIL, E_DIE, E_BAD, E_QUIT };
struct Ev { uint64_t ts; int kind; uint64_t a, b; };
const int MAXW = 40, MAXE = 600;
struct WS {
  std::atomic<int> st;      // 0 may be killed, 1 inside destroy, 2 doomed
  std::atomic<int> n;
  std::atomic<int> alive;
  std::atomic<uint64_t> kill_ts, reap_ts;
  char bad[400];
  Ev ev[MAXE];
};
struct Shm { std::atomic<uint64_t> clock, stalls, faulted; WS w[MAXW]; };
Shm *sh;
WS *me;
int my;
uint64_t tick() { return sh->clock.fetch_add(1) + 1; }
void logev(int k, uint64_t a = 0, uint64_t b = 0) {
  int i = me->n.load();
  if (i >= MAXE) _exit(4);
  me->ev[i] = Ev{tick(), k, a, b};
  me->n.store(i + 1);
}
[[noreturn]] void bad(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(me->bad, sizeof me->bad, fmt, ap);
  va_end(ap);
  logev(E_BAD);
  _exit(3);
}
long g_die_at;
void die_hook(const ip::Op &) {
  if (g_die_at > 0 && --g_die_at == 0) { logev(E_DIE); raise(SIGKILL); }
}
// A process stops in the middle of a call, until others have done so many things
// (or for some milliseconds, when nobody else gets on).
long g_stall_at;
uint64_t g_stall_for;
void stall_hook() {
  if (g_stall_at <= 0 || --g_stall_at) return;
  uint64_t until = sh->clock.load() + g_stall_for, t0 = ip::now_ns();
  while (sh->clock.load() < until && ip::now_ns() - t0 < 6000000) usleep(20);
  sh->stalls.fetch_add(1);
}
H32 pkey(uint64_t j) { uint8_t b[8]; memcpy(b, &j, 8); return ref_hash(b, 8); }
const uint64_t NK = 6;
Bytes pval(uint64_t gen, uint64_t i) {
  Bytes v(16 + (i * 7 + gen) % 200);
  memcpy(v.data(), &gen, 8);
  memcpy(v.data() + 8, &i, 8);
  return v;
}
KV expect(uint64_t gen, uint64_t c) {
  KV kv;
  if (!c) return kv;
  H32 ck = pkey(1000);
  kv[ck] = mkval(ck, pval(gen, c));
  for (uint64_t i = c; i > 0 && i + NK > c; i--) { H32 k = pkey(i % NK); kv[k] = mkval(k, pval(gen, i)); }
  return kv;
}
uint64_t image_hash(const std::string &d) {
  uint64_t x = 1;
  // (reading the lock file here would release this process's lock: POSIX)
  for (auto &n : ip::list_dir(d)) {
    std::pair<std::string, Bytes> e(n, Bytes());
    if (n != "lock") ip::read_file(d + "/" + n, e.second);
    for (char c : e.first) x = mix(x, c); H32 h = ref_hash(e.second.data(), e.second.size()); x = mix(x, *(uint64_t *)h.data());
  }
  return x;
}
struct Cfg { std::string path; std::vector<std::string> alias; int steps, pd, pk, jitter, stall, pf; bool killer; };
[[noreturn]] void worker(const Cfg &c, uint64_t seed) {
  Rng r(seed);
  ip::thread_begin(0, r.next());
  ip::jitter_permille.store(c.jitter);
  ip::on_mut = die_hook;
  ip::on_sched = stall_hook;
  uint64_t ngen = 0;
  for (int step = 0; step < c.steps; step++) {
    const std::string &p = r.pick(c.alias);
    auto stall = [&](int within) { g_stall_at = (int)r.below(100) < c.stall ? r.range(1, within) : 0; g_stall_for = r.range(2, 14); };
    stall(20);
    if ((int)r.below(100) < c.pd) {
      int z = 0;
      if (!me->st.compare_exchange_strong(z, 1)) for (;;) pause();
      logev(E_DESTROY);
      int e = 0;
      Res x = a_destroy(p);
      e = x.err;
      logev(x.ret ? E_DESTROYED : E_DESTROYFAIL, e);
      me->st.store(0);
      continue;
    }
    if ((int)r.below(100) < c.pk) g_die_at = r.range(1, 12);
    logev(E_OPEN);
    int e = 0;
    bool faulty = (int)r.below(100) < c.pf;   // one system call of this open fails
    if (faulty) { ip::Fault f; static const int E[] = {EIO, ENOMEM, EMFILE, EACCES}; f.nth = r.range(1, 24); f.err = E[r.below(4)]; ip::arm(f); }
    urkel_t *db = a_open(p, &e);
    if (faulty) { faulty = ip::fired() > 0; ip::disarm(); if (faulty && !db) sh->faulted.fetch_add(1); }
    if (!db) { logev(E_OPENFAIL, e, faulty); g_die_at = 0; if (r.chance(50)) usleep(r.below(400)); continue; }
    // what is there
    uint64_t gen = 0, n = 0;
    logev(E_OPENED, 0, ~0ull);
    int slot = me->n.load() - 1;
    Res g = a_get(db, pkey(1000), nullptr);
    if (g.ret && g.v.size() >= 16) { memcpy(&gen, g.v.data(), 8); memcpy(&n, g.v.data() + 8, 8); }
    else if (g.ret || g.err != URKEL_ENOTFOUND) bad("get in a freshly opened database: ret %d %s", g.ret, ename(g.err));
    if (n > 100000) bad("counter %llu", (unsigned long long)n);
    me->ev[slot].a = gen;
    me->ev[slot].b = n;
    KV kv = expect(gen, n);
    H32 want = ref_root(kv), root = a_root(db);
    if (root != want) bad("after opening at %llu/%llu the root is %s instead of %s", (unsigned long long)gen, (unsigned long long)n, hexs(root).c_str(), hexs(want).c_str());
    urkel_iter_t *it = urkel_iterate(db, nullptr);
    if (!it) bad("iterate failed with %s", ename(urkel_errno));
    IterRes ir = a_walk(it);
    urkel_iter_destroy(it);
    if (!same(kv, ir)) bad("after opening at %llu: %s", (unsigned long long)n, kvdiff(kv, ir).c_str());
    int nc = r.chance(25) ? 0 : r.range(1, 4);
    for (int i = 0; i < nc; i++) {
      if (n == 0) gen = (uint64_t)(my + 1) << 20 | ++ngen;
      uint64_t x = n + 1;
      urkel_tx_t *tx = a_tx_create(db, nullptr, &e);
      if (!tx) bad("tx_create failed with %s", ename(e));
      Res q1 = a_tx_insert(tx, pkey(1000), pval(gen, x)), q2 = a_tx_insert(tx, pkey(x % NK), pval(gen, x));
      if (!q1.ret || !q2.ret) bad("insert failed with %s", ename(q1.ret ? q2.err : q1.err));
      logev(E_COMMIT, gen, x);
      Res q = a_commit(tx);
      if (!q.ret) bad("commit failed with %s while the database was held", ename(q.err));
      n = x;
      logev(E_COMMITTED, gen, n);
      urkel_tx_destroy(tx);
      if (r.chance(30)) {
        uint64_t h1 = image_hash(c.path);
        usleep(r.below(600));
        uint64_t h2 = image_hash(c.path);
        if (h1 != h2) bad("the files changed while this process held the database and was idle");
      }
    }
    if ((int)r.below(100) < c.pk / 2) { logev(E_DIE); raise(SIGKILL); }
    if (a_root(db) != ref_root(expect(gen, n))) bad("the root changed while the database was held");
    stall(16);
    logev(E_CLOSE);
    urkel_close(db);
    logev(E_CLOSED);
    g_die_at = 0;
    if (r.chance(40)) usleep(r.below(300));
  }
  ip::thread_end();
  ip::Res lv = ip::live();
  if (lv.fds) bad("%ld descriptors still open", lv.fds);
  logev(E_QUIT);
  _exit(0);
}
// One process holds the database for as long as another one's calls take: they
// have to come back refused, at once, and without an effect.
int child_calls(const std::vector<std::string> &alias, Rng r, int want) {
  // want 0: all refused; 1: opens succeed
  for (int i = r.range(1, 4); i > 0; i--) {
    int e = 0;
    const std::string &p = r.pick(alias);
    if (want == 0 && r.chance(40)) { Res x = a_destroy(p); if (x.ret || x.err != URKEL_EBADOPEN) return 10; continue; }
    urkel_t *db = a_open(p, &e);
    if (want == 0) { if (db) return 11; if (e != URKEL_EBADOPEN) return 12; continue; }
    if (!db) return 13;
    Bytes v(20, 7);
    if (!a_insert(db, pkey(r.below(50)), v).ret) return 14;
    if (r.chance(30)) { logev(E_DIE); raise(SIGKILL); }
    urkel_close(db);
  }
  return 0;
}
void run_held(Rng &r, const std::string &base, const std::vector<std::string> &alias) {
  const std::string &path = alias[0];
  auto wait30 = [&](pid_t p, const char *what) {
    uint64_t t0 = ip::now_ns();
    int st;
    while (waitpid(p, &st, WNOHANG) == 0) {
      if (ip::now_ns() - t0 > 30000000000ull) {
        kill(p, SIGKILL);
        waitpid(p, nullptr, 0);
        ORACLE(M(P15), false, "refusal-waits", "%s: the call had not returned after 30 s", what);
        return -1;
      }
      usleep(200);
    }
    return st;
  };
  (void)base;
  KV kv;
  me = &sh->w[0];
  for (int round = r.range(1, 4); round > 0; round--) {
    int e = 0;
    urkel_t *db = a_open(r.pick(alias), &e);
    ORACLE(M(P15), db != nullptr, "refused-without-cause", "open failed with %s although nobody else had the database open", ename(e));
    for (int k = r.range(1, 4); k > 0; k--) {
      for (int i = r.below(4); i > 0; i--) { H32 key = pkey(r.below(50)); Bytes v(r.below(300), (uint8_t)r.next()); ORACLE(M(P15), a_insert(db, key, v).ret == 1, "holder", "insert by the holder failed"); kv[key] = mkval(key, v); }
      uint64_t h1 = image_hash(path);
      Rng cr(r.next());
      fflush(nullptr);
      pid_t p = fork();
      if (p < 0) harness_error("fork");
      if (!p) _exit(child_calls(alias, cr, 0));
      int st = wait30(p, "open or destroy of a database which another process has open");
      ORACLE(M(P15), WIFEXITED(st) && WEXITSTATUS(st) == 0, "held", "while one process had the database open, another one's call %s", !WIFEXITED(st) ? "crashed" : WEXITSTATUS(st) == 10 ? "destroyed it, or failed with the wrong code" : WEXITSTATUS(st) == 11 ? "opened it" : "failed with the wrong code");
      ORACLE(M(P15), image_hash(path) == h1 && ip::exists(path + "/lock"), "held-changed", "the refused calls of another process changed the files");
      cx.add("held_refusals");
    }
    ORACLE(M(P15), a_root(db) == ref_root(kv), "holder", "the holder's root changed");
    urkel_close(db);
    // nobody has it open now
    Rng cr(r.next());
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) harness_error("fork");
    if (!p) _exit(child_calls(alias, cr, 1));
    int st = wait30(p, "open of a database which nobody has open");
    ORACLE(M(P15), (WIFEXITED(st) && WEXITSTATUS(st) == 0) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL), "refused-without-cause", "after a close, another process's call failed at step %d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    db = a_open(path, &e);
    ORACLE(M(P15), db != nullptr, "refused-without-cause", "open failed with %s after %s", ename(e), WIFSIGNALED(st) ? "the holder was killed" : "the holder closed");
    // what the other process left: every key of ours it did not overwrite
    Bytes seven(20, 7);
    urkel_iter_t *it = urkel_iterate(db, nullptr);
    IterRes ir = a_walk(it);
    urkel_iter_destroy(it);
    size_t found = 0;
    for (auto &x : ir.recs) { auto o = kv.find(x.first); ORACLE(M(P15), x.second == seven || (o != kv.end() && o->second->v == x.second), "lost-commit", "key %s has a value nobody wrote", hexs(x.first).c_str()); if (o != kv.end()) found++; }
    ORACLE(M(P15), found == kv.size(), "lost-commit", "%zu of %zu committed keys are left", found, kv.size());
    kv.clear();
    for (auto &x : ir.recs) kv[x.first] = mkval(x.first, x.second);
    urkel_close(db);
  }
  ORACLE(M(P15), a_destroy(path).ret == 1, "final-destroy", "the database cannot be destroyed");
  cx.seen("cases", mix(cx.cas, kv.size()));
}
struct Iv { uint64_t a, b; int w; };
struct Hold { uint64_t a, b; int w; uint64_t gen, n, gen2, n2, gen3, n3; bool infl; };   // state found; state left; in-flight
}
void run_proc() {
  Rng r(mix(cx.seed, mix(cx.cas, 0x9c0c)));
  std::string base = cx.dir + "/proc";
  ip::rm_rf(base);
  ip::mkdir_p(base + "/d");
  Cfg c;
  c.path = base + "/d/db";
  c.alias = {c.path};
  if (r.chance(50)) {
    c.alias.push_back(base + "/d/./db");
    c.alias.push_back(base + "//d/db/");
    c.alias.push_back(base + "/l/db");
    if (symlink((base + "/d").c_str(), (base + "/l").c_str())) harness_error("symlink");
  }
  int nw = r.range(2, 5), total = nw + (int)r.below(cx.thorough ? 16 : 8);
  c.steps = r.range(4, cx.thorough ? 40 : 16);
  static const int PD[] = {0, 10, 30, 60}, PK[] = {0, 0, 8, 30};
  c.pd = PD[r.below(4)];
  c.pk = PK[r.below(4)];
  c.jitter = r.chance(70) ? r.range(50, 600) : 0;
  c.killer = r.chance(50);
  static const int PS[] = {0, 0, 15, 40, 70};
  c.stall = PS[r.below(5)];
  c.pf = r.chance(40) ? r.range(10, 70) : 0;
  if (c.pk == 0 && !c.killer) total = nw;
  Limits l = real_limits;
  if (r.chance(70)) { l.max_file = 1100 + r.below(3000); l.max_open = r.range(1, 4); }
  set_limits(l);
  if (!sh) sh = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)sh, 0, sizeof(Shm));
  if (cx.cas % 10 == 9) { run_held(r, base, c.alias); return; }
  std::map<pid_t, int> kids;
  int next = 0;
  auto spawn = [&] {
    int id = next++;
    uint64_t s = r.next();
    sh->w[id].alive.store(1);
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) harness_error("fork");
    if (!p) { my = id; me = &sh->w[id]; worker(c, s); }
    kids[p] = id;
  };
  for (int i = 0; i < nw; i++) spawn();
  long killed = 0, kills = 0;
  std::string crash;
  uint64_t t0 = ip::now_ns();
  int hung = -1;
  while (!kids.empty()) {
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      auto it = kids.find(p);
      if (it == kids.end()) continue;
      WS &w = sh->w[it->second];
      w.reap_ts.store(tick());
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) killed++;
      else if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3)) ;
      else crash = "worker ended with status " + std::to_string(st);
      kids.erase(it);
      if (next < total && crash.empty()) spawn();
      continue;
    }
    if (ip::now_ns() - t0 > 40000000000ull) { hung = kids.begin()->second; break; }
    usleep(r.below(800));
    if (c.killer && r.chance(6)) {
      auto it = kids.begin();
      std::advance(it, r.below(kids.size()));
      WS &w = sh->w[it->second];
      int z = 0;
      if (w.st.compare_exchange_strong(z, 2)) { w.kill_ts.store(tick()); kill(it->first, SIGKILL); kills++; }
    }
  }
  if (hung >= 0) {
    for (auto &k : kids) { kill(k.first, SIGKILL); waitpid(k.first, nullptr, 0); }
    int n = sh->w[hung].n.load();
    ORACLE(M(P15), false, "stuck", "worker %d made no progress for 40 s after event %d", hung, n ? sh->w[hung].ev[n - 1].kind : 0);
  }
  if (!crash.empty()) { fprintf(stderr, "%s\n", crash.c_str()); fflush(stderr); _exit(77); }
  if (cx.trace) {
    static const char *en[] = {"?", "open", "opened", "open-failed", "commit", "committed", "close", "closed", "destroy", "destroyed", "destroy-failed", "die", "bad", "quit"};
    std::map<uint64_t, std::string> all;
    for (int i = 0; i < next; i++) {
      WS &w = sh->w[i];
      for (int j = 0; j < w.n.load(); j++) { char b[120]; snprintf(b, sizeof b, "P%d %s %llu/%llu", i, en[w.ev[j].kind], (unsigned long long)w.ev[j].a, (unsigned long long)w.ev[j].b); all[w.ev[j].ts] = b; }
      if (w.kill_ts.load()) all[w.kill_ts.load()] = "P" + std::to_string(i) + " killed";
      all[w.reap_ts.load()] = "P" + std::to_string(i) + " reaped";
    }
    for (auto &e : all) T("%llu %s", (unsigned long long)e.first, e.second.c_str());
  }
  // afterwards everything works
  int e = 0;
  uint64_t f0 = tick();
  urkel_t *db = a_open(c.path, &e);
  ORACLE(M(P15), db != nullptr, "final-open", "after all processes have ended the database does not open: %s", ename(e));
  uint64_t f1 = tick(), fg = 0, fn = 0;
  Res g = a_get(db, pkey(1000), nullptr);
  if (g.ret && g.v.size() >= 16) { memcpy(&fg, g.v.data(), 8); memcpy(&fn, g.v.data() + 8, 8); }
  H32 root = a_root(db);
  ORACLE(M(P15), fn < 100000 && root == ref_root(expect(fg, fn)), "final-contents", "after all processes have ended the contents are not those of any commit (root %s, counter %llu)", hexs(root).c_str(), (unsigned long long)fn);
  urkel_close(db);
  // ---- judge
  std::vector<Hold> H;
  std::vector<Iv> D, act, failed, tries;   // tries: opens up to their success, failures, destroys
  std::vector<int> failk;
  long commits = 0, opens = 0, openfails = 0, dok = 0, dfail = 0;
  for (int i = 0; i < next; i++) {
    WS &w = sh->w[i];
    int n = w.n.load();
    uint64_t dead = w.reap_ts.load(), cert = w.kill_ts.load();
    uint64_t opened_at = 0, op = 0, ds = 0;
    Hold h;
    bool holding = false, closing = false;
    for (int j = 0; j < n; j++) {
      Ev &e = w.ev[j];
      switch (e.kind) {
        case E_OPEN: op = e.ts; break;
        case E_OPENFAIL: failed.push_back(Iv{op, e.ts, i}); failk.push_back(e.b ? 2 : 0); act.push_back(Iv{op, e.ts, i}); tries.push_back(Iv{op, e.ts, i}); op = 0; openfails++; break;
        case E_OPENED: tries.push_back(Iv{op, e.ts, i}); h = Hold{e.ts, 0, i, e.a, e.b, e.a, e.b, 0, 0, false}; holding = true; opens++; break;
        case E_COMMIT: h.infl = true; h.gen3 = e.a; h.n3 = e.b; break;
        case E_COMMITTED: h.infl = false; h.gen2 = e.a; h.n2 = e.b; commits++; break;
        case E_CLOSE: h.b = e.ts; H.push_back(h); holding = false; closing = true; break;
        case E_CLOSED: act.push_back(Iv{op, e.ts, i}); op = 0; closing = false; break;
        case E_DESTROY: ds = e.ts; break;
        case E_DESTROYED: D.push_back(Iv{ds, e.ts, i}); tries.push_back(Iv{ds, e.ts, i}); act.push_back(Iv{ds, e.ts, i}); ds = 0; dok++; break;
        case E_DESTROYFAIL: failed.push_back(Iv{ds, e.ts, i}); failk.push_back(1); tries.push_back(Iv{ds, e.ts, i}); act.push_back(Iv{ds, e.ts, i}); ds = 0; dfail++; break;
        case E_DIE: cert = cert ? std::min(cert, e.ts) : e.ts; break;
        case E_BAD: ORACLE(M(P15), false, "worker", "process %d of %d: %s", i, next, w.bad); break;
      }
    }
    (void)opened_at;
    (void)closing;
    if (holding) { h.b = cert ? cert : dead; H.push_back(h); }
    if (op) { act.push_back(Iv{op, dead, i}); if (!holding) tries.push_back(Iv{op, dead, i}); }
  }
  H.push_back(Hold{f1, ~0ull, -2, fg, fn, fg, fn, 0, 0, false});
  (void)f0;
  cx.add("oracle_evaluations", H.size() + D.size() + failed.size());
  std::sort(H.begin(), H.end(), [](const Hold &a, const Hold &b) { return a.a < b.a; });
  for (size_t i = 1; i < H.size(); i++)
    ORACLE(M(P15), H[i - 1].b < H[i].a, "two-holders", "process %d had the database open during [%llu,%llu] and process %d during [%llu,%llu]", H[i - 1].w, (unsigned long long)H[i - 1].a, (unsigned long long)H[i - 1].b, H[i].w, (unsigned long long)H[i].a, (unsigned long long)H[i].b);
  for (auto &d : D) for (auto &h : H)
    ORACLE(M(P15), !(h.a < d.a && d.b < h.b), "destroyed-while-open", "process %d destroyed the database during [%llu,%llu] while process %d had it open during [%llu,%llu]", d.w, (unsigned long long)d.a, (unsigned long long)d.b, h.w, (unsigned long long)h.a, (unsigned long long)h.b);
  for (size_t i = 0; i < failed.size(); i++) {
    bool ok = failk[i] == 2;   // a system call failed
    if (failk[i] == 1) {  // there may be no database to destroy
      uint64_t last = 0;
      for (auto &h : H) if (h.b < failed[i].a) last = std::max(last, h.b);
      for (auto &d : D) if (d.b > last && d.a < failed[i].b) ok = true;
      if (!last) ok = true;
    }
    for (auto &a : act) if (a.w != failed[i].w && a.a < failed[i].b && failed[i].a < a.b) ok = true;
    ORACLE(M(P15), ok, "refused-without-cause", "process %d: %s failed during [%llu,%llu] although no other process was using the database", failed[i].w, failk[i] == 1 ? "destroy" : "open", (unsigned long long)failed[i].a, (unsigned long long)failed[i].b);
  }
  // continuity: the gaps between holds (a process killed before it could look saw nothing)
  H.erase(std::remove_if(H.begin(), H.end(), [](const Hold &h) { return h.n == ~0ull; }), H.end());
  auto gaps_of = [&](const Iv &d) { int k = 0; for (size_t g = 0; g <= H.size(); g++) { uint64_t a = g ? H[g - 1].b : 0, b = g < H.size() ? H[g].a : ~0ull; if (d.a < b && a < d.b) k++; } return k; };
  for (size_t g = 0; g < H.size(); g++) {
    uint64_t a = g ? H[g - 1].b : 0, b = H[g].a;
    bool may = false, must = false;
    for (auto &d : D) if (d.a < b && a < d.b) { may = true; if (gaps_of(d) == 1) must = true; }
    // a destroy that met another process's attempt may report failure because the directory was no longer empty
    for (size_t i = 0; i < failed.size(); i++) if (failk[i] == 1 && failed[i].a < b && a < failed[i].b) for (auto &x : tries) if (x.w != failed[i].w && x.a < failed[i].b && failed[i].a < x.b) may = true;
    Hold prev = g ? H[g - 1] : Hold{0, 0, -1, 0, 0, 0, 0, 0, 0, false};
    bool cont = H[g].n == prev.n2 && H[g].gen == prev.gen2;
    bool infl = prev.infl && H[g].n == prev.n3 && H[g].gen == prev.gen3;
    bool fresh = H[g].n == 0;
    bool ok = must ? fresh : (cont || infl || (may && fresh));
    ORACLE(M(P15), ok, "lost-commit", "process %d opened at %llu/%llu and found commit %llu/%llu; the previous holder (process %d, until %llu) had left %llu/%llu%s%s", H[g].w, (unsigned long long)H[g].a, (unsigned long long)b, (unsigned long long)H[g].gen, (unsigned long long)H[g].n, prev.w, (unsigned long long)prev.b,
           (unsigned long long)prev.gen2, (unsigned long long)prev.n2, prev.infl ? " with one commit in flight" : "", must ? "; a destroy succeeded in between" : may ? "; a destroy may have come in between" : "; no destroy came in between");
  }
  Res x = a_destroy(c.path);
  ORACLE(M(P15), x.ret, "final-destroy", "after all processes have ended the database cannot be destroyed: %s", ename(x.err));
  cx.add("stalls", sh->stalls.load());
  cx.add("opens_with_a_failing_call", sh->faulted.load());
  cx.add("processes", next);
  cx.add("kills", killed);
  cx.add("opens", opens);
  cx.add("opens_refused", openfails);
  cx.add("destroys", dok);
  cx.add("destroys_refused", dfail);
  cx.add("commits", commits);
  cx.seen("cases", mix(mix(opens, openfails), mix(mix(dok, dfail), mix(commits, killed * 64 + next))));
  cx.sample("case " + std::to_string(cx.cas) + ": " + std::to_string(next) + " processes, " + std::to_string(opens) + " opens, " + std::to_string(openfails) + " refused, " + std::to_string(dok) + " destroys, " + std::to_string(dfail) + " refused, " + std::to_string(commits) + " commits, " + std::to_string(killed) + " killed");
}
