// Concurrent use of one handle.
//  run_conc (P12): hostile mixtures of every call from many threads, watched by
//    ThreadSanitizer / AddressSanitizer and a lock-ownership monitor.
//  run_lin (P13): the same kind of workload recorded as a history of calls and
//    judged by a linearizability checker against the sequential model.
#include <pthread.h>
#include <unistd.h>
#include <atomic>
#include <functional>
#include <thread>
#include "sim.h"

// ------------------------------------------------------------------ running
static std::atomic<int> g_go;
static void run_threads(int n, uint64_t seed, const std::function<void(int)> &body) {
  ip::threads_reset(n);
  g_go.store(0);
  std::vector<std::thread> th;
  for (int i = 0; i < n; i++)
    th.emplace_back([&, i] {
      while (!g_go.load(std::memory_order_acquire)) sched_yield();
      ip::thread_begin(i, mix(seed, i));
      body(i);
      ip::thread_end();
    });
  g_go.store(1, std::memory_order_release);
  uint64_t le = ~0ull;
  int same = 0;
  for (long spin = 0; !ip::all_done(n); spin++) {
    usleep(spin < 200 ? 50 : 2000);
    if (spin < 200) continue;
    std::string why;
    uint64_t e = ip::epochs();
    bool d = ip::deadlocked(&why);
    if (d && e == le) {
      if (++same >= 25) {
        fprintf(stderr, "DEADLOCK every unfinished thread waits for a lock held by another waiting one:%s\n", why.c_str());
        fflush(stderr);
        _exit(5);
      }
    } else same = 0;
    le = e;
  }
  for (auto &t : th) t.join();
}

// values that can be checked without knowing who wrote them
static Bytes cval(const H32 &k, uint64_t nonce, size_t n) {
  if (n < 24) n = 24;
  if (n > 1023) n = 1023;
  Bytes v(n);
  memcpy(v.data(), &nonce, 8);
  Rng r(mix(nonce, mix(k[0] | k[31] << 8 | k[15] << 16, n)));
  r.fill(v.data() + 8, n - 8);
  return v;
}
static bool cval_ok(const H32 &k, const Bytes &v) {
  if (v.size() < 24) return false;
  uint64_t nonce;
  memcpy(&nonce, v.data(), 8);
  return cval(k, nonce, v.size()) == v;
}

// ------------------------------------------------------------------ P12
namespace {
struct Wk {
  Rng r{1};
  std::vector<H32> roots;
  std::vector<urkel_tx_t *> mine;
  long ops = 0, commits = 0, found = 0, walks = 0;
  std::string bad, priv;
  urkel_t *pdb = nullptr;
  uint64_t mask = 0;
};
struct Plan { int w[17]; };
}
static const Plan plans[] = {
  // get has ins rem prove root inj iter txnew txop txcom shop shcom shclr shiter verify private
  {{10, 6, 8, 5, 5, 6, 3, 5, 8, 14, 5, 14, 4, 3, 4, 3, 2}},
  {{20, 5, 8, 2, 10, 3, 1, 10, 3, 3, 1, 2, 1, 0, 1, 2, 2}},
  {{2, 1, 1, 1, 1, 2, 1, 1, 1, 2, 1, 30, 8, 6, 8, 1, 2}},
  {{4, 2, 3, 2, 2, 2, 1, 30, 2, 4, 2, 6, 2, 1, 15, 1, 2}},
  {{12, 2, 14, 4, 6, 8, 4, 3, 12, 12, 12, 0, 0, 0, 0, 1, 2}},
  {{3, 3, 3, 3, 20, 10, 3, 2, 3, 6, 3, 15, 4, 4, 2, 1, 2}},
};
static void check_val(Wk &w, const char *what, const Res &g, const H32 &k) {
  if (g.ret) {
    w.found++;
    if (!cval_ok(k, g.v) && w.bad.empty()) w.bad = std::string(what) + " of " + hexs(k) + " returned " + std::to_string(g.v.size()) + " bytes that were never written for it";
  } else if (g.err != URKEL_ENOTFOUND && w.bad.empty()) w.bad = std::string(what) + " failed with " + ename(g.err);
}
static void walk(Wk &w, urkel_iter_t *it, bool partial) {
  IterRes x = a_walk(it, partial ? (long)w.r.below(6) : -1);
  w.walks++;
  for (size_t i = 0; i < x.recs.size(); i++) {
    if (i && !(x.recs[i - 1].first < x.recs[i].first) && w.bad.empty()) w.bad = "iteration out of order";
    if (!cval_ok(x.recs[i].first, x.recs[i].second) && w.bad.empty()) w.bad = "iteration gave a value that was never written for its key";
  }
  if (!partial && x.err != URKEL_EITEREND && w.bad.empty()) w.bad = std::string("iteration ended with ") + ename(x.err);
}
static void proved(Wk &w, const Res &p, const H32 &k, const H32 *root) {
  if (!p.ret) { if (w.bad.empty()) w.bad = std::string("prove failed with ") + ename(p.err); return; }
  if (!root) return;
  VRes v = a_verify(p.v, k, *root);
  if (!v.ret && w.bad.empty()) w.bad = std::string("a proof for a committed root does not verify: ") + ename(v.err);
  if (v.ret && v.exists && !cval_ok(k, v.value) && w.bad.empty()) w.bad = "a proof carries a value that was never written for its key";
}
static bool badw(Wk &w, const char *what, const Res &r, bool notfound_ok = false) {
  if (r.ret) return false;
  if (notfound_ok && r.err == URKEL_ENOTFOUND) return true;
  if (w.bad.empty()) w.bad = std::string(what) + " failed with " + ename(r.err);
  return true;
}
static void conc_op(Wk &w, urkel_t *db, const std::vector<H32> &keys, std::vector<urkel_tx_t *> &sh, const Plan &pl, int vlen) {
  Rng &r = w.r;
  int tot = 0;
  for (int x : pl.w) tot += x;
  int c = r.below(tot), op = 0;
  while (c >= pl.w[op]) c -= pl.w[op++];
  w.ops++;
  w.mask |= 1ull << op;
  const H32 &k = r.pick(keys);
  const H32 *root = r.chance(50) && !w.roots.empty() ? &w.roots[r.below(w.roots.size())] : nullptr;
  auto val = [&] { return cval(k, r.next(), 24 + r.below(vlen)); };
  auto txop = [&](urkel_tx_t *tx, bool shared) {
    switch (r.below(shared ? 7 : 6)) {
      case 0: case 1: badw(w, "tx insert", a_tx_insert(tx, k, val())); break;
      case 2: badw(w, "tx remove", a_tx_remove(tx, k), true); break;
      case 3: check_val(w, "tx get", a_tx_get(tx, k), k); break;
      case 4: badw(w, "tx has", a_tx_has(tx, k), true); break;
      case 5: proved(w, a_tx_prove(tx, k), k, nullptr); break;
      case 6: a_tx_root(tx); break;
    }
  };
  switch (op) {
    case 0: check_val(w, "get", a_get(db, k, root), k); break;
    case 1: badw(w, "has", a_has(db, k, root), true); break;
    case 2: if (!badw(w, "insert", a_insert(db, k, val()))) w.commits++; break;
    case 3: if (!badw(w, "remove", a_remove(db, k), true)) w.commits++; break;
    case 4: proved(w, a_prove(db, k, root), k, root); break;
    case 5: if (w.roots.size() < 40) w.roots.push_back(a_root(db)); else w.roots[r.below(40)] = a_root(db); break;
    case 6: if (!w.roots.empty()) badw(w, "inject", a_inject(db, r.pick(w.roots))); break;
    case 7: {
      urkel_iter_t *it = urkel_iterate(db, root ? root->data() : nullptr);
      if (!it) { if (w.bad.empty()) w.bad = "iterate failed"; break; }
      walk(w, it, r.chance(30));
      urkel_iter_destroy(it);
      break;
    }
    case 8: {
      if (w.mine.size() >= 3) { int i = r.below(w.mine.size()); urkel_tx_destroy(w.mine[i]); w.mine.erase(w.mine.begin() + i); }
      int e;
      urkel_tx_t *t = a_tx_create(db, root, &e);
      if (!t) { if (w.bad.empty()) w.bad = std::string("tx_create failed with ") + ename(e); break; }
      w.mine.push_back(t);
      break;
    }
    case 9: if (!w.mine.empty()) txop(r.pick(w.mine), false); break;
    case 10: if (!w.mine.empty()) { if (!badw(w, "commit", a_commit(r.pick(w.mine)))) w.commits++; } break;
    case 11: if (!sh.empty()) txop(r.pick(sh), true); break;
    case 12: if (!sh.empty()) { if (!badw(w, "commit", a_commit(r.pick(sh)))) w.commits++; } break;
    case 13: if (!sh.empty()) { if (r.chance(50) || w.roots.empty()) urkel_tx_clear(r.pick(sh)); else badw(w, "tx inject", a_tx_inject(r.pick(sh), r.pick(w.roots))); } break;
    case 14: {
      urkel_tx_t *t = sh.empty() || (r.chance(30) && !w.mine.empty()) ? (w.mine.empty() ? nullptr : r.pick(w.mine)) : r.pick(sh);
      if (!t) break;
      urkel_iter_t *it = urkel_iter_create(t);
      walk(w, it, r.chance(40));
      urkel_iter_destroy(it);
      break;
    }
    case 15: {
      Bytes junk(r.below(80));
      r.fill(junk.data(), junk.size());
      H32 h;
      r.fill(h.data(), 32);
      urkel_hash(h.data(), junk.data(), junk.size());
      a_verify(junk, k, h);
      a_has(db, k, &h);
      break;
    }
    case 16: {  // a database of this thread's own, in the same process
      int e;
      if (!w.pdb) {
        w.pdb = a_open(w.priv, &e);
        if (!w.pdb) { if (w.bad.empty()) w.bad = std::string("open of a second database failed with ") + ename(e); break; }
        break;
      }
      if (r.chance(15)) { urkel_close(w.pdb); w.pdb = nullptr; break; }
      if (r.chance(15)) { urkel_close(w.pdb); w.pdb = nullptr; badw(w, "destroy of a second database", a_destroy(w.priv)); break; }
      if (r.chance(60)) badw(w, "insert", a_insert(w.pdb, k, val())); else check_val(w, "get", a_get(w.pdb, k, nullptr), k);
      break;
    }
  }
}
static Limits conc_limits(Rng &r) {
  Limits l = real_limits;
  if (r.chance(75)) {
    l.max_file = r.chance(60) ? 1100 + r.below(3000) : 4096 * r.range(1, 6);
    if (r.chance(50)) l.wbuf = r.range(1, 3000);
    if (r.chance(50)) l.rbuf = r.range(76, 3000);
    if (r.chance(70)) l.max_open = r.range(1, 6);
  }
  return l;
}
void run_conc() {
  Rng r(mix(cx.seed, mix(cx.cas, 0xc0c0)));
  std::string path = cx.dir + "/db";
  ip::rm_rf(path);
  Limits l = conc_limits(r);
  set_limits(l);
  ip::jitter_permille.store(0);
  int nk = r.range(2, 40), nt = r.range(2, cx.thorough ? 12 : 8);
  int ops = r.range(10, cx.thorough ? 120 : 60);
  KeyGen kg = KeyGen::make(r, cx.cas % NFAM, nk);
  std::vector<H32> keys = kg.keys;
  for (int i = 0; i < 3; i++) keys.push_back(kg.absent(r));
  int e;
  urkel_t *db = a_open(path, &e);
  ORACLE(M(P12), db != nullptr, "open", "open of a new database failed with %s", ename(e));
  std::vector<H32> roots;
  int pre = r.below(8);
  for (int i = 0; i < pre; i++) {
    urkel_tx_t *tx = a_tx_create(db, nullptr);
    for (int j = r.below(15); j >= 0; j--) { H32 k = r.pick(keys); a_tx_insert(tx, k, cval(k, r.next(), 24 + r.below(200))); }
    a_commit(tx);
    urkel_tx_destroy(tx);
    roots.push_back(a_root(db));
  }
  // most of the time the threads start on a freshly opened handle, with nothing cached
  if (r.chance(70)) { urkel_close(db); db = a_open(path, &e); ORACLE(M(P12), db != nullptr, "open", "reopen failed with %s", ename(e)); }
  const Plan &pl = plans[r.below(6)];
  std::vector<urkel_tx_t *> sh;
  int nsh = r.below(4);
  for (int i = 0; i < nsh; i++) sh.push_back(a_tx_create(db, nullptr));
  int vlen = r.chance(50) ? 60 : 900;
  // an iterator shared by several threads which make no other call
  int nit = r.chance(25) ? r.range(2, 3) : 0;
  urkel_iter_t *sit = nullptr;
  std::atomic<int> left(nit);
  urkel_tx_t *stx = nullptr;
  if (nit) {
    stx = a_tx_create(db, nullptr);
    if (r.chance(50)) sit = urkel_iter_create(stx); else sit = urkel_iterate(db, nullptr);
    if (nt < nit + 1) nt = nit + 1;
  }
  ip::jitter_permille.store(r.chance(80) ? r.range(5, 400) : 0);
  long lk0 = ip::n_lock, d0 = ip::n_delay, c0 = ip::n_contended;
  std::vector<Wk> w(nt);
  for (int i = 0; i < nt; i++) { w[i].r = Rng(r.next()); w[i].roots = roots; w[i].roots.push_back(ZERO); w[i].priv = cx.dir + "/p" + std::to_string(i); ip::rm_rf(w[i].priv); }
  run_threads(nt, r.next(), [&](int i) {
    Wk &x = w[i];
    if (i < nit) {
      uint8_t *k = new uint8_t[32], *v = new uint8_t[1023];
      size_t n;
      for (int j = 0; j < ops; j++) {
        x.ops++;
        if (!urkel_iter_next(sit, k, v, &n)) break;
        H32 h;
        memcpy(h.data(), k, 32);
        if (!cval_ok(h, Bytes(v, v + n))) x.bad = "a shared iterator gave a value that was never written for its key";
      }
      delete[] k;
      delete[] v;
      if (left.fetch_sub(1) == 1) urkel_iter_destroy(sit);
      return;
    }
    for (int j = 0; j < ops; j++) conc_op(x, db, keys, sh, pl, vlen);
    for (auto *t : x.mine) urkel_tx_destroy(t);
    if (x.pdb) urkel_close(x.pdb);
  });
  ip::jitter_permille.store(0);
  uint64_t mask = 0;
  long commits = 0;
  for (auto &x : w) {
    cx.add("thread_ops", x.ops);
    cx.add("commits", x.commits);
    cx.add("records_found", x.found);
    cx.add("walks", x.walks);
    commits += x.commits;
    mask |= x.mask;
  }
  cx.add("lock_operations", ip::n_lock - lk0);
  cx.add("injected_delays", ip::n_delay - d0);
  cx.add("contended_locks", ip::n_contended - c0);
  cx.add("threads", nt);
  for (auto &x : w) ORACLE(M(P12), x.bad.empty(), "wrong-answer", "under concurrent use: %s", x.bad.c_str());
  for (auto *t : sh) urkel_tx_destroy(t);
  if (stx) urkel_tx_destroy(stx);
  // afterwards the database must be whole: every committed root a thread saw is readable
  for (auto &x : w) {
    H32 rt = r.pick(x.roots);
    urkel_iter_t *it = urkel_iterate(db, rt.data());
    ORACLE(M(P12), it != nullptr, "lost-root", "root %s, reported as committed to a thread, is unknown after the threads have finished", hexs(rt).c_str());
    IterRes ir = a_walk(it);
    urkel_iter_destroy(it);
    KV kv;
    for (auto &p : ir.recs) kv[p.first] = mkval(p.first, p.second);
    ORACLE(M(P12), ir.err == URKEL_EITEREND && ref_root(kv) == rt, "bad-root", "after the threads have finished the records under root %s do not hash to it (%zu records, %s)", hexs(rt).c_str(), ir.recs.size(), ename(ir.err));
  }
  H32 cur = a_root(db);
  (void)cur;
  urkel_close(db);
  {
    ip::Res lv = ip::live();
    ORACLE(M(P12, P14), lv.fds == 0 && lv.dirs == 0, "conc-leak-fd", "%ld descriptor(s) and %ld directory handle(s) are still open after the threads have finished and everything was closed: %s", lv.fds, lv.dirs, ip::leak_report(0).c_str());
    ORACLE(M(P12, P14), lv.allocs == 0, "conc-leak-memory", "%ld allocation(s) are not released after the threads have finished and everything was closed: %s", lv.allocs, ip::leak_report(0).c_str());
    cx.add("leak_checks");
  }
  if (cx.cas % 4 == 0) {
    DirImage im = ip::read_dir(path);
    DiskDb dd;
    bool ok = dd.load(im);
    ORACLE(M(P12), ok, "bad-disk", "after concurrent use the files do not decode: %s", dd.err.c_str());
    ORACLE(M(P12), commits == (long)dd.chain.size() - pre, "commit-count", "%ld commits were acknowledged by the threads but the files hold %ld", commits, (long)dd.chain.size() - pre);
    cx.add("disk_checks");
  }
  cx.seen("cases", mix(mask, mix(commits, mix(nt, mix(cur[0] | cur[1] << 8 | cur[2] << 16 | (uint64_t)cur[3] << 24, ops)))));
  cx.sample("case " + std::to_string(cx.cas) + ": " + std::to_string(nt) + " threads x " + std::to_string(ops) + " calls, " + std::to_string(commits) + " commits, " + std::to_string(ip::n_lock - lk0) + " lock operations, " + std::to_string(ip::n_delay - d0) + " injected delays");
}

// ------------------------------------------------------------------ P13
namespace {
enum LK { L_GET, L_HAS, L_INS, L_REM, L_ROOT, L_INJ, L_PROVE, L_WALK, L_TXNEW, L_TXGET, L_TXHAS, L_TXINS, L_TXREM, L_TXROOT, L_TXCOM, L_TXCLR, L_TXINJ, L_TXWALK, L_TXPROVE, L_FINAL, NLK };
const char *lkn[] = {"get", "has", "insert", "remove", "root", "inject", "prove", "iterate", "tx_create", "tx_get", "tx_has", "tx_insert", "tx_remove", "tx_root", "tx_commit", "tx_clear", "tx_inject", "tx_iterate", "tx_prove", "files"};
struct LOp {
  int kind, thread, tx = -1;
  bool hasroot = false;
  H32 root, key;
  Bytes val;
  // result
  int ret = 0, err = 0;
  H32 rroot;
  Bytes rv;
  std::vector<std::pair<H32, Bytes>> recs;
  std::vector<H32> finals;
  uint64_t inv = 0, rsp = 0;
  std::string str() const {
    char b[400];
    std::string what;
    if (kind == L_ROOT || kind == L_TXROOT) what = hexs(rroot);
    else if (kind == L_WALK || kind == L_TXWALK) what = std::to_string(recs.size()) + " records" + (ret ? "" : std::string(" ") + ename(err));
    else if (!ret) what = ename(err);
    else if (kind == L_GET || kind == L_TXGET) what = "value " + hex(rv.data(), std::min<size_t>(rv.size(), 4)) + "/" + std::to_string(rv.size());
    else what = "ok";
    snprintf(b, sizeof b, "[%llu,%llu] T%d %s%s key=%s%s%s%s -> %s", (unsigned long long)inv, (unsigned long long)rsp, thread, lkn[kind], tx >= 0 ? ("#" + std::to_string(tx)).c_str() : "",
             (hexs(key).substr(0, 4) + ".." + hex(key.data() + 30, 2)).c_str(), val.empty() ? "" : (" val=" + hex(val.data(), std::min<size_t>(val.size(), 4)) + "/" + std::to_string(val.size())).c_str(), hasroot ? " at=" : "", hasroot ? hexs(root).c_str() : "", what.c_str());
    return b;
  }
};
struct LState {
  VerP def;                 // default view
  std::vector<VerP> txs;
  std::set<H32> known;
  uint64_t id() const {
    uint64_t h = 0;
    auto m = [&](const H32 &x) { uint64_t v; memcpy(&v, x.data(), 8); h = mix(h, v); };
    m(def->root);
    for (auto &t : txs) { if (t) m(t->root); else h = mix(h, 1); }
    uint64_t s = 0;
    for (auto &k : known) { uint64_t v; memcpy(&v, k.data(), 8); s += mix(v, 3); }
    return mix(h, s);
  }
};
struct Checker {
  std::vector<LOp> ops;
  std::map<H32, VerP> vers;   // every version the search has built
  std::unordered_set<uint64_t> memo;
  uint64_t states = 0;
  size_t best = 0;
  std::vector<int> bestseq;
  int nt;
  std::vector<std::vector<int>> per;  // per-thread program order
  LState fin;
  static VerP with(const VerP &v, const H32 &k, const Bytes *b, std::map<H32, VerP> &vers) {
    KV kv = v->kv;
    if (b) { auto it = kv.find(k); if (it != kv.end() && it->second->v == *b) return v; kv[k] = mkval(k, *b); } else kv.erase(k);
    H32 h = ref_root(kv);
    auto it = vers.find(h);
    if (it != vers.end()) return it->second;
    return vers[h] = mkversion(kv);
  }
  bool chk_get(const VerP &v, const LOp &o) {
    auto it = v->kv.find(o.key);
    if (it == v->kv.end()) return !o.ret && o.err == URKEL_ENOTFOUND;
    return o.ret && o.rv == it->second->v;
  }
  bool chk_has(const VerP &v, const LOp &o) { return v->kv.count(o.key) ? o.ret : !o.ret && o.err == URKEL_ENOTFOUND; }
  bool chk_walk(const VerP &v, const LOp &o) {
    if (!o.ret || o.recs.size() != v->kv.size()) return false;
    size_t i = 0;
    for (auto &e : v->kv) { if (o.recs[i].first != e.first || o.recs[i].second != e.second->v) return false; i++; }
    return true;
  }
  // applies o to s if its result is what the model says
  bool apply(LState &s, const LOp &o) {
    VerP view = s.def;
    if (o.hasroot) {
      if (!s.known.count(o.root)) return !o.ret && o.err == URKEL_ENOTFOUND;
      auto it = vers.find(o.root);
      if (it == vers.end()) return false;
      view = it->second;
    }
    switch (o.kind) {
      case L_GET: return chk_get(view, o);
      case L_HAS: return chk_has(view, o);
      case L_PROVE: return o.ret && o.rv == view->prove(o.key);
      case L_WALK: return chk_walk(view, o);
      case L_ROOT: return o.rroot == s.def->root;
      case L_INJ: if (!o.ret) return false; s.def = view; return true;
      case L_INS: if (!o.ret) return false; s.def = with(s.def, o.key, &o.val, vers); s.known.insert(s.def->root); return true;
      case L_REM:
        if (!s.def->kv.count(o.key)) return !o.ret && o.err == URKEL_ENOTFOUND;
        if (!o.ret) return false;
        s.def = with(s.def, o.key, nullptr, vers);
        s.known.insert(s.def->root);
        return true;
      case L_TXNEW: if (!o.ret) return false; s.txs[o.tx] = view; return true;
      case L_TXGET: return chk_get(s.txs[o.tx], o);
      case L_TXHAS: return chk_has(s.txs[o.tx], o);
      case L_TXINS: if (!o.ret) return false; s.txs[o.tx] = with(s.txs[o.tx], o.key, &o.val, vers); return true;
      case L_TXREM:
        if (!s.txs[o.tx]->kv.count(o.key)) return !o.ret && o.err == URKEL_ENOTFOUND;
        if (!o.ret) return false;
        s.txs[o.tx] = with(s.txs[o.tx], o.key, nullptr, vers);
        return true;
      case L_TXROOT: return o.rroot == s.txs[o.tx]->root;
      case L_TXPROVE: return o.ret && o.rv == s.txs[o.tx]->prove(o.key);
      case L_TXWALK: return chk_walk(s.txs[o.tx], o);
      case L_TXCOM: if (!o.ret) return false; s.def = s.txs[o.tx]; s.known.insert(s.def->root); return true;
      case L_TXCLR: s.txs[o.tx] = s.def; return true;
      case L_TXINJ: if (!o.ret) return false; s.txs[o.tx] = view; return true;
      case L_FINAL: return s.known == std::set<H32>(o.finals.begin(), o.finals.end());
    }
    return false;
  }
  std::vector<int> seq;
  uint64_t cap = 1000000;
  int search(const LState &s, std::vector<int> &pos, size_t done) {  // 1 found, 0 no, -1 budget
    if (done == ops.size()) { fin = s; return 1; }
    uint64_t h = s.id();
    for (int p : pos) h = mix(h, p);
    if (!memo.insert(h).second) return 0;
    if (++states > cap) return -1;
    if (done > best) { best = done; bestseq = seq; }
    uint64_t minrsp = ~0ull;
    for (int t = 0; t < nt; t++) if (pos[t] < (int)per[t].size()) minrsp = std::min(minrsp, ops[per[t][pos[t]]].rsp);
    for (int t = 0; t < nt; t++) {
      if (pos[t] >= (int)per[t].size()) continue;
      int i = per[t][pos[t]];
      if (ops[i].inv > minrsp) continue;
      LState n = s;
      if (!apply(n, ops[i])) continue;
      pos[t]++;
      seq.push_back(i);
      int x = search(n, pos, done + 1);
      if (x) return x;
      seq.pop_back();
      pos[t]--;
    }
    return 0;
  }
};
}
static std::atomic<uint64_t> g_clock;
void run_lin() {
  Rng r(mix(cx.seed, mix(cx.cas, 0x11a)));
  std::string path = cx.dir + "/db";
  ip::rm_rf(path);
  set_limits(conc_limits(r));
  ip::jitter_permille.store(0);
  int nk = r.range(1, 10), nt = r.range(2, 5);
  KeyGen kg = KeyGen::make(r, cx.cas % NFAM, nk);
  std::vector<H32> keys = kg.keys;
  keys.push_back(kg.absent(r));
  int e;
  urkel_t *db = a_open(path, &e);
  ORACLE(M(P13), db != nullptr, "open", "open of a new database failed with %s", ename(e));
  LState st;
  std::map<H32, VerP> vers;
  VerP empty = mkversion(KV());
  vers[ZERO] = empty;
  st.def = empty;
  st.known.insert(ZERO);
  int nsh = r.below(3);
  const int NT = 5;
  st.txs.assign(nsh + NT, nullptr);
  std::vector<urkel_tx_t *> txs(nsh + NT, nullptr);
  int rounds = r.range(2, cx.thorough ? 12 : 6);
  int profile = r.below(5);
  uint64_t sig = 0;
  long overlaps = 0, nops = 0;
  uint64_t nonce = 1;
  for (int rd = 0; rd < rounds; rd++) {
    if (rd && r.chance(30)) {
      for (auto &t : txs) if (t) { urkel_tx_destroy(t); t = nullptr; }
      urkel_close(db);
      db = a_open(path, &e);
      ORACLE(M(P13), db != nullptr, "open", "reopen failed with %s", ename(e));
      for (auto &t : st.txs) t = nullptr;
      // the default view falls back to the last commit
      H32 rt = a_root(db);
      DirImage im = ip::read_dir(path);
      DiskDb dd;
      ORACLE(M(P13), dd.load(im), "bad-disk", "the files do not decode: %s", dd.err.c_str());
      auto it = vers.find(rt);
      ORACLE(M(P13), it != vers.end() && st.known.count(rt), "reopen-root", "after reopening the root %s is not one that was committed", hexs(rt).c_str());
      st.def = it->second;
    }
    for (int i = 0; i < nsh; i++)
      if (!txs[i]) {
        txs[i] = a_tx_create(db, nullptr, &e);
        ORACLE(M(P13), txs[i] != nullptr, "tx-create", "tx_create failed with %s", ename(e));
        st.txs[i] = st.def;
      }
    std::vector<H32> roots(st.known.begin(), st.known.end());
    std::vector<std::vector<LOp>> rec(nt);
    std::vector<Rng> rr;
    for (int i = 0; i < nt; i++) rr.push_back(Rng(r.next()));
    int per = r.range(2, nt > 3 ? 6 : 9);
    g_clock.store(1);
    ip::jitter_permille.store(r.chance(85) ? r.range(20, 500) : 0);
    run_threads(nt, r.next(), [&](int t) {
      Rng &q = rr[t];
      std::vector<H32> mine = roots;
      for (int j = 0; j < per; j++) {
        LOp o;
        o.thread = t;
        o.key = q.pick(keys);
        o.kind = -1;
        int own = nsh + t;
        auto any_tx = [&](int &x) { if (nsh && (!txs[own] || q.chance(70))) x = q.below(nsh); else x = own; return txs[x] != nullptr; };
        int c = q.below(100);
        switch (profile) {
          case 0: o.kind = c < 25 ? L_INS : c < 40 ? L_REM : c < 60 ? L_GET : c < 70 ? L_ROOT : c < 80 ? L_WALK : c < 88 ? L_PROVE : c < 94 ? L_HAS : L_INJ; break;
          case 1: o.kind = c < 15 ? L_TXNEW : c < 40 ? L_TXINS : c < 48 ? L_TXREM : c < 70 ? L_TXCOM : c < 80 ? L_GET : c < 88 ? L_ROOT : c < 95 ? L_WALK : L_TXWALK; break;
          case 2: o.kind = c < 25 ? L_TXINS : c < 35 ? L_TXREM : c < 50 ? L_TXGET : c < 60 ? L_TXROOT : c < 70 ? L_TXCOM : c < 77 ? L_TXCLR : c < 84 ? L_TXWALK : c < 90 ? L_TXPROVE : c < 94 ? L_TXINJ : L_TXHAS; break;
          case 3: o.kind = c < 20 ? L_INS : c < 50 ? L_WALK : c < 70 ? L_GET : c < 90 ? L_ROOT : L_PROVE; break;
          default: o.kind = q.below(L_FINAL);
        }
        if (o.kind >= L_TXGET && o.kind <= L_TXPROVE && !any_tx(o.tx)) o.kind = L_TXNEW;
        if (o.kind == L_TXNEW) { o.tx = own; if (txs[own]) { urkel_tx_destroy(txs[own]); txs[own] = nullptr; } }
        bool can = o.kind == L_GET || o.kind == L_HAS || o.kind == L_PROVE || o.kind == L_WALK || o.kind == L_TXNEW;
        if (o.kind == L_INJ || o.kind == L_TXINJ || (can && q.chance(35))) { o.hasroot = true; o.root = q.chance(50) ? mine.back() : q.pick(mine); }
        if (o.kind == L_INS || o.kind == L_TXINS) o.val = cval(o.key, mix(nonce + rd, (uint64_t)t << 32 | j), q.chance(60) ? 24 : 24 + q.below(700));
        const H32 *rp = o.hasroot ? &o.root : nullptr;
        Res x;
        o.inv = g_clock.fetch_add(1);
        switch (o.kind) {
          case L_GET: x = a_get(db, o.key, rp); break;
          case L_HAS: x = a_has(db, o.key, rp); break;
          case L_INS: x = a_insert(db, o.key, o.val); break;
          case L_REM: x = a_remove(db, o.key); break;
          case L_ROOT: o.rroot = a_root(db); x.ret = 1; break;
          case L_INJ: x = a_inject(db, o.root); break;
          case L_PROVE: x = a_prove(db, o.key, rp); break;
          case L_WALK: case L_TXWALK: {
            urkel_iter_t *it = o.kind == L_WALK ? urkel_iterate(db, rp ? rp->data() : nullptr) : urkel_iter_create(txs[o.tx]);
            if (!it) { x.err = urkel_errno; break; }
            IterRes ir = a_walk(it);
            urkel_iter_destroy(it);
            x.ret = ir.err == URKEL_EITEREND;
            x.err = ir.err;
            o.recs = ir.recs;
            break;
          }
          case L_TXNEW: { int er = 0; txs[own] = a_tx_create(db, rp, &er); x.ret = txs[own] != nullptr; x.err = er; break; }
          case L_TXGET: x = a_tx_get(txs[o.tx], o.key); break;
          case L_TXHAS: x = a_tx_has(txs[o.tx], o.key); break;
          case L_TXINS: x = a_tx_insert(txs[o.tx], o.key, o.val); break;
          case L_TXREM: x = a_tx_remove(txs[o.tx], o.key); break;
          case L_TXROOT: o.rroot = a_tx_root(txs[o.tx]); x.ret = 1; break;
          case L_TXCOM: x = a_commit(txs[o.tx]); break;
          case L_TXCLR: urkel_tx_clear(txs[o.tx]); x.ret = 1; break;
          case L_TXINJ: x = a_tx_inject(txs[o.tx], o.root); break;
          case L_TXPROVE: x = a_tx_prove(txs[o.tx], o.key); break;
        }
        o.rsp = g_clock.fetch_add(1);
        o.ret = x.ret;
        o.err = x.err;
        o.rv = x.v;
        if (o.kind == L_ROOT) mine.push_back(o.rroot);
        rec[t].push_back(o);
      }
    });
    ip::jitter_permille.store(0);
    // quiescent observations pin the final state
    Checker ck;
    ck.nt = nt + 1;
    ck.vers = vers;
    ck.per.resize(nt + 1);
    for (int t = 0; t < nt; t++) for (auto &o : rec[t]) { ck.per[t].push_back(ck.ops.size()); ck.ops.push_back(o); }
    auto fin = [&](LOp o) { o.thread = nt; o.key = keys[0]; o.inv = g_clock.fetch_add(1); o.rsp = g_clock.fetch_add(1); ck.per[nt].push_back(ck.ops.size()); ck.ops.push_back(o); };
    { LOp o; o.kind = L_ROOT; o.rroot = a_root(db); o.ret = 1; fin(o); }
    for (size_t i = 0; i < txs.size(); i++) if (txs[i]) { LOp o; o.kind = L_TXROOT; o.tx = i; o.rroot = a_tx_root(txs[i]); o.ret = 1; fin(o); }
    {
      LOp o;
      o.kind = L_FINAL;
      o.ret = 1;
      DirImage im = ip::read_dir(path);
      DiskDb dd;
      ORACLE(M(P13), dd.load(im), "bad-disk", "after concurrent use the files do not decode: %s", dd.err.c_str());
      o.finals.push_back(ZERO);
      for (auto &m : dd.chain) {
        KV kv;
        H32 h;
        ORACLE(M(P13), dd.decode(m.root, kv, h), "bad-disk", "after concurrent use a commit does not decode: %s", dd.err.c_str());
        o.finals.push_back(h);
        if (!vers.count(h)) vers[h] = mkversion(kv);
      }
      ck.vers = vers;
      fin(o);
    }
    for (size_t a = 0; a < ck.ops.size(); a++) for (size_t b = a + 1; b < ck.ops.size(); b++) if (ck.ops[a].thread != ck.ops[b].thread && ck.ops[a].inv < ck.ops[b].rsp && ck.ops[b].inv < ck.ops[a].rsp) overlaps++;
    nops += ck.ops.size();
    std::vector<int> pos(nt + 1, 0);
    int x = ck.search(st, pos, 0);
    cx.add("histories");
    cx.add("checker_states", ck.states);
    if (x < 0) { cx.add("undecided_histories"); break; }
    std::string h;
    if (x == 0) {
      // drop reads that are not needed for the contradiction
      Checker m;
      m.nt = ck.nt;
      m.vers = ck.vers;
      m.cap = 100000;
      auto build = [&](const std::vector<LOp> &v) { m.ops = v; m.per.assign(m.nt, {}); for (size_t i = 0; i < v.size(); i++) m.per[v[i].thread].push_back(i); m.memo.clear(); m.states = 0; m.seq.clear(); std::vector<int> p(m.nt, 0); return m.search(st, p, 0); };
      std::vector<LOp> s = ck.ops;
      for (size_t i = 0; i < s.size();) {
        static const std::set<int> pure = {L_GET, L_HAS, L_ROOT, L_PROVE, L_WALK, L_TXGET, L_TXHAS, L_TXROOT, L_TXWALK, L_TXPROVE, L_FINAL};
        if (pure.count(s[i].kind) || !s[i].ret) { std::vector<LOp> c = s; c.erase(c.begin() + i); if (build(c) == 0) { s = c; continue; } }
        i++;
      }
      std::sort(s.begin(), s.end(), [](const LOp &a, const LOp &b) { return a.inv < b.inv; });
      h = "\n  start: root " + hexs(st.def->root);
      for (auto &o : s) h += "\n  " + o.str();
    }
    ORACLE(M(P13), x == 1, "not-linearizable", "no order of the calls explains their results (%zu calls, at most %zu in order)%.3600s", ck.ops.size(), ck.best, h.c_str());
    for (int i : ck.seq) sig = mix(sig, ck.ops[i].kind * 8 + ck.ops[i].thread);
    st = ck.fin;
    for (auto &v : st.known) if (!vers.count(v)) vers[v] = ck.vers[v];
    vers[st.def->root] = st.def;
    for (auto &t : st.txs) if (t) vers[t->root] = t;
  }
  for (auto *t : txs) if (t) urkel_tx_destroy(t);
  urkel_close(db);
  cx.add("calls", nops);
  cx.add("overlapping_pairs", overlaps);
  if (overlaps) cx.seen("cases", sig);
  cx.sample("case " + std::to_string(cx.cas) + ": " + std::to_string(rounds) + " rounds of " + std::to_string(nt) + " threads, " + std::to_string(nops) + " calls, " + std::to_string(overlaps) + " overlapping pairs");
}
