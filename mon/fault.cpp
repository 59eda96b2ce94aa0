// Failing system calls (P09): every call made by an operation fails in turn
// (systematically), for a while, or at random; the answers given meanwhile and
// everything seen afterwards are judged.
#include "sim.h"
#include <errno.h>

static const Mask C = M(P09), L = M(P09, P14);
static const Mask E = M(P09, P19);   // failures: the code, the outputs, no effect
struct FTx { urkel_tx_t *tx; KV kv; bool bad; };   // bad: a commit of it failed
struct FS {
  Rng r;
  std::string path;
  Limits lim;
  urkel_t *db = nullptr;
  std::map<H32, VerP> hist;
  std::vector<H32> order;
  VerP last, def;
  std::vector<FTx> txs;
  KeyGen kg;
  int vmode = 0;
  std::string where;   // what was going on, for messages
  uint64_t sig = 0;
  FS(uint64_t s, const std::string &p) : r(s), path(p) { last = def = mkversion(KV()); hist[ZERO] = last; }

  ip::Fault plan(long n) {
    ip::Fault f;
    static const int E[] = {EIO, ENOSPC, EMFILE, ENOMEM, EACCES, EDQUOT, EBADF};
    f.cls = -1;
    f.nth = n;
    f.err = E[r.below(7)];
    f.partial = r.chance(45) ? (r.chance(50) ? (long)r.range(1, 60) : (long)r.range(1, 3000)) : 0;
    f.repeat = r.chance(60) ? 1 : r.chance(60) ? (long)r.range(2, 4) : -1;
    return f;
  }
  // one execution under a plan; returns whether a fault was injected
  template <class Fn> bool under(const char *what, const ip::Fault &f, Fn fn) {
    ip::arm(f);
    where = std::string(what) + " with call " + std::to_string(f.nth) + " failing";
    fn();
    long k = ip::fired();
    ip::disarm();
    cx.add("faulted_calls");
    if (k) {
      cx.add("faults_injected", k);
      std::string lf = ip::last_fault();
      where = std::string(what) + " with " + lf + " failing (call " + std::to_string(f.nth) + (f.repeat < 0 ? ", all later ones too" : "") + (f.partial ? ", after a partial one" : "") + ")";
      std::string cls = lf.substr(0, lf.find('('));
      cx.add(("fault_in_" + std::string(what)).c_str());
      cx.seen("fault_points", mix(mix(std::hash<std::string>()(what), std::hash<std::string>()(cls)), f.nth * 4 + (f.repeat < 0 ? 2 : 0) + (f.partial ? 1 : 0)));
      T("  fault: %s", where.c_str());
    }
    return k != 0;
  }
  void note(VerP v) { hist[v->root] = v; order.push_back(v->root); last = def = v; cx.add("commits"); }
  H32 any_root() { return order.empty() ? ZERO : r.chance(40) ? order[r.below(order.size())] : order[order.size() - 1 - r.below(std::min<size_t>(order.size(), 4))]; }
  H32 any_key(const KV &kv) {
    if (!kv.empty() && r.chance(65)) { auto it = kv.lower_bound(r.pick(kg.keys)); if (it == kv.end()) it = kv.begin(); return it->first; }
    return r.chance(70) ? r.pick(kg.keys) : kg.absent(r);
  }
  // the answer of a get; fault: failing is fine, wrong is not
  void judge_get(const char *what, const Res &g, const KV &kv, const H32 &k, bool fault, bool hasroot, bool bad) {
    auto it = kv.find(k);
    cx.add("oracle_evaluations");
    if (g.ret) {
      ORACLE(C, it != kv.end(), "fault-present-absent", "%s (%s): key %s is absent but was returned with %zu bytes", what, where.c_str(), hexs(k).c_str(), g.size);
      ORACLE(C, it == kv.end() || (g.size == it->second->v.size() && g.v == it->second->v), "fault-wrong-value", "%s (%s): wrong value of %zu bytes for %s", what, where.c_str(), g.size, hexs(k).c_str());
    } else {
      ORACLE(E, g.size == 0, "fault-size", "%s (%s) failed but left size %zu", what, where.c_str(), g.size);
      if (it != kv.end()) {
        ORACLE(C, fault || bad, "fault-lost", "%s (after %s): key %s is present but get failed with %s", what, where.c_str(), hexs(k).c_str(), ename(g.err));
        ORACLE(E, hasroot || g.err != URKEL_ENOTFOUND, "fault-as-absent", "%s (%s): a present key %s was reported as absent", what, where.c_str(), hexs(k).c_str());
      } else if (!fault && !bad) ORACLE(E, g.err == URKEL_ENOTFOUND, "fault-errno", "%s (after %s): absent key gives %s", what, where.c_str(), ename(g.err));
      ORACLE(E, g.err != ESENT && g.err != 0, "fault-no-errno", "%s (%s) failed without an error code", what, where.c_str());
    }
  }
  bool judge_walk(const char *what, urkel_iter_t *it, const KV &kv, bool fault, bool bad) {
    // read until the first failure; everything before it must be a correct prefix
    auto p = kv.begin();
    for (;;) {
      uint8_t k[32], v[1023];
      size_t n = 77;
      urkel_errno = ESENT;
      int ret = urkel_iter_next(it, k, v, &n);
      int e = urkel_errno;
      if (!ret) {
        if (e == URKEL_EITEREND) ORACLE(C, p == kv.end(), "fault-iter-short", "%s (%s): iteration ended early without an error", what, where.c_str());
        else { ORACLE(C, fault || bad, "fault-iter", "%s (after %s): iteration failed with %s", what, where.c_str(), ename(e)); ORACLE(E, e == URKEL_ECORRUPTION, "fault-iter-errno", "%s (%s): iteration failed with %s", what, where.c_str(), ename(e)); }
        return e == URKEL_EITEREND;
      }
      cx.add("records_compared");
      ORACLE(C, p != kv.end() && !memcmp(p->first.data(), k, 32) && p->second->v.size() == n && !memcmp(p->second->v.data(), v, n), "fault-iter-record", "%s (%s): wrong record %s", what, where.c_str(), hex(k, 6).c_str());
      ++p;
    }
  }
  void check_view(VerP v, const H32 *root, const char *what) {
    urkel_errno = ESENT;
    urkel_iter_t *it = urkel_iterate(db, root ? root->data() : nullptr);
    ORACLE(C, it != nullptr, "fault-view-lost", "%s view %s unreadable after %s: %s", what, hexs(v->root).c_str(), where.c_str(), ename(urkel_errno));
    judge_walk(what, it, v->kv, false, false);
    urkel_iter_destroy(it);
  }
  void settle(bool re) {   // faults are off: everything must be as acknowledged
    H32 h = a_root(db);
    ORACLE(E, h == def->root, "fault-root", "root is %s after %s, expected %s", hexs(h).c_str(), where.c_str(), hexs(def->root).c_str());
    check_view(def, nullptr, "current");
    for (int i = 0; i < 2 && !order.empty(); i++) { H32 x = any_root(); check_view(hist[x], &x, "historical"); }
    for (auto &t : txs) {
      for (int i = 0; i < 2; i++) { H32 k = any_key(t.kv); judge_get("tx_get", a_tx_get(t.tx, k), t.kv, k, false, false, t.bad); }
      if (r.chance(30)) { H32 x = a_tx_root(t.tx), w = ref_root(t.kv); ORACLE(E, x == w, "fault-tx-root", "transaction root %s after %s, expected %s", hexs(x).c_str(), where.c_str(), hexs(w).c_str()); }
    }
    cx.add("settled_checks");
    if (re) { close(false); open(false); }
  }
  void close(bool fault) {
    if (fault) { ip::Fault f = plan(r.range(1, 8)); ip::arm(f); }
    while (!txs.empty()) { urkel_tx_destroy(txs.back().tx); txs.pop_back(); }
    urkel_close(db);
    db = nullptr;
    if (fault) { if (ip::fired()) { where = "close with " + ip::last_fault() + " failing"; cx.add("fault_in_close"); cx.add("faults_injected", ip::fired()); } ip::disarm(); }
    ip::Res l = ip::live();
    ORACLE(L, l.allocs == 0, "fault-leak-memory", "%ld allocation(s) not released by close after %s: %s", l.allocs, where.c_str(), ip::leak_report(0).c_str());
    ORACLE(L, l.fds == 0 && l.dirs == 0, "fault-leak-fd", "%ld descriptor(s), %ld directory handle(s) not closed by close after %s: %s", l.fds, l.dirs, where.c_str(), ip::leak_report(0).c_str());
    DirImage im = ip::read_dir(path);
    DiskDb d;
    if (!order.empty()) {
      ORACLE(C, d.load(im), "fault-disk", "independent reader after %s: %s", where.c_str(), d.err.c_str());
      KV kv;
      H32 rt;
      ORACLE(C, !d.chain.empty() && d.decode(d.chain[0].root, kv, rt), "fault-disk", "independent reader after %s: %s", where.c_str(), d.err.c_str());
      ORACLE(C, rt == last->root, "fault-disk-root", "after %s the files end in a commit of root %s, but the last acknowledged is %s", where.c_str(), hexs(rt).c_str(), hexs(last->root).c_str());
    }
  }
  // what a writer that died left behind: bytes without a commit record after the last one
  void leftovers() {
    if (order.empty() || !r.chance(35)) return;
    DirImage im = ip::read_dir(path);
    uint32_t last_index = 0;
    for (auto &e : im) if (is_datafile(e.first)) last_index = std::max(last_index, (uint32_t)strtoul(e.first.c_str(), nullptr, 10));
    if (!last_index) return;
    for (int i = r.range(1, 2); i > 0; i--) {
      char nm[16];
      bool next = i == 1 ? r.chance(60) : false;
      snprintf(nm, sizeof nm, "%010u", last_index + (next ? 1 : 0));
      Bytes b = im.count(nm) ? im[nm] : Bytes();
      Bytes j(r.range(1, r.chance(50) ? 60 : 4000)); r.fill(j.data(), j.size());
      if (r.chance(30)) std::fill(j.begin(), j.end(), 0);
      b.insert(b.end(), j.begin(), j.end());
      ip::write_file(path + "/" + nm, b.data(), b.size());
      T("  left behind: %zu bytes in %s", j.size(), nm);
      cx.add("leftovers");
    }
  }
  void open(bool fault) {
    long n = 1;
    bool kept = false;
    leftovers();
    while (fault) {
      int err = 0;
      DirImage before = ip::read_dir(path);
      bool hit = under("open", plan(n), [&] { db = a_open(path, &err); });
      if (!hit) { ORACLE(C, db != nullptr, "fault-open", "open failed with %s without a fault, after %s", ename(err), where.c_str()); break; }
      if (db) {
        H32 h = a_root(db);
        ORACLE(C, h == last->root, "fault-open-root", "%s succeeded with root %s, expected %s", where.c_str(), hexs(h).c_str(), hexs(last->root).c_str());
        where = "a successful " + where;
        def = last;
        check_view(last, nullptr, "reopened");
        if (hit && r.chance(25)) { kept = true; cx.add("kept_after_fault"); break; }   // use it: its writes must not be lost
        urkel_close(db);
        db = nullptr;
        if (r.chance(30)) leftovers();
      } else {
        ORACLE(E, err == URKEL_EBADOPEN, "fault-open-errno", "%s: errno %s", where.c_str(), ename(err));
        ip::Res l = ip::live();
        ORACLE(L, l.allocs == 0, "fault-leak-memory", "%s leaked memory: %s", where.c_str(), ip::leak_report(0).c_str());
        ORACLE(L, l.fds == 0 && l.dirs == 0, "fault-leak-fd", "%s leaked descriptors: %s", where.c_str(), ip::leak_report(0).c_str());
      }
      // data files that hold commits are still there and intact
      DirImage after = ip::read_dir(path);
      for (auto &e : before) {
        if (e.first == "lock" || order.empty()) continue;
        if (e.first == "meta") ORACLE(E, after.count("meta") && after["meta"] == e.second, "fault-meta", "%s changed the meta file", where.c_str());
      }
      n++;
      if (n > 60) break;
    }
    (void)kept;
    if (!db) {
      int err;
      db = a_open(path, &err);
      ORACLE(C, db != nullptr, "fault-reopen", "the database does not open after %s: %s", where.c_str(), ename(err));
    }
    def = last;
    H32 h = a_root(db);
    ORACLE(C, h == last->root, "fault-reopen-root", "reopened with root %s after %s, expected %s", hexs(h).c_str(), where.c_str(), hexs(last->root).c_str());
    if (r.chance(50)) check_view(last, nullptr, "reopened");
    if (r.chance(30)) for (auto &e : hist) { H32 x = e.first; check_view(e.second, &x, "historical"); }
  }
  void mutate(FTx &t, int n) {   // faultless edits
    while (n-- > 0) {
      H32 k = any_key(t.kv);
      if (t.kv.count(k) && r.chance(35)) {
        Res x = a_tx_remove(t.tx, k);
        if (t.bad && !x.ret) continue;
        ORACLE(E, x.ret == 1, "fault-edit", "tx_remove failed with %s after %s", ename(x.err), where.c_str());
        t.kv.erase(k);
      } else {
        Bytes v = gen_value(r, vmode);
        Res x = a_tx_insert(t.tx, k, v);
        if (t.bad && !x.ret) continue;
        ORACLE(E, x.ret == 1, "fault-edit", "tx_insert failed with %s after %s", ename(x.err), where.c_str());
        t.kv[k] = mkval(k, v);
      }
    }
  }
  FTx &tx() {
    if (txs.empty() || (txs.size() < 3 && r.chance(30))) {
      int e;
      H32 h = any_root();
      bool old = r.chance(30);
      urkel_tx_t *x = a_tx_create(db, old ? &h : nullptr, &e);
      ORACLE(E, x != nullptr, "fault-tx", "tx_create failed with %s after %s", ename(e), where.c_str());
      txs.push_back({x, old ? hist[h]->kv : def->kv, false});
    }
    return txs[r.below(txs.size())];
  }
  // a commit that reports success had all its system calls succeed or be made good; a failed
  // flush cannot be made good by flushing again
  void acked(const char *what, bool hit, const Res &x) {
    if (!hit || !x.ret || ip::fired() != 1) return;
    std::string lf = ip::last_fault();
    cx.add("acknowledged_despite_fault");
    ORACLE(C, lf.compare(0, 5, "fsync") && lf.compare(0, 9, "fdatasync"), "fault-sync-ignored", "%s reported success although %s failed", what, lf.c_str());
  }
  void ep_commit() {
    FTx &t = tx();
    mutate(t, r.range(0, 12));
    VerP v = mkversion(t.kv);
    for (long n = 1; n < 80; n++) {
      Res x;
      bool hit = under("commit", plan(n), [&] { x = a_commit(t.tx); });
      acked("a commit", hit, x);
      if (x.ret) { note(v); t.bad = false; where = hit ? "a successful " + where : where; if (r.chance(50)) settle(r.chance(25)); break; }
      ORACLE(C, hit, "fault-commit", "a retried commit failed with %s without a fault, after %s", ename(x.err), where.c_str());
      ORACLE(E, x.err == URKEL_EBADWRITE, "fault-commit-errno", "%s: errno %s", where.c_str(), ename(x.err));
      t.bad = true;
      cx.add("failed_commits");
      int c = r.below(10);
      if (c < 3) settle(false);
      else if (c < 4) { settle(true); return; }
      else if (c < 5 && txs.size() > 1) {   // another transaction commits in between
        FTx &o = txs[&txs[0] == &t ? 1 : 0];
        bool was = o.bad;
        VerP w = mkversion(o.kv);
        Res y = a_commit(o.tx);
        ORACLE(E, y.ret == 1, "fault-commit-other", "a commit failed with %s after %s", ename(y.err), where.c_str());
        (void)was;
        o.bad = false;
        note(w);
        if (r.chance(60)) settle(r.chance(30));
        if (txs.empty()) return;
      } else if (c < 6) { urkel_tx_destroy(t.tx); txs.erase(txs.begin() + (&t - &txs[0])); settle(r.chance(40)); return; }
      else if (c < 7) { urkel_tx_clear(t.tx); t.kv = def->kv; t.bad = false; v = mkversion(t.kv); mutate(t, 3); v = mkversion(t.kv); }
      else if (c < 8) { mutate(t, r.range(1, 4)); v = mkversion(t.kv); }
    }
  }
  void ep_direct() {
    for (long n = 1; n < 80; n++) {
      KV kv = def->kv;
      H32 k = any_key(kv);
      bool rem = kv.count(k) && r.chance(40);
      Bytes val = gen_value(r, vmode);
      if (rem) kv.erase(k); else kv[k] = mkval(k, val);
      VerP v = mkversion(kv);
      Res x;
      bool hit = under(rem ? "remove" : "insert", plan(n), [&] { x = rem ? a_remove(db, k) : a_insert(db, k, val); });
      acked(rem ? "a direct remove" : "a direct insert", hit, x);
      if (x.ret) { note(v); if (!hit || r.chance(30)) { settle(r.chance(25)); if (!hit) break; } continue; }
      ORACLE(E, hit, "fault-direct", "a direct %s failed with %s without a fault, after %s", rem ? "remove" : "insert", ename(x.err), where.c_str());
      ORACLE(E, x.err == URKEL_EBADWRITE || x.err == URKEL_ECORRUPTION, "fault-direct-errno", "%s: errno %s", where.c_str(), ename(x.err));
      if (r.chance(40)) settle(r.chance(20));
    }
  }
  void ep_edit() {
    FTx &t = tx();
    for (long n = 1; n < 30; n++) {
      H32 k = any_key(t.kv);
      bool rem = r.chance(50);
      bool had = t.kv.count(k);
      Bytes val = gen_value(r, vmode);
      Res x;
      bool hit = under(rem ? "tx_remove" : "tx_insert", plan(n > 6 ? r.range(1, 3) : n), [&] { x = rem ? a_tx_remove(t.tx, k) : a_tx_insert(t.tx, k, val); });
      if (x.ret) {
        if (rem) { ORACLE(E, had, "fault-remove-absent", "%s removed an absent key", where.c_str()); t.kv.erase(k); } else t.kv[k] = mkval(k, val);
      } else {
        bool absent = rem && !had;
        ORACLE(E, hit || absent || t.bad, "fault-edit", "edit failed with %s after %s", ename(x.err), where.c_str());
        ORACLE(E, absent || x.err == URKEL_ECORRUPTION, "fault-edit-errno", "%s: errno %s", where.c_str(), ename(x.err));
      }
      if (!hit && n > 6) break;
      if (r.chance(25)) settle(false);
      if (txs.empty()) break;
    }
    settle(false);
  }
  void ep_read() {
    for (long n = 1; n < 14; n++) {
      bool hasroot = r.chance(50) && !order.empty();
      H32 h = hasroot ? any_root() : ZERO;
      VerP v = hasroot ? hist[h] : def;
      H32 k = any_key(v->kv);
      ip::Fault f = plan(n > 6 ? r.range(1, 4) : n);
      switch (r.below(6)) {
        case 0: case 1: { Res g; bool hit = under("get", f, [&] { g = a_get(db, k, hasroot ? &h : nullptr); }); judge_get("get", g, v->kv, k, hit, hasroot, false); break; }
        case 2: {
          Res g; bool hit = under("has", f, [&] { g = a_has(db, k, hasroot ? &h : nullptr); });
          bool in = v->kv.count(k);
          if (g.ret) ORACLE(C, in, "fault-present-absent", "has (%s): key absent", where.c_str());
          else { ORACLE(C, !in || hit, "fault-lost", "has failed with %s after %s", ename(g.err), where.c_str()); ORACLE(E, !in || hasroot || g.err != URKEL_ENOTFOUND, "fault-as-absent", "has (%s): present key reported absent", where.c_str()); }
          break;
        }
        case 3: {
          Res p; bool hit = under("prove", f, [&] { p = a_prove(db, k, hasroot ? &h : nullptr); });
          if (p.ret) check_verify(v, k, p.v, v->root, C);
          else { ORACLE(C, hit, "fault-prove", "prove failed with %s after %s", ename(p.err), where.c_str()); ORACLE(E, p.size == 0, "fault-prove-out", "prove (%s) failed without clearing its outputs", where.c_str()); }
          break;
        }
        case 4: {
          urkel_iter_t *it = nullptr;
          bool full = true;
          bool hit = false;
          ip::arm(f);
          where = "iterate with a failing call";
          it = urkel_iterate(db, hasroot ? h.data() : nullptr);
          if (it) { full = judge_walk("iterate", it, v->kv, true, false); urkel_iter_destroy(it); }
          hit = ip::fired();
          ip::disarm();
          if (hit) { cx.add("faults_injected"); cx.add("fault_in_iterate"); where = "iterate with " + ip::last_fault() + " failing"; }
          ORACLE(E, hit || (it && full), "fault-iterate", "iterate failed without a fault, after %s", where.c_str());
          break;
        }
        default: {
          bool ontx = !txs.empty() && r.chance(50);
          H32 x = any_root();
          Res g; FTx *t = ontx ? &txs[r.below(txs.size())] : nullptr;
          bool hit = under("inject", f, [&] { g = ontx ? a_tx_inject(t->tx, x) : a_inject(db, x); });
          if (g.ret) { if (ontx) { t->kv = hist[x]->kv; t->bad = false; } else def = hist[x]; }
          else ORACLE(E, hit, "fault-inject", "inject failed with %s after %s", ename(g.err), where.c_str());
        }
      }
      if (r.chance(15)) { bool any = r.chance(30); settle(any); }
    }
  }
  // a period during which calls fail at random
  void ep_storm() {
    static const uint32_t MASKS[] = {~0u, 1u << ip::C_WRITE, 1u << ip::C_MMAP, 1u << ip::C_OPEN, (1u << ip::C_FSYNC) | (1u << ip::C_FTRUNC) | (1u << ip::C_WRITE)};
    int ops = r.range(4, 20);
    unsigned pm = r.chance(20) ? 1000 : (unsigned)r.range(30, 500);
    uint32_t mask = MASKS[r.below(5)];
    where = "a period of failing calls";
    for (int i = 0; i < ops; i++) {
      FTx &t = tx();
      if (!t.bad) mutate(t, r.range(0, 6));
      VerP v = mkversion(t.kv);
      ip::arm_random(r.next(), pm, mask);
      if (r.chance(65)) {
        Res x = a_commit(t.tx);
        if (x.ret) { note(v); t.bad = false; }
        else { ORACLE(C, ip::fired(), "fault-commit", "commit failed with %s without a fault", ename(x.err)); t.bad = true; cx.add("failed_commits"); }
      } else {
        H32 k = any_key(def->kv);
        Res g = a_get(db, k, nullptr);
        judge_get("get", g, def->kv, k, ip::fired() > 0, false, false);
      }
      cx.add("faults_injected", ip::fired());
      ip::disarm();
      if (r.chance(20)) { bool re = r.chance(20); settle(re); }
    }
    settle(r.chance(40));
    // once faults stop, everything works
    FTx &t = tx();
    VerP v = mkversion(t.kv);
    Res x = a_commit(t.tx);
    ORACLE(E, x.ret == 1, "fault-commit-after", "commit failed with %s after %s", ename(x.err), where.c_str());
    note(v);
    t.bad = false;
    settle(r.chance(50));
  }
  void ep_destroy() {
    close(false);
    for (long n = 1; n < 60; n++) {
      Res x;
      bool hit = under("destroy", plan(n), [&] { x = a_destroy(path); });
      ip::Res l = ip::live();
      ORACLE(L, l.allocs == 0, "fault-leak-memory", "%s leaked memory: %s", where.c_str(), ip::leak_report(0).c_str());
      ORACLE(L, l.fds == 0 && l.dirs == 0, "fault-leak-fd", "%s leaked descriptors: %s", where.c_str(), ip::leak_report(0).c_str());
      if (x.ret) { ORACLE(C, !ip::exists(path), "fault-destroy", "%s reported success but the database is still there", where.c_str()); break; }
      ORACLE(C, hit, "fault-destroy", "destroy failed with %s without a fault, after %s", ename(x.err), where.c_str());
      ORACLE(E, x.err == URKEL_EBADOPEN, "fault-destroy-errno", "%s: errno %s", where.c_str(), ename(x.err));
      if (!ip::exists(path)) break;
    }
    if (ip::exists(path)) {
      Res x = a_destroy(path);
      ORACLE(C, x.ret == 1 && !ip::exists(path), "fault-destroy", "destroy failed with %s without a fault, after %s", ename(x.err), where.c_str());
    }
    hist.clear(); order.clear();
    last = def = mkversion(KV());
    hist[ZERO] = last;
    open(r.chance(50));
  }
};

void run_fault() {
  Rng r(mix(cx.seed, mix(cx.cas, 0xfa017)));
  std::string path = cx.dir + "/db";
  ip::rm_rf(path);
  Limits l = gen_limits(r, !r.chance(10));
  if (r.chance(60)) l.wbuf = r.range(1, 2000);
  if (r.chance(60)) l.max_open = r.range(1, 3);
  set_limits(l);
  FS f(r.next(), path);
  f.lim = l;
  f.kg = KeyGen::make(r, cx.cas % NFAM, r.range(2, 60));
  f.vmode = r.below(5);
  T("case %ld limits %llu/%zu/%zu/%zu", cx.cas, (unsigned long long)l.max_file, l.wbuf, l.rbuf, l.max_open);
  f.open(true);
  int eps = r.range(6, cx.thorough ? 60 : 26);
  uint64_t sig = 0;
  for (int i = 0; i < eps; i++) {
    int c = r.below(20);
    sig |= 1u << c;
    T("episode %d kind %d", i, c);
    if (c < 7) f.ep_commit();
    else if (c < 10) f.ep_direct();
    else if (c < 12) f.ep_edit();
    else if (c < 15) { if (r.chance(50)) f.settle(true); f.ep_read(); }
    else if (c < 17) f.ep_storm();
    else if (c < 19) { f.close(r.chance(70)); f.open(r.chance(70)); }
    else if (r.chance(30)) f.ep_destroy();
    else f.settle(true);
  }
  f.settle(true);
  f.close(false);
  cx.seen("cases", mix(sig, mix(f.order.size(), *(const uint64_t *)f.last->root.data())));
  cx.sample("case " + std::to_string(cx.cas) + ": " + std::to_string(eps) + " episodes, " + std::to_string(f.order.size()) + " acknowledged commits, last: " + f.where);
}
