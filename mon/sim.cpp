// Model-based monitoring of random API histories (P01 P02 P03 P06 P07 P11 P14 P17 P19 P21).
#include "sim.h"
#include <stdlib.h>
#include <unistd.h>

const Mask R_CUR = M(P10, P01, P06, P17), R_HIST = M(P10, P07, P17), R_ROOT = M(P10, P02, P06, P17, P07), R_PROOF = M(P10, P03, P17),
           R_ITER = M(P10, P11, P17, P06, P07, P01), R_ERR = M(P10, P19), R_RET = M(P10, P01, P02, P03, P06, P07, P08, P11, P17, P19, P21), R_DISK = M(P21), R_LEAK = M(P14);

static std::string ks(const H32 &k) { return hexs(k); }

void check_read(Mask m, const char *what, const Res &g, const KV &kv, const H32 &k) {
  auto it = kv.find(k);
  if (it == kv.end()) {
    ORACLE(m, g.ret == 0, "present-absent", "%s(%s) succeeded (%zu bytes) but the key is absent", what, ks(k).c_str(), g.size);
    ORACLE(m | R_ERR, g.ret == 0 && g.err == URKEL_ENOTFOUND, "errno-absent", "%s(%s) of an absent key: ret=%d errno=%s, expected ENOTFOUND", what, ks(k).c_str(), g.ret, ename(g.err));
  } else {
    ORACLE(m, g.ret != 0, "lost-key", "%s(%s) failed with %s but the key is present with %zu bytes", what, ks(k).c_str(), ename(g.err), it->second->v.size());
  }
}
static void check_get(Mask m, const char *what, const Res &g, const KV &kv, const H32 &k) {
  check_read(m, what, g, kv, k);
  auto it = kv.find(k);
  if (it == kv.end()) ORACLE(R_ERR | m, g.size == 0, "size-not-cleared", "%s(%s) failed but left size=%zu", what, ks(k).c_str(), g.size);
  else ORACLE(m, g.size == it->second->v.size() && g.v == it->second->v, "wrong-value", "%s(%s) returned %zu bytes %s.., expected %zu bytes %s..", what, ks(k).c_str(), g.size,
              hex(g.v.data(), std::min<size_t>(g.v.size(), 8)).c_str(), it->second->v.size(), hex(it->second->v.data(), std::min<size_t>(it->second->v.size(), 8)).c_str());
}
void check_verify(const VerP &v, const H32 &k, const Bytes &proof, const H32 &root, Mask m) {
  VRes r = a_verify(proof, k, root);
  auto it = v->kv.find(k);
  if (cx.trace) T("proof %s\ncanon %s", hex(proof.data(), proof.size()).c_str(), hex(v->prove(k).data(), v->prove(k).size()).c_str());
  ORACLE(m, r.ret == 1, "proof-rejected", "proof of %s against root %s rejected: %s", ks(k).c_str(), ks(root).c_str(), ename(r.err));
  if (it == v->kv.end()) ORACLE(m, r.ret != 1 || (r.exists == 0 && r.len == 0), "proof-absent", "proof shows existence of an absent key %s", ks(k).c_str());
  else ORACLE(m, r.ret != 1 || (r.exists == 1 && r.len == it->second->v.size() && r.value == it->second->v), "proof-value", "proof of %s shows exists=%d, %zu bytes, expected %zu", ks(k).c_str(), r.exists, r.len, it->second->v.size());
}

Sim::Sim(uint64_t seed, const std::string &p) : r(seed), path(p) {
  empty = mkversion(KV());
  hist[ZERO] = empty;
  last = def = empty;
}
Sim::~Sim() {}

H32 Sim::any_key() {
  if (!hot.empty() && r.chance(35)) return hot[r.below(hot.size())];
  if (r.chance(75)) return r.pick(kg.keys);
  return kg.absent(r);
}
void Sim::touch(const H32 &k) { if (hot.size() >= 8) hot[r.below(8)] = k; else hot.push_back(k); }
H32 Sim::known_root() {
  if (!order.empty() && r.chance(40)) return r.pick(order);
  if (r.chance(10)) return ZERO;
  if (r.chance(15)) return last->root;
  size_t k = r.below(hist.size());
  auto it = hist.begin();
  while (k--) ++it;
  return it->first;
}
H32 Sim::unknown_root() {
  H32 h;
  for (;;) {
    switch (r.below(other ? 5 : 4)) {
      case 0: r.fill(h.data(), 32); break;
      case 4: h = other->known_root(); break;   // of the other database
      case 1: h = known_root(); kflip(h, r.below(256)); break;
      case 2: h = ZERO; h[31] = 1; break;
      default:
        // a real root of an uncommitted state, or of an inner node
        if (!txs.empty() && !txs[r.below(txs.size())].kv.empty()) h = ref_root(txs[r.below(txs.size())].kv);
        else if (!last->kv.empty()) { last->build(); if (last->nodes.size() < 2) { r.fill(h.data(), 32); } else h = last->nodes[r.below(last->nodes.size())].hash; }
        else r.fill(h.data(), 32);
    }
    if (!hist.count(h)) return h;
  }
}
int Sim::nopen = 0;
void Sim::open() {
  int e;
  T("open %s", path.c_str());
  db = a_open(path, &e);
  ORACLE(~0u, db != nullptr, "open-failed", "open of an intact database failed: %s", ename(e));
  def = last;
  opens++;
  nopen++;
}
void Sim::close_all() {
  while (!txs.empty()) { urkel_tx_destroy(txs.back().tx); txs.pop_back(); }
  T("close");
  urkel_close(db);
  db = nullptr;
  if (--nopen) return;   // the ledger holds what the other database uses
  ip::Res l = ip::live();
  ORACLE(R_LEAK, l.allocs == 0, "leak-memory", "%ld allocation(s) not released after close: %s", l.allocs, ip::leak_report(0).c_str());
  ORACLE(R_LEAK, l.fds == 0, "leak-fd", "%ld descriptor(s) not closed: %s", l.fds, ip::leak_report(0).c_str());
  ORACLE(R_LEAK, l.maps == 0 && l.dirs == 0, "leak-map", "%ld mapping(s), %ld directory handle(s) not released after close", l.maps, l.dirs);
}
void Sim::reopen() { close_all(); open(); T("reopened"); cx.add("reopens"); }

void Sim::committed(VerP v) {
  inflight = nullptr;
  hist[v->root] = v;
  order.push_back(v->root);
  last = def = v;
  ncommits++;
  cx.add("commits");
  cx.seen("roots", *(const uint64_t *)v->root.data());
  if (cx.wants(R_DISK)) check_disk();
  if (cx.wants(M(P17))) {
    for (auto &n : ip::list_dir(path)) {
      if (!is_datafile(n)) continue;
      long sz = 0;
      Bytes b;
      ip::read_file(path + "/" + n, b);
      sz = b.size();
      ORACLE(M(P17), (uint64_t)sz <= lim.max_file, "file-too-big", "data file %s has %ld bytes, limit %llu", n.c_str(), sz, (unsigned long long)lim.max_file);
      cx.stats["max_files"] = std::max(cx.stats["max_files"], atol(n.c_str()));
    }
    ip::Res l = ip::live();
    ORACLE(M(P17), nopen > 1 || l.fds <= (long)lim.max_open + 3, "too-many-fds", "%ld descriptors open after a commit (max open files %zu)", l.fds, lim.max_open);
    ORACLE(M(P17), nopen > 1 || l.maps <= (long)lim.max_open + 1, "too-many-maps", "%ld files mapped after a commit (max open files %zu)", l.maps, lim.max_open);
  }
}
void Sim::check_disk() {
  DirImage im = ip::read_dir(path);
  for (auto &e : img) {
    if (e.first == "lock") continue;
    auto it = im.find(e.first);
    ORACLE(R_DISK, it != im.end(), "file-removed", "file %s with committed data disappeared", e.first.c_str());
    bool ok = it->second.size() >= e.second.size() && std::equal(e.second.begin(), e.second.end(), it->second.begin());
    size_t off = 0;
    if (!ok) while (off < e.second.size() && off < it->second.size() && e.second[off] == it->second[off]) off++;
    ORACLE(R_DISK, ok, "not-append-only", "committed bytes of %s changed at offset %zu (was %zu bytes, now %zu)", e.first.c_str(), off, e.second.size(), it->second.size());
    if (e.first == "meta") ORACLE(R_DISK, it->second == e.second, "key-changed", "the meta file changed");
  }
  img = im;
  DiskDb d;
  bool ok = d.load(img);
  ORACLE(R_DISK, ok, "disk-unreadable", "independent reader: %s", d.err.c_str());
  if (ncommits) {
    ORACLE(R_DISK, !d.chain.empty(), "no-commit-record", "no valid commit record after an acknowledged commit");
    // chain (deduplicated) must be the commit history, newest first
    std::vector<H32> want;
    for (auto &h : order) if (want.empty() || want.back() != h) want.push_back(h);
    size_t wi = want.size(), ci = 0;
    bool first = true;
    H32 prev;
    for (auto &m : d.chain) {
      KV kv;
      H32 root;
      bool full = ci < 2 || r.chance(10);
      // decoding every link fully is quadratic: do the newest two and a sample
      if (!full && d.chain.size() > 6) { ci++; break; }
      bool dok = d.decode(m.root, kv, root);
      ORACLE(R_DISK, dok, "disk-tree", "independent reader: commit record %zu: %s", ci, d.err.c_str());
      if (first || root != prev) {
        ORACLE(R_DISK, wi > 0, "disk-extra-commit", "commit record %zu (root %s) does not correspond to any commit", ci, ks(root).c_str());
        wi--;
        ORACLE(R_DISK, root == want[wi], "disk-wrong-root", "commit record %zu has root %s, expected %s", ci, ks(root).c_str(), ks(want[wi]).c_str());
        const KV &ex = hist[root]->kv;
        ORACLE(R_DISK, kv_eq(kv, ex), "disk-records", "commit record %zu leads to other records than were committed", ci);
      }
      prev = root;
      first = false;
      ci++;
    }
    ORACLE(R_DISK, d.chain.size() >= want.size(), "disk-chain", "%zu commit records for %zu commits", d.chain.size(), want.size());
    cx.add("disk_checks");
  }
}

// A new value for k: anything, or a small change of the one it has, or the one of another key.
Bytes Sim::value(const KV &kv, const H32 &k) {
  auto it = kv.find(k);
  if (it == kv.end() || !r.chance(25)) {
    if (kv.empty() || !r.chance(6)) return gen_value(r, vmode);
    auto o = kv.lower_bound(r.pick(kg.keys));
    return (o == kv.end() ? kv.begin() : o)->second->v;
  }
  cx.add("near_values");
  Bytes v = it->second->v;
  size_t n = v.size();
  switch (r.below(5)) {
    case 0: if (n) { v[n - 1] ^= 1 << r.below(8); break; }   // fall through
    case 1: if (n) { v[r.below(n)] ^= 1 << r.below(8); break; }   // fall through
    case 2: if (n < 1023) { v.push_back(r.chance(50) ? 0 : (uint8_t)r.next()); break; }   // fall through
    case 3: if (n) { v.pop_back(); break; }   // fall through
    default: v.resize(r.below(n + 1)); break;
  }
  return v;
}
void Sim::snap() { if (cx.prop == P19) { before = ip::read_dir(path); } }
void Sim::unchanged(const char *what) {
  if (cx.prop != P19) return;
  DirImage a = ip::read_dir(path);
  ORACLE(R_ERR, a == before, "failed-call-wrote", "%s failed but changed the files on disk", what);
  cx.add("no_effect_checks");
}

void Sim::full_check(const char *why, int nh) {
  T("full check (%s)", why);
  H32 h = a_root(db);
  ORACLE(R_ROOT | R_CUR, h == def->root, "root-default", "%s: database root %s, expected %s", why, ks(h).c_str(), ks(def->root).c_str());
  view_check(def, nullptr, R_CUR | R_HIST, why, 12);
  // history
  std::vector<H32> hs;
  for (auto &e : hist) hs.push_back(e.first);
  for (size_t i = hs.size(); i > 1; i--) std::swap(hs[i - 1], hs[r.below(i)]);
  for (auto &x : hs) {
    if (nh-- <= 0) break;
    view_check(hist[x], &x, R_HIST, why, 3);
  }
}
void Sim::view_check(VerP v, const H32 *root, Mask m, const char *why, int nprobe) {
  urkel_errno = ESENT;
  urkel_iter_t *it = urkel_iterate(db, root ? root->data() : nullptr);
  ORACLE(m | R_RET, it != nullptr, "iterate-failed", "%s: iterate(%s) failed: %s", why, root ? ks(*root).c_str() : "default", ename(urkel_errno));
  IterRes ir = a_walk(it);
  urkel_iter_destroy(it);
  cx.add("records_compared", ir.recs.size());
  ORACLE(m | R_ITER, same(v->kv, ir), "view-records", "%s: view %s: %s (end errno %s)", why, root ? ks(*root).c_str() : "default", kvdiff(v->kv, ir).c_str(), ename(ir.err));
  ORACLE(m | R_ITER, ir.err == URKEL_EITEREND && ir.sticky_end, "iter-end", "%s: iteration ended with %s, sticky=%d", why, ename(ir.err), ir.sticky_end);
  std::vector<H32> pk;
  for (auto &e : v->kv) pk.push_back(e.first);
  for (int i = 0; i < nprobe; i++) {
    H32 k = pk.empty() || r.chance(25) ? kg.absent(r) : r.pick(pk);
    check_get(m, "get", a_get(db, k, root), v->kv, k);
    if (r.chance(30)) check_read(m, "has", a_has(db, k, root), v->kv, k);
    if (cx.wants(R_PROOF | M(P07)) && r.chance(50)) {
      Res p = a_prove(db, k, root);
      ORACLE(R_PROOF | m | R_RET, p.ret == 1, "prove-failed", "%s: prove(%s) failed: %s", why, ks(k).c_str(), ename(p.err));
      check_verify(v, k, p.v, v->root, R_PROOF | M(P07));
      Bytes cp = v->prove(k);
      ORACLE(R_PROOF, p.v == cp, "proof-bytes", "proof of %s is %s.., canonical form is %s..", ks(k).c_str(), hex(p.v.data(), std::min<size_t>(p.v.size(), 40)).c_str(), hex(cp.data(), std::min<size_t>(cp.size(), 40)).c_str());
      cx.add("proofs");
    }
  }
}
void Sim::tx_check(TxS &t, const char *why, int nprobe) {
  VerP v = mkversion(t.kv);
  if (cx.wants(R_ROOT) && r.chance(60)) {
    H32 h = a_tx_root(t.tx);
    ORACLE(R_ROOT, h == v->root, "root-tx", "%s: transaction root %s, expected %s for its %zu records", why, ks(h).c_str(), ks(v->root).c_str(), t.kv.size());
    cx.add("root_checks");
    cx.seen("roots", *(const uint64_t *)h.data());
  }
  std::vector<H32> pk;
  for (auto &e : t.kv) pk.push_back(e.first);
  for (int i = 0; i < nprobe; i++) {
    H32 k = pk.empty() || r.chance(40) ? any_key() : r.pick(pk);
    check_get(R_CUR, "tx_get", a_tx_get(t.tx, k), t.kv, k);
  }
  if (cx.wants(R_ITER) && r.chance(50)) {
    urkel_iter_t *it = urkel_iter_create(t.tx);
    IterRes ir = a_walk(it);
    urkel_iter_destroy(it);
    ORACLE(R_ITER, same(t.kv, ir), "tx-records", "%s: transaction view: %s", why, kvdiff(t.kv, ir).c_str());
    cx.add("records_compared", ir.recs.size());
  }
}
void Sim::op() {
  // weights
  struct W { int op; int w; };
  enum { CRE, DES, INS, OVR, SAMEV, REM, REMA, GET, HAS, ROOT, PROVE, ITER, CLEAR, INJ, INJU, COM, DGET, DHAS, DPROVE, DITER, DINS, DREM, DREMA, DINJ, DINJU, REOPEN, DROOT, BIG, DUNK, BULK, FULL, DESTROY, VBAD, BADPATH, EMPTYC, NOP };
  std::vector<int> w(NOP);
  auto set = [&](std::initializer_list<W> l) { for (auto &x : l) w[x.op] = x.w; };
  set({{CRE, 5}, {DES, 2}, {INS, 20}, {OVR, 6}, {SAMEV, 2}, {REM, 9}, {REMA, 2}, {GET, 8}, {HAS, 3}, {ROOT, 3}, {PROVE, 1}, {ITER, 1}, {CLEAR, 1}, {INJ, 1}, {INJU, 1}, {COM, 6},
       {DGET, 4}, {DHAS, 2}, {DPROVE, 1}, {DITER, 1}, {DINS, 2}, {DREM, 2}, {DREMA, 1}, {DINJ, 1}, {DINJU, 1}, {REOPEN, 2}, {DROOT, 2}, {BIG, 1}, {DUNK, 1}, {BULK, 4}, {FULL, 1}, {DESTROY, 0}});
  switch (cx.prop) {
    case P01: set({{GET, 14}, {HAS, 5}, {DGET, 8}, {SAMEV, 5}, {REMA, 4}, {DREMA, 2}, {DINS, 4}, {REOPEN, 3}, {DESTROY, 1}}); break;
    case P02: set({{ROOT, 14}, {DROOT, 6}, {REM, 16}, {CLEAR, 2}}); break;
    case P03: set({{PROVE, 16}, {DPROVE, 14}, {GET, 1}, {HAS, 1}}); break;
    case P06: set({{CRE, 10}, {DES, 5}, {CLEAR, 5}, {INJ, 4}, {GET, 14}, {DGET, 8}, {ITER, 3}, {DITER, 3}, {ROOT, 6}, {DROOT, 6}, {DINJ, 3}, {COM, 8}}); break;
    case P07: set({{DINJ, 5}, {INJ, 4}, {DGET, 16}, {DHAS, 5}, {DPROVE, 4}, {DITER, 4}, {REOPEN, 6}, {COM, 10}, {DUNK, 6}, {DINJU, 3}, {INJU, 3}, {CRE, 8}, {DES, 5}, {CLEAR, 2}}); break;
    case P11: set({{ITER, 14}, {DITER, 14}, {INS, 26}, {REM, 10}}); break;
    case P14: set({{PROVE, 4}, {DPROVE, 4}, {ITER, 4}, {DITER, 4}, {CLEAR, 4}, {INJ, 3}, {INJU, 3}, {BIG, 3}, {DUNK, 4}, {DESTROY, 1}, {REOPEN, 4}, {CRE, 8}, {DES, 6}}); break;
    case P17: set({{COM, 12}, {REOPEN, 5}, {DGET, 12}, {DITER, 3}, {DINS, 6}, {DREM, 4}, {BULK, 8}, {DPROVE, 3}}); break;
    case P19: set({{VBAD, 10}, {BADPATH, 3}, {EMPTYC, 2}, {REMA, 8}, {DREMA, 6}, {INJU, 6}, {DINJU, 6}, {BIG, 8}, {DUNK, 10}, {SAMEV, 5}, {ITER, 3}}); break;
    case P10: set({{COM, 12}, {DINS, 6}, {DREM, 4}, {REOPEN, 8}, {BULK, 8}, {DGET, 8}}); break;
    case P08: set({{COM, 14}, {DINS, 8}, {DREM, 5}, {REOPEN, 8}, {DINJ, 3}, {CRE, 8}, {GET, 1}, {HAS, 1}, {DGET, 2}, {DHAS, 0}, {ROOT, 1}, {BULK, 8}, {DUNK, 0}, {BIG, 0}, {DINJU, 0}, {INJU, 0}, {DREMA, 0}, {REMA, 0}}); break;
    case P21: set({{COM, 12}, {DINS, 6}, {DREM, 4}, {REOPEN, 5}, {DINJ, 2}}); break;
  }
  if (no_destroy) w[DESTROY] = 0;
  if (txs.size() >= 4) w[CRE] = 0;
  if (txs.empty()) for (int o : {DES, INS, OVR, SAMEV, REM, REMA, GET, HAS, ROOT, PROVE, ITER, CLEAR, INJ, INJU, COM, BIG, BULK, EMPTYC}) w[o] = 0;
  if (order.empty()) { w[DINJ] = std::min(w[DINJ], 1); }
  int tot = 0;
  for (int x : w) tot += x;
  int c = r.below(tot), o = 0;
  while (c >= w[o]) c -= w[o++];
  cx.add("ops");
  opmask |= 1ull << o;
  TxS *t = txs.empty() ? nullptr : &txs[r.below(txs.size())];
  long ti = t ? t - &txs[0] : -1;
  switch (o) {
    case CRE: {
      int e;
      if (r.chance(60) || order.empty()) {
        T("tx%zu = tx_create(default %s)", txs.size(), ks(def->root).c_str());
        urkel_tx_t *x = a_tx_create(db, nullptr, &e);
        ORACLE(R_RET, x != nullptr, "tx-create", "tx_create on the default view failed: %s", ename(e));
        txs.push_back({x, def->kv});
      } else if (r.chance(75)) {
        H32 h = known_root();
        T("tx%zu = tx_create(%s)", txs.size(), ks(h).c_str());
        urkel_tx_t *x = a_tx_create(db, &h, &e);
        ORACLE(R_RET, x != nullptr, "tx-create-hist", "tx_create on committed root %s failed: %s", ks(h).c_str(), ename(e));
        txs.push_back({x, hist[h]->kv});
      } else {
        H32 h = unknown_root();
        T("tx_create(unknown %s)", ks(h).c_str());
        snap();
        urkel_tx_t *x = a_tx_create(db, &h, &e);
        ORACLE(R_RET, x == nullptr, "unknown-root-accepted", "tx_create accepted root %s that was never committed", hex(h).c_str());
        ORACLE(R_ERR | R_HIST, e == URKEL_ENOTFOUND, "errno-unknown-root", "tx_create(unknown root): errno %s", ename(e));
        unchanged("tx_create(unknown root)");
        break;
      }
      if (r.chance(30)) tx_check(txs.back(), "after tx_create", 2);
      break;
    }
    case DES: T("tx_destroy(tx%ld)", ti); urkel_tx_destroy(t->tx); txs.erase(txs.begin() + ti); break;
    case INS: case OVR: {
      H32 k;
      if (o == OVR && !t->kv.empty()) { auto it = t->kv.lower_bound(any_key()); if (it == t->kv.end()) it = t->kv.begin(); k = it->first; }
      else k = r.chance(97) ? r.pick(kg.keys) : kg.absent(r);
      Bytes v = value(t->kv, k);
      T("tx%ld insert %s %zu bytes", ti, hex(k).c_str(), v.size());
      Res x = a_tx_insert(t->tx, k, v);
      ORACLE(R_RET, x.ret == 1, "insert-failed", "tx_insert(%s, %zu bytes) failed: %s", ks(k).c_str(), v.size(), ename(x.err));
      t->kv[k] = mkval(k, v);
      touch(k);
      if (r.chance(15)) check_get(R_CUR, "tx_get", a_tx_get(t->tx, k), t->kv, k);
      break;
    }
    case SAMEV: {
      if (t->kv.empty()) break;
      auto it = t->kv.lower_bound(any_key());
      if (it == t->kv.end()) it = t->kv.begin();
      T("tx%ld insert same %s", ti, ks(it->first).c_str());
      Res x = a_tx_insert(t->tx, it->first, it->second->v);
      ORACLE(R_RET, x.ret == 1, "same-insert-failed", "tx_insert of the value already stored under %s failed: %s", ks(it->first).c_str(), ename(x.err));
      tx_check(*t, "after same-value insert", 1);
      break;
    }
    case REM: {
      if (t->kv.empty()) break;
      auto it = t->kv.lower_bound(any_key());
      if (it == t->kv.end()) it = t->kv.begin();
      H32 k = it->first;
      T("tx%ld remove %s", ti, hex(k).c_str());
      Res x = a_tx_remove(t->tx, k);
      ORACLE(R_RET, x.ret == 1, "remove-failed", "tx_remove(%s) of a present key failed: %s", ks(k).c_str(), ename(x.err));
      t->kv.erase(k);
      touch(k);
      if (r.chance(20)) tx_check(*t, "after remove", 2);
      break;
    }
    case REMA: {
      H32 k = kg.absent(r);
      if (r.chance(50)) k = r.pick(kg.keys);
      if (t->kv.count(k)) break;
      T("tx%ld remove absent %s", ti, hex(k).c_str());
      snap();
      Res x = a_tx_remove(t->tx, k);
      ORACLE(R_RET, x.ret == 0, "remove-absent", "tx_remove(%s) of an absent key succeeded", ks(k).c_str());
      ORACLE(R_ERR, x.err == URKEL_ENOTFOUND, "errno-remove-absent", "tx_remove(absent): errno %s", ename(x.err));
      unchanged("tx_remove(absent)");
      tx_check(*t, "after failed remove", 1);
      break;
    }
    case GET: { H32 k = any_key(); T("tx%ld get %s", ti, ks(k).c_str()); check_get(R_CUR, "tx_get", a_tx_get(t->tx, k), t->kv, k); break; }
    case HAS: { H32 k = any_key(); T("tx%ld has %s", ti, ks(k).c_str()); check_read(R_CUR, "tx_has", a_tx_has(t->tx, k), t->kv, k); break; }
    case ROOT: {
      T("tx%ld root", ti);
      H32 h = a_tx_root(t->tx), x = ref_root(t->kv);
      ORACLE(R_ROOT, h == x, "root-tx", "transaction root %s, expected %s for its %zu records", ks(h).c_str(), ks(x).c_str(), t->kv.size());
      cx.add("root_checks");
      cx.seen("roots", *(const uint64_t *)h.data());
      break;
    }
    case PROVE: {
      H32 k = any_key();
      VerP v = mkversion(t->kv);
      T("tx%ld prove %s", ti, hex(k).c_str());
      int reps = cx.prop == P03 ? 3 : 1;
      while (reps--) {
        Res p = a_tx_prove(t->tx, k);
        ORACLE(R_PROOF | R_RET, p.ret == 1, "prove-failed", "tx_prove(%s) failed: %s", ks(k).c_str(), ename(p.err));
        check_verify(v, k, p.v, v->root, R_PROOF);
        Bytes cp = v->prove(k);
        ORACLE(R_PROOF, p.v == cp, "proof-bytes", "tx proof of %s is %s.., canonical form is %s..", ks(k).c_str(), hex(p.v.data(), std::min<size_t>(p.v.size(), 40)).c_str(), hex(cp.data(), std::min<size_t>(cp.size(), 40)).c_str());
        cx.add("proofs");
        Proof pf;
        if (proof_decode(p.v, pf)) { cx.add(("proof_type_" + std::to_string(pf.type)).c_str()); cx.seen("proof_shapes", mix(pf.type * 1000 + pf.depth, pf.nodes.size())); }
        k = any_key();
      }
      break;
    }
    case ITER: {
      urkel_iter_t *it = urkel_iter_create(t->tx);
      long limit = r.chance(25) ? (long)r.below(t->kv.size() + 2) : -1;
      bool vals = !r.chance(15);
      T("tx%ld iterate limit=%ld", ti, limit);
      IterRes ir = a_walk(it, limit, vals);
      urkel_iter_destroy(it);
      cx.add("records_compared", ir.recs.size());
      if (limit >= 0 || !vals) {
        size_t i = 0;
        bool ok = ir.recs.size() == (limit >= 0 ? std::min<size_t>(limit, t->kv.size()) : t->kv.size());
        for (auto &e : t->kv) { if (i >= ir.recs.size()) break; if (ir.recs[i].first != e.first || (vals && ir.recs[i].second != e.second->v)) ok = false; i++; }
        ORACLE(R_ITER, ok, "tx-records", "partial/keys-only iteration of a transaction (limit %ld) differs", limit);
      } else {
        ORACLE(R_ITER, same(t->kv, ir), "tx-records", "transaction view: %s (errno %s)", kvdiff(t->kv, ir).c_str(), ename(ir.err));
        ORACLE(R_ITER | R_ERR, ir.err == URKEL_EITEREND && ir.sticky_end, "iter-end", "iteration ended with %s, sticky=%d", ename(ir.err), ir.sticky_end);
      }
      break;
    }
    case CLEAR: T("tx%ld clear -> %s", ti, ks(def->root).c_str()); urkel_tx_clear(t->tx); t->kv = def->kv; tx_check(*t, "after tx_clear", 2); break;
    case INJ: {
      H32 h = order.empty() ? ZERO : known_root();
      T("tx%ld inject %s", ti, ks(h).c_str());
      Res x = a_tx_inject(t->tx, h);
      ORACLE(R_RET, x.ret == 1, "tx-inject", "tx_inject of committed root %s failed: %s", ks(h).c_str(), ename(x.err));
      t->kv = hist[h]->kv;
      tx_check(*t, "after tx_inject", 2);
      break;
    }
    case INJU: {
      H32 h = unknown_root();
      T("tx%ld inject unknown %s", ti, ks(h).c_str());
      snap();
      Res x = a_tx_inject(t->tx, h);
      ORACLE(R_RET, x.ret == 0, "unknown-root-accepted", "tx_inject accepted an unknown root %s", hex(h).c_str());
      ORACLE(R_ERR | R_HIST, x.err == URKEL_ENOTFOUND, "errno-unknown-root", "tx_inject(unknown): errno %s", ename(x.err));
      unchanged("tx_inject(unknown)");
      tx_check(*t, "after failed tx_inject", 1);
      break;
    }
    case COM: {
      T("tx%ld commit (%zu records)", ti, t->kv.size());
      inflight = mkversion(t->kv);
      if (fail_sync && r.chance(30)) {
        ip::Fault f;
        f.cls = ip::C_FSYNC; f.nth = 1; f.repeat = 1 + r.below(2);
        ip::arm(f);
        Res y = a_commit(t->tx);
        long hit = ip::fired();
        ip::disarm();
        if (hit) cx.add("failed_syncs");
        ORACLE(M(P24), !(hit && y.ret), "sync-failure-ignored", "commit reported success although a sync failed");
        if (!hit || y.ret) { ORACLE(R_RET, y.ret == 1, "commit-failed", "commit failed: %s", ename(y.err)); if (!y.ret) throw CaseEnd(); committed(inflight); break; }
      }
      Res x = a_commit(t->tx);
      ORACLE(R_RET, x.ret == 1, "commit-failed", "commit failed: %s", ename(x.err));
      committed(inflight);
      if (r.chance(30)) tx_check(*t, "after commit", 2);
      if (r.chance(30)) { H32 h = a_root(db); ORACLE(R_ROOT, h == def->root, "root-default", "database root %s after committing %s", ks(h).c_str(), ks(def->root).c_str()); }
      break;
    }
    case DGET: case DHAS: case DPROVE: {
      H32 k = any_key();
      bool hasroot = r.chance(cx.prop == P07 ? 75 : 45) && !order.empty();
      H32 h = hasroot ? known_root() : ZERO;
      VerP v = hasroot ? hist[h] : def;
      Mask m = hasroot ? R_HIST : R_CUR | M(P07);
      if (hasroot && r.chance(50) && !v->kv.empty()) { auto it = v->kv.lower_bound(k); if (it == v->kv.end()) it = v->kv.begin(); k = it->first; }
      T("db %s %s root=%s", o == DGET ? "get" : o == DHAS ? "has" : "prove", hex(k).c_str(), hasroot ? ks(h).c_str() : "default");
      if (o == DGET) check_get(m, "get", a_get(db, k, hasroot ? &h : nullptr), v->kv, k);
      else if (o == DHAS) check_read(m, "has", a_has(db, k, hasroot ? &h : nullptr), v->kv, k);
      else {
        Res p = a_prove(db, k, hasroot ? &h : nullptr);
        ORACLE(R_PROOF | R_RET, p.ret == 1, "prove-failed", "prove(%s) failed: %s", ks(k).c_str(), ename(p.err));
        check_verify(v, k, p.v, v->root, R_PROOF | M(P07));
        Bytes cp = v->prove(k);
        ORACLE(R_PROOF, p.v == cp, "proof-bytes", "proof of %s is %s.., canonical form is %s..", ks(k).c_str(), hex(p.v.data(), std::min<size_t>(p.v.size(), 40)).c_str(), hex(cp.data(), std::min<size_t>(cp.size(), 40)).c_str());
        cx.add("proofs");
        Proof pf;
        if (proof_decode(p.v, pf)) { cx.add(("proof_type_" + std::to_string(pf.type)).c_str()); cx.seen("proof_shapes", mix(pf.type * 1000 + pf.depth, pf.nodes.size())); }
      }
      break;
    }
    case DITER: {
      bool hasroot = r.chance(50) && !order.empty();
      H32 h = hasroot ? known_root() : ZERO;
      VerP v = hasroot ? hist[h] : def;
      T("db iterate root=%s", hasroot ? ks(h).c_str() : "default");
      if (r.chance(25)) {
        urkel_iter_t *it = urkel_iterate(db, hasroot ? h.data() : nullptr);
        ORACLE(R_RET, it != nullptr, "iterate-failed", "iterate failed: %s", ename(urkel_errno));
        a_walk(it, r.below(v->kv.size() + 1));
        urkel_iter_destroy(it);
      } else view_check(v, hasroot ? &h : nullptr, hasroot ? R_HIST : R_CUR, "iterate", 0);
      break;
    }
    case DINS: {
      H32 k = r.pick(kg.keys);
      Bytes v = value(def->kv, k);
      T("db insert %s %zu bytes", hex(k).c_str(), v.size());
      KV n = def->kv;
      n[k] = mkval(k, v);
      inflight = mkversion(n);
      Res x = a_insert(db, k, v);
      ORACLE(R_RET, x.ret == 1, "db-insert-failed", "insert(%s, %zu bytes) failed: %s", ks(k).c_str(), v.size(), ename(x.err));
      committed(inflight);
      touch(k);
      break;
    }
    case DREM: {
      if (def->kv.empty()) break;
      auto it = def->kv.lower_bound(any_key());
      if (it == def->kv.end()) it = def->kv.begin();
      H32 k = it->first;
      T("db remove %s", hex(k).c_str());
      KV n = def->kv;
      n.erase(k);
      inflight = mkversion(n);
      Res x = a_remove(db, k);
      ORACLE(R_RET, x.ret == 1, "db-remove-failed", "remove(%s) failed: %s", ks(k).c_str(), ename(x.err));
      committed(inflight);
      touch(k);
      break;
    }
    case DREMA: {
      H32 k = kg.absent(r);
      if (def->kv.count(k)) break;
      T("db remove absent %s", ks(k).c_str());
      snap();
      Res x = a_remove(db, k);
      ORACLE(R_RET, x.ret == 0, "remove-absent", "remove(%s) of an absent key succeeded", ks(k).c_str());
      ORACLE(R_ERR, x.err == URKEL_ENOTFOUND, "errno-remove-absent", "remove(absent): errno %s", ename(x.err));
      unchanged("remove(absent)");
      H32 h = a_root(db);
      ORACLE(R_ERR | R_CUR, h == def->root, "failed-call-effect", "failed remove changed the root");
      break;
    }
    case DINJ: {
      H32 h = order.empty() ? ZERO : known_root();
      T("db inject %s", ks(h).c_str());
      Res x = a_inject(db, h);
      ORACLE(R_RET, x.ret == 1, "inject-failed", "inject of committed root %s failed: %s", ks(h).c_str(), ename(x.err));
      def = hist[h];
      H32 g = a_root(db);
      ORACLE(R_ROOT | R_HIST, g == h, "inject-root", "root is %s after injecting %s", ks(g).c_str(), ks(h).c_str());
      if (r.chance(40)) view_check(def, nullptr, R_HIST | R_CUR, "after inject", 2);
      break;
    }
    case DINJU: {
      H32 h = unknown_root();
      T("db inject unknown %s", ks(h).c_str());
      snap();
      Res x = a_inject(db, h);
      ORACLE(R_RET, x.ret == 0, "unknown-root-accepted", "inject accepted an unknown root %s", hex(h).c_str());
      ORACLE(R_ERR | R_HIST, x.err == URKEL_ENOTFOUND, "errno-unknown-root", "inject(unknown): errno %s", ename(x.err));
      unchanged("inject(unknown)");
      H32 g = a_root(db);
      ORACLE(R_ERR | R_HIST, g == def->root, "failed-call-effect", "failed inject changed the root");
      break;
    }
    case REOPEN: reopen(); if (r.chance(50)) full_check("after reopen", 3); break;
    case DROOT: {
      H32 h = a_root(db);
      T("db root = %s", ks(h).c_str());
      ORACLE(R_ROOT | R_CUR, h == def->root, "root-default", "database root %s, expected %s", ks(h).c_str(), ks(def->root).c_str());
      cx.add("root_checks");
      break;
    }
    case BIG: {
      H32 k = any_key();
      size_t n = 1024 + (r.chance(50) ? 0 : r.below(3000));
      Bytes v(n);
      T("oversize insert %zu", n);
      snap();
      Res x = r.chance(50) ? a_tx_insert(t->tx, k, v) : a_insert(db, k, v);
      ORACLE(R_RET, x.ret == 0, "oversize-accepted", "a value of %zu bytes was accepted", n);
      ORACLE(R_ERR, x.err == URKEL_EINVAL, "errno-oversize", "oversize insert: errno %s", ename(x.err));
      unchanged("oversize insert");
      tx_check(*t, "after oversize insert", 1);
      break;
    }
    case DUNK: {
      H32 h = unknown_root(), k = any_key();
      T("unknown root %s", hex(h).c_str());
      snap();
      switch (r.below(4)) {
        case 0: { Res g = a_get(db, k, &h);
          ORACLE(R_RET, g.ret == 0, "unknown-root-accepted", "get accepted an unknown root");
          ORACLE(R_ERR | R_HIST, g.err == URKEL_ENOTFOUND && g.size == 0, "errno-unknown-root", "get(unknown root): errno %s size %zu", ename(g.err), g.size); break; }
        case 1: { Res g = a_has(db, k, &h);
          ORACLE(R_RET, g.ret == 0, "unknown-root-accepted", "has accepted an unknown root");
          ORACLE(R_ERR | R_HIST, g.err == URKEL_ENOTFOUND, "errno-unknown-root", "has(unknown root): errno %s", ename(g.err)); break; }
        case 2: { Res g = a_prove(db, k, &h);
          ORACLE(R_RET, g.ret == 0, "unknown-root-accepted", "prove accepted an unknown root");
          ORACLE(R_ERR | R_HIST, g.err == URKEL_ENOTFOUND && g.size == 0, "errno-unknown-root", "prove(unknown root): errno %s outputs cleared=%d", ename(g.err), g.size == 0); break; }
        default: { urkel_errno = ESENT; urkel_iter_t *it = urkel_iterate(db, h.data());
          ORACLE(R_RET, it == nullptr, "unknown-root-accepted", "iterate accepted an unknown root");
          ORACLE(R_ERR | R_HIST, urkel_errno == URKEL_ENOTFOUND, "errno-unknown-root", "iterate(unknown root): errno %s", ename(urkel_errno)); }
      }
      unchanged("a call with an unknown root");
      break;
    }
    case BULK: {
      int n = r.range(2, 20);
      T("tx%ld bulk %d", ti, n);
      while (n--) {
        H32 k = r.pick(kg.keys);
        if (r.chance(75)) {
          Bytes v = value(t->kv, k);
          T(" insert %s %zu", hex(k).c_str(), v.size());
          Res x = a_tx_insert(t->tx, k, v);
          ORACLE(R_RET, x.ret == 1, "insert-failed", "tx_insert failed: %s", ename(x.err));
          t->kv[k] = mkval(k, v);
        } else {
          T(" remove %s", hex(k).c_str());
          Res x = a_tx_remove(t->tx, k);
          bool had = t->kv.erase(k);
          ORACLE(R_RET, (x.ret == 1) == had, "remove-result", "tx_remove(%s) returned %d (%s), key was %s", ks(k).c_str(), x.ret, ename(x.err), had ? "present" : "absent");
        }
      }
      break;
    }
    case FULL: full_check("mid-history", 3); break;
    case EMPTYC: {   // a commit of a transaction in which nothing was changed
      TxS n{nullptr, def->kv};
      T("empty transaction");
      n.tx = a_tx_create(db, nullptr);
      ORACLE(R_RET, n.tx != nullptr, "tx-create", "tx_create failed");
      H32 k = any_key();
      if (!n.kv.count(k)) { Res x = a_tx_remove(n.tx, k); ORACLE(R_RET | R_ERR, !x.ret && x.err == URKEL_ENOTFOUND, "errno-remove-absent", "tx_remove(absent): ret %d errno %s", x.ret, ename(x.err)); }
      tx_check(n, "nothing changed", 2);
      inflight = mkversion(n.kv);
      Res x = a_commit(n.tx);
      ORACLE(R_RET, x.ret == 1, "commit-failed", "commit of an unchanged transaction failed: %s", ename(x.err));
      committed(inflight);
      urkel_tx_destroy(n.tx);
      break;
    }
    case VBAD: {   // verification that fails: code and outputs
      VerP v = hist[known_root()];
      H32 k = any_key(), rt = v->root;
      Bytes pf = v->prove(k);
      switch (r.below(6)) {
        case 0: rt = r.chance(50) ? unknown_root() : known_root(); break;
        case 1: k = any_key(); break;
        case 2: pf.resize(r.below(pf.size() + 1)); break;
        case 3: pf[r.below(pf.size())] ^= 1 << r.below(8); break;
        case 4: pf.push_back(r.next()); break;
        case 5: pf = Bytes(r.below(60)); if (!pf.empty()) r.fill(pf.data(), pf.size()); break;
      }
      bool ex = false, nul = r.chance(10);
      Bytes val;
      int code;
      VRes g;
      snap();
      if (nul) {
        uint8_t o[1023];
        g.exists = 7; g.len = 77;
        urkel_errno = ESENT;
        g.ret = urkel_verify(&g.exists, o, &g.len, pf.data(), pf.size(), k.data(), nullptr);
        g.err = urkel_errno;
        code = URKEL_EINVAL;
      } else {
        g = a_verify(pf, k, rt);
        code = proof_verify(pf, k, rt, ex, val);
      }
      cx.add(code ? "failed_verifications" : "verifications");
      ORACLE(R_ERR, g.ret == (code == 0), "verify-result", "verify returned %d (%s), the rules say %s", g.ret, ename(g.err), ename(code));
      ORACLE(R_ERR, code == 0 || g.err == code, "errno-verify", "verify failed with %s, the rules say %s", ename(g.err), ename(code));
      ORACLE(R_ERR, code == 0 || (g.exists == 0 && g.len == 0), "outputs-verify", "verify failed with %s but left exists=%d, length %zu", ename(g.err), g.exists, g.len);
      unchanged("verify");
      break;
    }
    case BADPATH: {   // open and destroy where they cannot succeed
      std::string q, what;
      switch (r.below(6)) {
        case 0: q = cx.dir + "/nowhere/db"; what = "under a missing directory"; break;
        case 1: q = path + "/meta"; what = "of a file"; break;
        case 2: q = cx.dir + "/absent"; what = "of nothing"; break;
        case 3: q = path + "/meta/db"; what = "below a file"; break;
        case 4: q = cx.dir + "/" + std::string(r.range(256, 3000), 'x'); what = "of a name too long"; break;
        case 5: { q = cx.dir; while (q.size() < 5000) q += "/" + std::string(200, 'y'); what = "of a path too long"; }
      }
      T("open and destroy %s", what.c_str());
      bool opn = what != "of nothing" && r.chance(50);
      snap();
      int e = 0;
      if (opn) {
        urkel_t *d = a_open(q, &e);
        ORACLE(R_ERR, d == nullptr, "bad-open", "open %s succeeded", what.c_str());
        ORACLE(R_ERR, e == URKEL_EBADOPEN, "errno-open", "open %s: errno %s", what.c_str(), ename(e));
      } else {
        Res x = a_destroy(q);
        ORACLE(R_ERR, x.ret == 0, "bad-destroy", "destroy %s succeeded", what.c_str());
        ORACLE(R_ERR, x.err == URKEL_EBADOPEN, "errno-destroy", "destroy %s: errno %s", what.c_str(), ename(x.err));
      }
      cx.add("bad_paths");
      unchanged(opn ? "a failed open" : "a failed destroy");
      break;
    }
    case DESTROY: {
      close_all();
      T("destroy");
      Res x = a_destroy(path);
      ORACLE(R_RET, x.ret == 1, "destroy-failed", "destroy failed: %s", ename(x.err));
      ORACLE(R_RET, !ip::exists(path), "destroy-left", "destroy left the directory behind");
      hist.clear();
      order.clear();
      hist[ZERO] = empty;
      last = def = empty;
      ncommits = 0;
      img.clear();
      open();
      break;
    }
  }
}

void run_sim() {
  Rng r(mix(cx.seed, mix(cx.cas, 0x51a)));
  std::string path = cx.dir + "/db";
  ip::rm_rf(path);
  bool scaled = cx.prop == P17 ? true : r.chance(50);
  Limits l = gen_limits(r, scaled);
  set_limits(l);
  Sim s(r.next(), path);
  s.lim = l;
  int nk = r.chance(15) ? r.range(100, 320) : r.chance(30) ? r.range(1, 6) : r.range(6, 60);
  int fam = cx.cas % NFAM;
  if (fam == 2 && r.chance(60)) nk = 257;   // deepest possible tree
  s.kg = KeyGen::make(r, fam, nk);
  s.vmode = r.below(5);
  int ops = cx.thorough ? r.range(60, 700) : r.range(40, 260);
  T("case %ld family %d keys %zu values mode %d limits %llu/%zu/%zu/%zu ops %d", cx.cas, fam, s.kg.keys.size(), s.vmode, (unsigned long long)l.max_file, l.wbuf, l.rbuf, l.max_open, ops);
  ip::Res l0 = ip::live();
  if (l0.allocs || l0.fds) harness_error("ledger not empty at start: %ld allocs", l0.allocs);
  s.open();
  if (nk > 100 || r.chance(30)) {
    // start from a populated database
    urkel_tx_t *t = a_tx_create(s.db, nullptr);
    if (!t) cx.viol(~0u, "tx-create", "tx_create on an empty database failed");
    KV kv;
    for (auto &k : s.kg.keys) {
      if (r.chance(10)) continue;
      Bytes v = gen_value(r, nk > 100 ? 0 : s.vmode);
      T("seed insert %s %zu", hex(k).c_str(), v.size());
      Res x = a_tx_insert(t, k, v);
      ORACLE(R_RET, x.ret == 1, "insert-failed", "tx_insert failed: %s", ename(x.err));
      kv[k] = mkval(k, v);
    }
    Res x = a_commit(t);
    ORACLE(R_RET, x.ret == 1, "commit-failed", "commit failed: %s", ename(x.err));
    urkel_tx_destroy(t);
    s.committed(mkversion(kv));
    if (r.chance(50)) s.reopen();
  }
  // a second database in the same process, with the same keys
  std::unique_ptr<Sim> two;
  if (r.chance(25)) {
    two.reset(new Sim(r.next(), cx.dir + "/db2"));
    ip::rm_rf(two->path);
    two->lim = l;
    two->kg = s.kg;
    two->vmode = s.vmode;
    two->open();
    two->other = &s;
    s.other = two.get();
    cx.add("second_databases");
  }
  for (int i = 0; i < ops; i++) {
    if (two && r.chance(40)) two->op(); else s.op();
  }
  if (two) {
    for (auto &t : two->txs) two->tx_check(t, "second database, at the end", 3);
    two->reopen();
    two->full_check("second database, after its final reopen", 4);
    two->close_all();
    s.other = nullptr;
    two.reset();
  }
  for (auto &t : s.txs) s.tx_check(t, "at the end", 6);
  s.full_check("at the end", 6);
  s.reopen();
  s.full_check("after final reopen", cx.prop == P07 ? 1000 : 10);
  s.close_all();
  if (s.ncommits) cx.seen("cases", mix(s.opmask, mix(fam, mix(s.hist.size(), *(const uint64_t *)s.last->root.data()))));
  cx.sample("case " + std::to_string(cx.cas) + ": key family " + std::to_string(fam) + ", " + std::to_string(s.kg.keys.size()) + " keys, " + std::to_string(ops) + " ops, " +
            std::to_string(s.ncommits) + " commits, " + std::to_string(s.opens) + " opens, max file " + std::to_string(l.max_file) + ", final root " + hexs(s.last->root));
}
