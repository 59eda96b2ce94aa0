// Costs (P23): bytes appended by a commit, work and memory per call, work at open.
// All are counts of what the library asked the system for, never times.
#include <algorithm>
#include <functional>
#include <set>
#include "sim.h"
namespace {
const Mask C = M(P23);
struct CTx { urkel_tx_t *tx; KV kv; VerP base; std::set<H32> touched; };
size_t rec_size(const RNode &n) {
  if (n.leaf) return 1 + 7 + 32 + n.val->v.size();
  return 1 + (n.plen ? 1 + (n.plen > 255) + (n.plen + 7) / 8 : 0) + 2 * (7 + 32);
}
// nodes met on the way to a key
int walk(const Version &v, const H32 &k, std::set<int> *out) {
  int i = v.top, c = 0;
  while (i >= 0) {
    c++;
    if (out) out->insert(i);
    const RNode &n = v.nodes[i];
    if (n.leaf) break;
    bool in = true;
    for (unsigned j = 0; j < n.plen && in; j++) in = kbit(*n.key, n.depth + j) == kbit(k, n.depth + j);
    if (!in) break;
    i = kbit(k, n.depth + n.plen) ? n.r : n.l;
  }
  return c;
}
// the same length, from the sorted keys alone
long path_len(const KV &kv, const H32 &k) {
  if (kv.empty()) return 0;
  auto lo = kv.begin(), hi = std::prev(kv.end());   // inclusive
  long c = 0;
  for (;;) {
    c++;
    if (lo == hi) return c;
    unsigned d = 0;
    while (kbit(lo->first, d) == kbit(hi->first, d)) d++;
    for (unsigned j = 0; j < d; j++) if (kbit(lo->first, j) != kbit(k, j)) return c;
    H32 m = lo->first;   // the first key of the right half
    m[d / 8] |= 0x80 >> (d % 8);
    m[d / 8] &= 0xff << (7 - d % 8);
    for (unsigned j = d / 8 + 1; j < 32; j++) m[j] = 0;
    auto mid = kv.lower_bound(m);
    if (kbit(k, d)) lo = mid; else hi = std::prev(mid);
  }
}
// what a commit of v may append, if the transaction started from base and edited the touched keys
size_t may_append(const Version &v, const Version &base, const std::set<H32> &touched, long *nodes) {
  std::set<H32> old;
  for (auto &n : base.nodes) old.insert(n.hash);
  std::set<int> ok;
  for (auto &k : touched) walk(v, k, &ok);
  // next to a subtree of edited keys only: it may have been joined with its parent and split off again
  std::function<bool(int)> all = [&](int i) -> bool {
    const RNode &n = v.nodes[i];
    if (n.leaf) return touched.count(*n.key) != 0;
    bool a = all(n.l), b = all(n.r);
    if (a) ok.insert(n.r);
    if (b) ok.insert(n.l);
    return a && b;
  };
  if (v.top >= 0) all(v.top);
  size_t sum = 0;
  *nodes = 0;
  for (size_t i = 0; i < v.nodes.size(); i++) {
    const RNode &n = v.nodes[i];
    bool may = n.leaf ? touched.count(*n.key) != 0 : ok.count(i) || !old.count(n.hash);
    if (may) { sum += rec_size(n); ++*nodes; }
  }
  return sum;
}
struct Cost {
  Rng r;
  std::string path;
  urkel_t *db = nullptr;
  KeyGen kg;
  int vmode;
  std::map<H32, VerP> hist;
  std::vector<H32> order;
  VerP def;
  std::vector<CTx> txs;
  size_t disk = 0;
  long commits = 0, files = 1, biggest = 0, ratio = 0;
  Cost(uint64_t s, const std::string &p) : r(s), path(p) { def = mkversion(KV()); hist[ZERO] = def; }
  size_t disk_size(long *nf = nullptr) {
    size_t s = 0;
    long n = 0;
    for (auto &f : ip::list_dir(path)) if (is_datafile(f)) { s += ip::file_size(path + "/" + f); n++; }
    if (nf) *nf = n;
    return s;
  }
  H32 key(const KV &kv) {
    if (!kv.empty() && r.chance(55)) { auto it = kv.lower_bound(r.pick(kg.keys)); if (it == kv.end()) it = kv.begin(); return it->first; }
    return r.chance(75) ? r.pick(kg.keys) : kg.absent(r);
  }
  H32 root() { return order.empty() ? ZERO : order[r.chance(50) ? order.size() - 1 - r.below(std::min<size_t>(3, order.size())) : r.below(order.size())]; }
  // counts what one call does
  long a0, l0, r0;
  long nread = 0, npath = 0;
  bool walked = false;   // the history has been walked to its beginning since the database was opened
  static long nreads() { return ip::calls(ip::C_PREAD) + ip::calls(ip::C_READ) + ip::n_mapread; }
  void start() { a0 = ip::n_alloc; l0 = ip::live().allocs; r0 = nreads(); }
  void few_reads(const char *what, long lim) {
    long n = nreads() - r0;
    cx.add("read_checks");
    ORACLE(C, n <= lim, "reads", "%s made %ld reads, expected at most %ld (%ld commits)", what, n, lim, commits);
  }
  void path_cost(const char *what, const KV &v, const H32 &k, long extra) {
    long p = path_len(v, k), n = ip::n_alloc - a0, lim = 40 + 8 * p + extra;
    cx.add("path_checks");
    few_reads(what, p + 3 + extra);
    nread += nreads() - r0;
    npath += p;
    ratio = std::max(ratio, 100 * n / lim);
    ORACLE(C, n <= lim, "work", "%s allocated %ld times although only %ld nodes lie on the path (of %zu keys in the tree)", what, n, p, v.size());
  }
  void appended(const char *what, const VerP &v, const VerP &base, const std::set<H32> &touched) {
    long nn;
    size_t may = may_append(*v, *base, touched, &nn) + 37 + 38, now = disk_size(&files);
    cx.add("append_checks");
    cx.add("bytes_appended", now - disk);
    if (may - (now - disk) < 76) cx.add("exact_appends");
    if (v->nodes.size() > (size_t)nn) cx.add("shared_nodes", v->nodes.size() - nn);
    ORACLE(C, now >= disk && now - disk <= may, "appended", "%s appended %zu bytes; what changed (%zu keys edited, %ld nodes new or on their paths, of %zu) takes at most %zu", what, now - disk, touched.size(), nn, v->nodes.size(), may);
    disk = now;
    hist[v->root] = v;
    order.push_back(v->root);
    def = v;
    commits++;
    cx.add("commits");
  }
  void quiet(const char *what) {
    size_t now = disk_size();
    ORACLE(C, now == disk, "wrote", "%s changed the data files from %zu to %zu bytes", what, disk, now);
  }
  void edit(CTx &t) {
    H32 k = key(t.kv);
    if (t.kv.count(k) && r.chance(40)) {
      start();
      Res x = a_tx_remove(t.tx, k);
      ORACLE(C, x.ret == 1, "edit", "tx_remove failed with %s", ename(x.err));
      path_cost("tx_remove", t.kv, k, 0);
      t.kv.erase(k);
      t.touched.insert(k);
    } else {
      Bytes v = t.kv.count(k) && r.chance(25) ? t.kv[k]->v : gen_value(r, vmode);
      bool same = t.kv.count(k) && t.kv[k]->v == v;
      start();
      Res x = a_tx_insert(t.tx, k, v);
      ORACLE(C, x.ret == 1, "edit", "tx_insert failed with %s", ename(x.err));
      path_cost(same ? "tx_insert of the same value" : "tx_insert", t.kv, k, 0);
      // a stored value is not read to see whether it is the same
      t.kv[k] = mkval(k, v);
      t.touched.insert(k);
      if (same) cx.add("same_value_inserts");
    }
  }
  CTx *tx() {
    if (txs.empty() || (txs.size() < 3 && r.chance(25))) {
      bool h = r.chance(35);
      H32 x = root();
      urkel_tx_t *t = a_tx_create(db, h ? &x : nullptr);
      ORACLE(C, t != nullptr, "tx", "tx_create failed");
      VerP b = h ? hist[x] : def;
      txs.push_back({t, b->kv, b, {}});
    }
    return &txs[r.below(txs.size())];
  }
  // memory held now, apart from what the open transactions hold
  long held() { return ip::live().allocs; }
  void commit(CTx &t) {
    VerP v = mkversion(t.kv);
    long n = t.touched.size();
    start();
    Res x = a_commit(t.tx);
    ORACLE(C, x.ret == 1, "commit", "commit failed with %s", ename(x.err));
    few_reads("a commit", 2);
    appended(n ? "a commit" : "a commit without edits", v, t.base, t.touched);
    t.base = v;
    t.touched.clear();
  }
  // a fixed set of reading calls, made three times: memory must not grow with the number made
  void reads() {
    struct Rd { int kind; H32 k, root; bool hasroot; };
    std::vector<Rd> v;
    for (int i = r.range(3, 25); i > 0; i--) { Rd d; d.kind = r.below(8); d.hasroot = r.chance(50); d.root = root(); d.k = key((d.hasroot ? hist[d.root] : def)->kv); v.push_back(d); }
    long lv[4], al[4];
    size_t by[4];
    long bad = 0;
    H32 unk;
    r.fill(unk.data(), 32);
    for (int pass = 0; pass < 4; pass++) {
      long n0 = ip::n_alloc, o0 = ip::calls(ip::C_OPEN);
      for (auto &d : v) {
        const H32 *rp = d.hasroot ? &d.root : nullptr;
        VerP ver = d.hasroot ? hist[d.root] : def;
        start();
        long extra = pass || walked ? 0 : 6 * (commits + files + 10);   // the first look at a version may walk the history
        switch (d.kind) {
          case 0: case 1: { Res g = a_get(db, d.k, rp); bad += g.ret != (int)ver->kv.count(d.k); path_cost("get", ver->kv, d.k, extra); break; }
          case 2: { Res g = a_has(db, d.k, rp); bad += g.ret != (int)ver->kv.count(d.k); path_cost("has", ver->kv, d.k, extra); break; }
          case 3: { Res g = a_prove(db, d.k, rp); bad += !g.ret; path_cost("prove", ver->kv, d.k, extra); break; }
          case 4: {
            urkel_iter_t *it = urkel_iterate(db, rp ? rp->data() : nullptr);
            if (!it) { bad++; break; }
            long peak = 0, lim = (ip::live().allocs - l0) + 4 * (long)ver->max_depth() + 16;
            uint8_t k[32];
            uint8_t *b = new uint8_t[1023];
            size_t n;
            while (urkel_iter_next(it, k, b, &n)) peak = std::max(peak, ip::live().allocs - l0);
            delete[] b;
            urkel_iter_destroy(it);
            long tot = ip::n_alloc - a0, tl = 40 + 6 * (long)ver->nodes.size() + extra;
            cx.add("iterations");
            few_reads("an iteration", 2 * (long)ver->nodes.size() + 3 + extra);
            ratio = std::max(ratio, 100 * tot / tl);
            ORACLE(C, peak <= lim + files, "iterate-memory", "an iteration over %zu nodes held %ld allocations, the depth is %u", ver->nodes.size(), peak, ver->max_depth());
            ORACLE(C, tot <= tl, "iterate-work", "an iteration over %zu nodes allocated %ld times", ver->nodes.size(), tot);
            break;
          }
          case 5: { urkel_tx_t *t = a_tx_create(db, rp); if (!t) { bad++; break; } a_tx_get(t, d.k); a_tx_has(t, d.k); urkel_tx_destroy(t); path_cost("a snapshot with two lookups", ver->kv, d.k, extra + 8 * path_len(ver->kv, d.k)); break; }
          case 6: { Res g = a_get(db, d.k, &unk); bad += g.ret; long n = ip::n_alloc - a0; few_reads(walked ? "asking for an unknown root again" : "asking for an unknown root", 3 + extra); walked = true; ORACLE(C, n <= 40 + extra, "unknown-work", "asking for an unknown root again allocated %ld times (%ld commits)", n, commits); cx.add("unknown_roots"); break; }
          default: { H32 h = a_root(db); bad += h != def->root; long n = ip::n_alloc - a0; few_reads("root", 0); ORACLE(C, n <= 8, "root-work", "root allocated %ld times", n); break; }
        }
      }
      ip::Res l = ip::live();
      lv[pass] = l.allocs;
      by[pass] = l.bytes;
      al[pass] = ip::n_alloc - n0;
      long op = ip::calls(ip::C_OPEN) - o0;
      // files once read stay open, up to the limit on open files
      if (pass && files + 2 < (long)real_limits.max_open) { cx.add("reopen_checks"); ORACLE(C, op == 0, "reading-opens", "repeating %zu reading calls on a database of %ld files opened %ld files again", v.size(), files, op); }
    }
    ORACLE(C, bad == 0, "answer", "a reading call gave a wrong answer");
    cx.add("read_passes", 4);
    ORACLE(C, lv[2] <= lv[1] && lv[3] <= lv[2] && by[3] <= by[1], "growth", "repeating the same %zu reading calls grows the memory held: %ld, %ld, %ld allocations, %zu, %zu bytes", v.size(), lv[1], lv[2], lv[3], by[1], by[3]);
    ORACLE(C, al[3] <= al[1], "growing-work", "repeating the same %zu reading calls takes more and more work: %ld, %ld, %ld allocations", v.size(), al[1], al[2], al[3]);
    quiet("reading");
  }
  void open() {
    int e;
    ip::reset_calls();
    ip::n_mapread = 0;
    long n0 = ip::n_alloc, b0 = ip::n_readbytes;
    db = a_open(path, &e);
    ORACLE(C, db != nullptr, "open", "open failed with %s", ename(e));
    walked = false;
    long rd = nreads(), n = ip::n_alloc - n0, o = ip::calls(ip::C_OPEN);
    cx.add("open_checks");
    // a read in many large pieces is no more than one in a single piece
    long br = ip::n_readbytes - b0;
    ORACLE(C, rd <= 12 + br / 16384, "open-reads", "opening a cleanly closed database of %ld commits in %ld files made %ld reads", commits, files, rd);
    ORACLE(C, br <= 4 << 20, "open-bytes", "opening a cleanly closed database of %ld commits in %ld files read %ld bytes", commits, files, br);
    ORACLE(C, o <= 12, "open-opens", "opening a cleanly closed database of %ld files opened %ld files", files, o);
    ORACLE(C, n <= 80 + 8 * files, "open-work", "opening a cleanly closed database of %ld commits, %zu records allocated %ld times", commits, def->kv.size(), n);
    disk = disk_size(&files);
    H32 h = a_root(db);
    if (!order.empty()) def = hist[order.back()];
    ORACLE(C, h == def->root, "root", "opened with root %s", hexs(h).c_str());
  }
  void close() {
    for (auto &t : txs) urkel_tx_destroy(t.tx);
    txs.clear();
    urkel_close(db);
    db = nullptr;
  }
};
}
void run_cost() {
  Rng r(mix(cx.seed, mix(cx.cas, 0xc057)));
  std::string path = cx.dir + "/db";
  ip::count_mapreads = true;
  ip::rm_rf(path);
  Limits l = gen_limits(r, !r.chance(20));
  l.max_open = real_limits.max_open;   // which file is evicted is random
  if (l.rbuf < 76) l.rbuf = 76;
  set_limits(l);
  Cost c(r.next(), path);
  c.kg = KeyGen::make(r, cx.cas % NFAM, r.chance(20) ? r.range(200, 900) : r.range(2, 120));
  c.vmode = r.below(5);
  c.open();
  // the contents to work on, in a few commits
  for (int i = r.below(4); i > 0; i--) {
    urkel_tx_t *t = a_tx_create(c.db, nullptr);
    CTx x{t, c.def->kv, c.def, {}};
    long l0 = ip::live().allocs, f0 = c.files;
    for (size_t j = r.below(c.kg.keys.size() + 1); j > 0; j--) {
      H32 k = r.pick(c.kg.keys);
      Bytes v = gen_value(r, c.vmode);
      Res ed = a_tx_insert(t, k, v);
      ORACLE(C, ed.ret, "edit", "tx_insert failed");
      x.kv[k] = mkval(k, v);
      x.touched.insert(k);
    }
    size_t n = x.touched.size();
    c.commit(x);
    long l1 = ip::live().allocs;
    cx.add("release_checks");
    ORACLE(C, l1 - l0 <= 24 + 2 * (c.files - f0), "commit-holds", "after a commit of %zu edited keys %ld more allocations are held than before the edits", n, l1 - l0);
    urkel_tx_destroy(t);
  }
  int ops = r.range(10, cx.thorough ? 160 : 60);
  uint64_t sig = 0;
  for (int i = 0; i < ops; i++) {
    int k = r.below(20);
    sig |= 1u << k;
    T("op %d kind %d", i, k);
    if (k < 9) { CTx *t = c.tx(); for (int j = r.below(6); j >= 0; j--) c.edit(*t); c.quiet("editing"); }
    else if (k < 12) c.commit(*c.tx());
    else if (k < 14) {
      KV kv = c.def->kv;
      H32 key = c.key(kv);
      VerP base = c.def;
      Res x;
      c.start();
      bool rem = kv.count(key) && r.chance(40);
      if (rem) { kv.erase(key); x = a_remove(c.db, key); }
      else { Bytes v = gen_value(r, c.vmode); kv[key] = mkval(key, v); x = a_insert(c.db, key, v); }
      ORACLE(C, x.ret == 1, "direct", "insert or remove failed with %s", ename(x.err));
      c.few_reads(rem ? "remove" : "insert", path_len(base->kv, key) + 5);
      c.appended(rem ? "remove" : "insert", mkversion(kv), base, {key});
    }
    else if (k < 17) c.reads();
    else if (k == 17) { CTx *t = c.tx(); urkel_tx_clear(t->tx); t->kv = c.def->kv; t->base = c.def; t->touched.clear(); c.quiet("clear"); }
    else if (k == 18) { CTx *t = c.tx(); H32 h = c.root(); Res x = a_tx_inject(t->tx, h); ORACLE(C, x.ret == 1, "inject", "tx_inject failed with %s", ename(x.err)); t->kv = c.hist[h]->kv; t->base = c.hist[h]; t->touched.clear(); c.quiet("inject"); }
    else if (r.chance(50)) { c.close(); c.quiet("close"); c.open(); }
    else if (!c.txs.empty()) { urkel_tx_destroy(c.txs.back().tx); c.txs.pop_back(); c.quiet("dropping a transaction"); }
  }
  c.reads();
  c.close();
  c.open();
  c.reads();
  c.close();
  cx.add("max_ratio", 0);
  if (c.ratio > cx.stats["max_ratio"]) cx.stats["max_ratio"] = c.ratio;
  cx.add("reads_on_paths", c.nread);
  cx.add("nodes_on_paths", c.npath);
  if (c.commits) cx.seen("cases", mix(sig, mix(c.commits, *(const uint64_t *)c.def->root.data())));
  cx.sample("case " + std::to_string(cx.cas) + ": " + std::to_string(ops) + " steps, " + std::to_string(c.commits) + " commits, " + std::to_string(c.def->nodes.size()) + " nodes at the end, " + std::to_string(c.files) + " files");
}
