// Scale and limits (P17, and with opt fmt P21): file boundaries at every offset, real
// 2 GB files (sparse, and written through the API), tens of thousands of files,
// commits larger than the write buffer.
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include "sim.h"
namespace {
const uint64_t MAXF = 0x7ffff000;
struct Book {
  Rng &r;
  std::string path;
  urkel_t *db = nullptr;
  std::vector<VerP> vs;      // committed, oldest first
  KeyGen kg;
  Mask m = M(P17, P21);
  uint64_t limit = MAXF;
  Book(Rng &q, int nkeys) : r(q), path(cx.dir + "/db") {
    ip::rm_rf(path);
    kg = KeyGen::make(r, r.below(NFAM), nkeys);
    vs.push_back(mkversion(KV()));
  }
  void open() {
    int e = 0;
    db = a_open(path, &e);
    ORACLE(m, db != nullptr, "open", "open failed with %s", ename(e));
    H32 h = a_root(db);
    ORACLE(m, h == vs.back()->root, "root", "after open the root is %s, not that of the last commit, %s", hexs(h).c_str(), hexs(vs.back()->root).c_str());
  }
  void close() {
    urkel_close(db);
    db = nullptr;
    ip::Res l = ip::live();
    ORACLE(m, !l.allocs && !l.fds && !l.maps, "leak", "after close: %ld allocations, %ld descriptors, %ld mappings", l.allocs, l.fds, l.maps);
  }
  void view(const VerP &v, int probes, bool walk) {
    const H32 *root = &v->root;
    if (walk) {
      urkel_iter_t *it = urkel_iterate(db, root->data());
      ORACLE(m, it != nullptr, "history", "iterating root %s failed with %s", hexs(*root).c_str(), ename(urkel_errno));
      IterRes ir = a_walk(it);
      urkel_iter_destroy(it);
      ORACLE(m, same(v->kv, ir), "records", "root %s: %s", hexs(*root).c_str(), kvdiff(v->kv, ir).c_str());
      cx.add("records_compared", ir.recs.size());
    }
    std::vector<H32> ks;
    for (int i = 0; i < probes && !v->kv.empty(); i++) {
      H32 k = r.pick(kg.keys);
      auto it = v->kv.lower_bound(k);
      ks.push_back(it == v->kv.end() || r.chance(10) ? kg.absent(r) : it->first);
    }
    for (auto &k : ks) {
      auto it = v->kv.find(k);
      Res g = a_get(db, k, root);
      ORACLE(m, g.ret == (it != v->kv.end()), "get", "root %s key %s: get gave %d %s", hexs(*root).c_str(), hexs(k).c_str(), g.ret, ename(g.err));
      if (g.ret) ORACLE(m, g.v == it->second->v, "get", "root %s key %s: a value of %zu bytes differs from what was committed (%zu bytes)", hexs(*root).c_str(), hexs(k).c_str(), g.v.size(), it->second->v.size());
      if (r.chance(30)) {
        Res p = a_prove(db, k, root);
        ORACLE(m, p.ret && p.v == v->prove(k), "prove", "root %s key %s: prove gave %d %s", hexs(*root).c_str(), hexs(k).c_str(), p.ret, ename(p.err));
      }
      cx.add("reads");
    }
  }
  void all(int maxviews, int probes, bool walk = true) {
    std::vector<size_t> ix;
    for (size_t i = 0; i < vs.size(); i++) ix.push_back(i);
    for (size_t i = ix.size(); i > 1; i--) std::swap(ix[i - 1], ix[r.below(i)]);
    view(vs.back(), probes, walk);
    for (auto i : ix) { if (!vs[i]) continue; if (maxviews-- <= 0) break; view(vs[i], probes, walk); }
  }
  // one commit of n changes
  void commit(int n, int vmode, int fixed = -1) {
    KV kv = vs.back()->kv;
    urkel_tx_t *tx = a_tx_create(db, nullptr);
    ORACLE(m, tx != nullptr, "tx", "tx_create failed with %s", ename(urkel_errno));
    for (int i = 0; i < n; i++) {
      H32 k = r.pick(kg.keys);
      if (!kv.empty() && r.chance(12)) {
        auto it = kv.lower_bound(k);
        if (it == kv.end()) it = kv.begin();
        k = it->first;
        Res x = a_tx_remove(tx, k);
        ORACLE(m, x.ret, "remove", "tx_remove of a present key failed with %s", ename(x.err));
        kv.erase(it);
      } else {
        Bytes v;
        if (fixed >= 0) { v.resize(fixed); r.fill(v.data(), v.size()); }
        else v = gen_value(r, vmode);
        Res x = a_tx_insert(tx, k, v);
        ORACLE(m, x.ret, "insert", "tx_insert failed with %s", ename(x.err));
        kv[k] = mkval(k, v);
      }
    }
    finish(tx, mkversion(kv));
  }
  void finish(urkel_tx_t *tx, VerP v) {
    Res c = a_commit(tx);
    ORACLE(m, c.ret, "commit", "commit failed with %s", ename(c.err));
    urkel_tx_destroy(tx);
    vs.push_back(v);
    H32 h = a_root(db);
    ORACLE(m, h == v->root, "root", "after a commit the root is %s, expected %s", hexs(h).c_str(), hexs(v->root).c_str());
    cx.add("commits");
    ip::Res l = ip::live();
    long mo = get_limits().max_open;
    ORACLE(M(P17), l.fds <= mo + 3, "too-many-fds", "%ld descriptors open after a commit (max open files %ld)", l.fds, mo);
  }
  void files(long *count = nullptr) {
    long n = 0;
    for (auto &f : ip::list_dir(path)) {
      if (!is_datafile(f)) continue;
      struct stat st;
      if (::stat((path + "/" + f).c_str(), &st)) continue;
      n++;
      ORACLE(M(P17), (uint64_t)st.st_size <= limit, "file-too-big", "data file %s has %lld bytes, limit %llu", f.c_str(), (long long)st.st_size, (unsigned long long)limit);
    }
    cx.stats["max_files"] = std::max(cx.stats["max_files"], n);
    if (count) *count = n;
  }
  // independent reader: the newest k records of the chain
  void disk(size_t k, bool mapped) {
    DirImage im;
    DiskDb d;
    bool ok;
    MappedDir *md = nullptr;
    if (mapped) { md = new MappedDir(path); ok = d.load(*md); }
    else { im = ip::read_dir(path); ok = d.load(im); }
    ORACLE(m, ok, "disk", "independent reader: %s", d.err.c_str());
    ORACLE(m, d.chain.size() == vs.size() - 1, "disk", "%zu commit records for %zu commits", d.chain.size(), vs.size() - 1);
    for (size_t i = 0; i < d.chain.size(); i++) {
      if (i >= k && !(i < 400 && r.chance(3))) continue;
      KV kv;
      H32 root;
      const VerP &v = vs[vs.size() - 1 - i];
      if (!v) continue;
      bool dok = d.decode(d.chain[i].root, kv, root);
      ORACLE(m, dok, "disk", "independent reader: commit record %zu from the end: %s", i, d.err.c_str());
      ORACLE(m, root == v->root && kv_eq(kv, v->kv), "disk", "commit record %zu from the end leads to other records than were committed", i);
      cx.add("disk_checks");
    }
    delete md;
  }
};
Limits scaled(uint64_t maxf, size_t mo, size_t wb, size_t rb) { Limits l = real_limits; l.max_file = maxf; l.max_open = mo; if (wb) l.wbuf = wb; if (rb) l.rbuf = rb; return l; }

// the same workload with the boundary at every offset
void sweep() {
  long w = cx.cas / 1400, off = cx.cas % 1400;
  Rng r(mix(cx.seed, mix(w, 0x5eeb)));
  Book b(r, 24);
  b.limit = 1101 + off;
  set_limits(scaled(b.limit, 1 + w % 4, w % 3 ? 1 + r.below(3000) : 0, w % 2 ? 76 + r.below(400) : 0));
  b.open();
  for (int i = 0; i < 7; i++) {
    int n = i == 3 ? 0 : r.range(1, 7);
    b.commit(n, 0, i == 5 ? 1023 : -1);
    if (i == 2 || i == 4) { b.close(); b.open(); }
  }
  b.all(3, 4);
  b.close();
  b.open();
  b.all(8, 3);
  b.commit(3, 0);
  b.close();
  b.open();
  b.view(b.vs.back(), 4, true);
  b.close();
  b.files();
  b.disk(10, false);
  cx.add("boundaries");
  cx.seen("cases", mix(mix(w, off), *(const uint64_t *)b.vs.back()->root.data()));
}
// tens of thousands of files
void many() {
  Rng r(mix(cx.seed, mix(cx.cas, 0x3a3a)));
  Book b(r, 200);
  b.limit = 1100 + r.below(30);
  set_limits(scaled(b.limit, cx.cas % 2 ? 32 : 1 + r.below(8), 0, 0));
  long goal = cx.opt.count("goal") ? atol(cx.opt["goal"].c_str()) : 32760;
  b.open();
  long n = 0;
  int step = 0;
  for (int i = 0;; i++) {
    b.files(&n);
    if (n >= goal) break;
    long left = goal - n;
    int k = left > 200 ? 100 : left > 20 ? 8 : 1;
    b.commit(k, 0, left > 20 ? 900 : 10);
    if (++step % 97 == 0) { b.close(); b.open(); b.all(2, 3, false); }
  }
  b.all(12, 6);
  b.close();
  b.open();
  b.all(20, 6);
  b.close();
  b.files(&n);
  b.disk(2, false);
  cx.add("many_files", n);
  cx.seen("cases", mix(n, *(const uint64_t *)b.vs.back()->root.data()));
  cx.sample("case " + std::to_string(cx.cas) + ": " + std::to_string(n) + " files, " + std::to_string(b.vs.size() - 1) + " commits");
}
// a database in the documented format with records near the end of real 2 GB files, then used
void sparse() {
  Rng r(mix(cx.seed, mix(cx.cas, 0x59a5)));
  Book b(r, 40);
  set_limits(real_limits);
  H32 key;
  r.fill(key.data(), 32);
  int layout = r.below(5);
  {
    DbWriter w;
    int maxfiles = layout == 0 ? 1 : layout == 4 ? r.range(30, 45) : r.range(2, 6);
    unsigned jump = layout == 4 ? 50 : r.range(2, 30);
    w.place = [&](DbWriter &d, size_t len, int kind) {
      if (r.chance(jump)) {
        uint64_t t = r.chance(60) ? MAXF - r.below(3000) : r.below(MAXF);
        if (t > d.pos) d.pos = t;
      } else if ((int)d.file < maxfiles && r.chance(jump / 2 + 1)) { d.file++; d.pos = r.chance(50) ? 0 : r.chance(50) ? r.below(200) : MAXF - 200 - r.below(2000); }
      if (kind == 4 && d.pos % 38) d.pos += 38 - d.pos % 38;
      if (d.pos + len > MAXF) { d.file++; d.pos = 0; }
    };
    w.start(b.path, key);
    KV kv;
    int n = r.range(2, 12);
    for (int i = 0; i < n; i++) {
      for (int j = r.range(1, 8); j > 0; j--) {
        H32 k = r.pick(b.kg.keys);
        if (r.chance(15)) kv.erase(k); else { Bytes v = gen_value(r, r.below(5)); kv[k] = mkval(k, v); }
      }
      VerP v = mkversion(kv);
      w.commit(*v);
      b.vs.push_back(v);
    }
  }
  b.disk(20, true);   // the writer agrees with the reader
  bool junk = r.chance(25);
  if (junk) {   // the remains of a write that was interrupted: ignored by recovery
    std::string f;
    for (auto &n : ip::list_dir(b.path)) if (is_datafile(n)) f = n;
    struct stat st;
    std::string p = b.path + "/" + f;
    ::stat(p.c_str(), &st);
    size_t len = r.range(1, 2000);
    if ((uint64_t)st.st_size + len > MAXF) len = MAXF - st.st_size;
    Bytes g(len);
    r.fill(g.data(), len);
    int fd = ::open(p.c_str(), O_WRONLY | O_APPEND | O_CLOEXEC);
    if (fd < 0 || ::write(fd, g.data(), len) != (ssize_t)len) harness_error("append");
    ::close(fd);
  }
  b.open();
  b.all(20, 5);
  for (int i = r.range(1, 5); i > 0; i--) b.commit(r.range(0, 8), 0, r.chance(30) ? 1023 : -1);
  b.all(20, 3);
  b.close();
  b.open();
  b.all(20, 3);
  b.commit(3, 0);
  b.close();
  b.files();
  b.disk(30, true);
  cx.add("sparse_databases");
  cx.seen("cases", mix(layout, *(const uint64_t *)b.vs.back()->root.data()));
  cx.sample("case " + std::to_string(cx.cas) + ": layout " + std::to_string(layout) + ", " + std::to_string(b.vs.size() - 1) + " commits" + (junk ? ", with an interrupted write" : ""));
}
// one commit larger than the write buffer (64 MB), several flushes
void wide() {
  Rng r(mix(cx.seed, mix(cx.cas, 0x71de)));
  set_limits(real_limits);
  Book b(r, 4);
  long total = cx.opt.count("mb") ? atol(cx.opt["mb"].c_str()) : 70;
  long n = total * 1000000 / (cx.cas % 2 ? 1060 : 1140);
  b.kg.keys.clear();
  for (long i = 0; i < n; i++) { H32 k; r.fill(k.data(), 32); b.kg.keys.push_back(k); }
  b.open();
  b.commit(5, 0);
  KV kv = b.vs.back()->kv;
  urkel_tx_t *tx = a_tx_create(b.db, nullptr);
  for (auto &k : b.kg.keys) {
    Bytes v(1000 + r.below(24));
    r.fill(v.data(), v.size());
    Res x = a_tx_insert(tx, k, v);
    ORACLE(b.m, x.ret, "insert", "insert failed with %s", ename(x.err));
    kv[k] = mkval(k, v);
  }
  b.finish(tx, mkversion(kv));
  b.all(2, 200, true);
  b.commit(50, 0);
  b.close();
  b.open();
  b.all(3, 500, true);
  b.close();
  b.files();
  b.disk(2, true);
  cx.add("wide_commits");
  cx.add("wide_records", n);
  cx.seen("cases", mix(n, *(const uint64_t *)b.vs.back()->root.data()));
  cx.sample("case " + std::to_string(cx.cas) + ": one commit of " + std::to_string(n) + " records");
}
// more than 2 GB written through the API
void stream() {
  Rng r(mix(cx.seed, mix(cx.cas, 0x57e4)));
  set_limits(real_limits);
  Book b(r, 4);
  b.kg.keys.clear();
  for (int i = 0; i < 12000; i++) { H32 k; r.fill(k.data(), 32); b.kg.keys.push_back(k); }
  std::string f1 = b.path + "/0000000001", f2 = b.path + "/0000000002";
  auto fsize = [](const std::string &p) { struct stat st; return ::stat(p.c_str(), &st) ? 0ull : (unsigned long long)st.st_size; };
  b.open();
  std::vector<size_t> edge;
  KV kv;
  for (int after = 0; after < 25;) {
    uint64_t sz = fsize(f1);
    if (fsize(f2)) after++;
    bool near = sz > MAXF - 1500000 || after;
    bool mid = !near && sz > MAXF - 16000000;
    size_t n = near ? 1 + r.below(90) : mid ? 900 : b.kg.keys.size();
    size_t at = r.below(b.kg.keys.size());
    urkel_tx_t *tx = a_tx_create(b.db, nullptr);
    for (size_t i = 0; i < n; i++) {
      const H32 &k = b.kg.keys[(at + i) % b.kg.keys.size()];
      Bytes v(near ? r.below(1024) : 1023 - r.below(30));
      for (size_t j = 0; j + 8 <= v.size(); j += 8) { uint64_t x = r.next(); memcpy(&v[j], &x, 8); }
      Res x = a_tx_insert(tx, k, v);
      ORACLE(b.m, x.ret, "insert", "insert failed with %s", ename(x.err));
      kv[k] = mkval(k, v);
    }
    b.finish(tx, mkversion(kv));
    if (near) edge.push_back(b.vs.size() - 1);
    else if (b.vs.size() % 40 && b.vs.size() > 2) b.vs[b.vs.size() - 2] = nullptr;   // bound the memory of the model
  }
  b.all(12, 50, false);
  for (auto i : edge) b.view(b.vs[i], 60, false);
  for (auto i : edge) if (r.chance(15)) b.view(b.vs[i], 10, true);
  b.close();
  b.open();
  b.all(12, 50, false);
  for (auto i : edge) b.view(b.vs[i], 60, false);
  b.commit(10, 0);
  b.close();
  long nf = 0;
  b.files(&nf);
  b.disk(3, true);
  cx.add("streamed_files", nf);
  cx.seen("cases", mix(nf, *(const uint64_t *)b.vs.back()->root.data()));
  cx.sample("case " + std::to_string(cx.cas) + ": " + std::to_string(b.vs.size() - 1) + " commits, " + std::to_string(nf) + " files at the real limit");
}
// Databases written by earlier builds of the library, kept in /verif/golden with what
// they contain.  golden_gen wrote them (with those builds); golden opens and uses them.
std::string dump(const std::vector<VerP> &vs, uint64_t limit) {
  std::string o = "limit " + std::to_string(limit) + "\n";
  for (auto &v : vs) {
    o += "version " + hex(v->root) + "\n";
    for (auto &e : v->kv) o += hex(e.first) + " " + (e.second->v.empty() ? "-" : hex(e.second->v.data(), e.second->v.size())) + "\n";
  }
  return o;
}
Bytes unhex(const std::string &s) {
  Bytes b;
  if (s == "-") return b;
  for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(strtoul(s.substr(i, 2).c_str(), nullptr, 16));
  return b;
}
void golden_gen() {
  Rng r(mix(cx.seed, mix(cx.cas, 0x901d)));
  Book b(r, 4);
  b.kg = KeyGen::make(r, cx.cas % NFAM, cx.cas % 3 ? r.range(3, 60) : r.range(1, 4));
  b.limit = cx.cas % 4 == 3 ? MAXF : 1200 + r.below(6000);
  bool old = cx.opt.count("old");   // that build truncated longer values
  set_limits(b.limit == MAXF ? real_limits : scaled(b.limit, 4, 0, 0));
  b.open();
  for (int i = r.range(2, 9); i > 0; i--) {
    b.commit(r.range(0, 8), 0, old ? (int)r.below(256) : r.chance(30) ? (int)r.range(900, 1023) : -1);
    if (r.chance(30)) { b.close(); b.open(); }
  }
  b.all(100, 10);
  b.close();
  b.open();
  b.all(100, 10);
  b.close();
  b.disk(100, false);
  std::string out = cx.opt["out"] + "/" + cx.opt["name"] + std::to_string(cx.cas);
  ip::set_guard("");
  ip::mkdir_p(out);
  for (auto &f : ip::read_dir(b.path)) if (f.first != "lock") ip::write_file(out + "/" + f.first, f.second.data(), f.second.size());
  std::string e = dump(b.vs, b.limit);
  ip::write_file(out + "/expect", e.data(), e.size());
}
void golden() {
  auto names = ip::list_dir(cx.opt["from"]);
  if (names.empty()) harness_error("no golden databases in %s", cx.opt["from"].c_str());
  std::sort(names.begin(), names.end());
  std::string from = cx.opt["from"] + "/" + names[cx.cas % names.size()];
  Rng r(mix(cx.seed, mix(cx.cas, 0x90bd)));
  Book b(r, 4);
  DirImage im = ip::read_dir(from);
  std::string e(im["expect"].begin(), im["expect"].end());
  im.erase("expect");
  b.vs.clear();
  std::vector<H32> keys;
  KV kv;
  H32 root;
  bool any = false;
  auto flush = [&] { if (!any) return; VerP v = mkversion(kv); if (v->root != root) harness_error("%s: expected contents do not have the root %s", from.c_str(), hexs(root).c_str()); b.vs.push_back(v); kv.clear(); };
  for (size_t i = 0, j; i < e.size(); i = j + 1) {
    j = e.find('\n', i);
    std::string l = e.substr(i, j - i), a = l.substr(0, l.find(' ')), c = l.substr(l.find(' ') + 1);
    if (a == "limit") b.limit = strtoull(c.c_str(), nullptr, 10);
    else if (a == "version") { flush(); any = true; Bytes x = unhex(c.substr(0, 64)); std::copy(x.begin(), x.end(), root.begin()); }
    else { Bytes x = unhex(a); H32 k; std::copy(x.begin(), x.end(), k.begin()); kv[k] = mkval(k, unhex(c)); keys.push_back(k); }
  }
  flush();
  b.kg = KeyGen::make(r, r.below(NFAM), r.range(2, 20));
  b.kg.keys.insert(b.kg.keys.end(), keys.begin(), keys.end());
  set_limits(b.limit == MAXF ? real_limits : scaled(b.limit, 1 + r.below(5), r.chance(50) ? 0 : r.range(1, 3000), 0));
  ip::mkdir_p(b.path);
  ip::write_dir(b.path, im);
  size_t n0 = b.vs.size();
  b.open();
  b.all(100, 6);
  for (int i = r.below(5); i > 0; i--) { b.commit(r.range(0, 8), r.below(5)); if (r.chance(20)) { b.close(); b.open(); } }
  b.all(100, 3);
  b.close();
  b.open();
  b.all(100, 3);
  b.close();
  b.disk(100, false);
  DirImage now = ip::read_dir(b.path);
  for (auto &f : im) ORACLE(b.m, now.count(f.first) && now[f.first].size() >= f.second.size() && std::equal(f.second.begin(), f.second.end(), now[f.first].begin()), "golden-bytes", "%s: using the database changed or removed bytes of %s that an earlier build had written", from.c_str(), f.first.c_str());
  cx.add("golden_databases");
  cx.seen("cases", mix(cx.cas % names.size(), *(const uint64_t *)b.vs.back()->root.data()));
  if (cx.cas < (long)names.size()) cx.sample("case " + std::to_string(cx.cas) + ": " + names[cx.cas % names.size()] + ", " + std::to_string(n0 - 1) + " commits of an earlier build, " + std::to_string(b.vs.size() - n0) + " more");
}
}
void run_big() {
  std::string k = cx.opt["kind"];
  if (k == "sweep") sweep();
  else if (k == "many") many();
  else if (k == "sparse") sparse();
  else if (k == "wide") wide();
  else if (k == "stream") stream();
  else if (k == "golden") golden();
  else if (k == "golden-gen") golden_gen();
  else harness_error("kind?");
  ip::rm_rf(cx.dir + "/db");
}
