// Crash points (P08): the files as they are just before, and part-way through,
// every call that changes them; each state is reopened and judged.
#include "sim.h"
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

struct Point {
  DirImage img;
  bool dir;                 // the directory exists
  VerP acked, inflight;
  std::vector<VerP> hist;   // every version committed so far
  std::string what;
  bool opening;
};
static std::vector<Point> pts;
static Sim *cur;
static Rng *crng;
static std::string live_dir;
static std::unordered_set<uint64_t> states;
static size_t max_pts;
static bool opening;
static const Mask C = M(P08, P24);

static uint64_t image_hash(const DirImage &im, bool dir) {
  uint64_t h = dir;
  for (auto &e : im) {
    for (char c : e.first) h = mix(h, c);
    H32 d = ref_hash(e.second.data(), e.second.size());
    h = mix(h, *(uint64_t *)d.data());
  }
  return h;
}
static void add_point(DirImage im, bool dir, const std::string &what) {
  uint64_t h = image_hash(im, dir);
  VerP ack = cur->last;
  h = mix(h, *(const uint64_t *)ack->root.data());
  if (!states.insert(h).second) return;
  Point p;
  p.dir = dir;
  p.acked = ack;
  p.inflight = cur->inflight;
  for (auto &e : cur->hist) p.hist.push_back(e.second);
  p.what = what;
  p.opening = opening;
  p.img = std::move(im);
  if (pts.size() < max_pts) pts.push_back(std::move(p));
  else { size_t i = crng->below(pts.size() * 2); if (i < pts.size()) pts[i] = std::move(p); }
  cx.add("crash_points_seen");
}
static void hook(const ip::Op &op) {
  std::string path = op.path ? op.path : "";
  if (path.compare(0, live_dir.size(), live_dir)) return;
  DirImage im = ip::read_dir(live_dir);
  bool dir = ip::exists(live_dir);
  std::string base = path.substr(std::min(path.size(), live_dir.size() + 1));
  char b[200];
  snprintf(b, sizeof b, "before %s(%s%s, %zu)", ip::cls_name[op.cls], op.cls == ip::C_OPEN ? "create " : "", base.c_str(), op.len);
  cx.add((std::string("at_") + ip::cls_name[op.cls]).c_str());
  add_point(im, dir, b);
  if (op.cls == ip::C_WRITE && op.len > 1) {
    auto it = im.find(base);
    size_t at = it == im.end() ? 0 : it->second.size();
    std::set<size_t> cuts = {1, op.len - 1, op.len / 2};
    for (int i = 0; i < 3; i++) cuts.insert(crng->range(1, op.len - 1));
    // around the commit record at the end and at record-aligned positions
    for (size_t k : {(size_t)38, (size_t)37, (size_t)20, (size_t)39, (size_t)76}) if (op.len > k) cuts.insert(op.len - k);
    size_t al = 38 - at % 38;
    if (al < op.len) cuts.insert(al);
    for (size_t c : cuts) {
      DirImage t = im;
      Bytes &f = t[base];
      size_t o = f.size();
      const uint8_t *d = (const uint8_t *)op.data;
      if (op.off >= 0) { if (f.size() < (size_t)op.off + c) f.resize(op.off + c); memcpy(f.data() + op.off, d, c); }
      else f.insert(f.end(), d, d + c);
      (void)o;
      snprintf(b, sizeof b, "after %zu of %zu bytes written to %s", c, op.len, base.c_str());
      add_point(std::move(t), dir, b);
    }
  }
}
static void records(urkel_t *db, const VerP &v, const H32 *root, const char *what, const char *where) {
  urkel_errno = ESENT;
  urkel_iter_t *it = urkel_iterate(db, root ? root->data() : nullptr);
  ORACLE(C, it != nullptr, "crash-root-lost", "%s: %s: root %s cannot be read: %s", what, where, hexs(v->root).c_str(), ename(urkel_errno));
  IterRes ir = a_walk(it);
  urkel_iter_destroy(it);
  cx.add("records_compared", ir.recs.size());
  ORACLE(C, same(v->kv, ir) && ir.err == URKEL_EITEREND, "crash-records", "%s: %s: %s (end %s)", what, where, kvdiff(v->kv, ir).c_str(), ename(ir.err));
}
static void recover(const Point &p, const std::string &path, Rng &r, int depth) {
  if (p.dir) ip::write_dir(path, p.img); else ip::rm_rf(path);
  T("crash point: %s (acked %s, in flight %s)%s", p.what.c_str(), hexs(p.acked->root).c_str(), p.inflight ? hexs(p.inflight->root).c_str() : "none", depth ? " during recovery" : "");
  cx.add("recoveries");
  const char *what = p.what.c_str();
  int err;
  // recovery itself may be interrupted
  std::vector<Point> nested;
  struct Save { std::vector<Point> pts; std::string d; } save;
  bool nest = depth == 0 && r.chance(12);
  Sim dummy(1, path);
  Sim *oc = cur;
  size_t omax = max_pts;
  if (nest) {
    std::swap(save.pts, pts);
    save.d = live_dir;
    live_dir = path;
    cur = &dummy;
    dummy.last = p.acked;
    dummy.inflight = p.inflight;
    for (auto &v : p.hist) dummy.hist[v->root] = v;
    max_pts = 40;
    opening = true;
    ip::on_mut = hook;
  }
  urkel_t *db = a_open(path, &err);
  if (nest) {
    ip::on_mut = nullptr;
    nested = std::move(pts);
    pts = std::move(save.pts);
    live_dir = save.d;
    cur = oc;
    max_pts = omax;
  }
  ORACLE(C, db != nullptr, "crash-unopenable", "%s: the database does not open any more (%s); files:%s", what, ename(err), [&] { std::string s; for (auto &e : p.img) s += " " + e.first + "=" + std::to_string(e.second.size()); return s; }().c_str());
  if (!db) throw CaseEnd();
  H32 root = a_root(db);
  VerP v;
  if (root == p.acked->root) v = p.acked;
  else if (p.inflight && root == p.inflight->root) v = p.inflight;
  ORACLE(C, v != nullptr, "crash-root", "%s: reopened with root %s; last acknowledged %s, in flight %s", what, hexs(root).c_str(), hexs(p.acked->root).c_str(), p.inflight ? hexs(p.inflight->root).c_str() : "none");
  if (!v) throw CaseEnd();
  cx.add(v == p.acked ? "recovered_acked" : "recovered_inflight");
  records(db, v, nullptr, what, "current");
  std::vector<VerP> hs = p.hist;
  if (v == p.inflight) hs.push_back(v);
  for (size_t i = hs.size(); i > 1; i--) std::swap(hs[i - 1], hs[r.below(i)]);
  for (size_t i = 0; i < hs.size() && i < 4; i++) records(db, hs[i], &hs[i]->root, what, "history");
  bool known = p.inflight && p.inflight != v;
  for (auto &h : hs) if (p.inflight && h->root == p.inflight->root) known = false;
  if (known && p.inflight->root != ZERO) {
    H32 k = ZERO;
    Res g = a_has(db, k, &p.inflight->root);
    ORACLE(C, g.ret == 0 && g.err == URKEL_ENOTFOUND, "crash-halfway-root", "%s: the interrupted commit is not current, but its root %s is addressable", what, hexs(p.inflight->root).c_str());
  }
  // usable
  std::vector<VerP> mine;
  VerP now = v;
  int n = r.range(1, 3);
  for (int i = 0; i < n; i++) {
    urkel_tx_t *tx = a_tx_create(db, nullptr, &err);
    ORACLE(C, tx != nullptr, "crash-unusable", "%s: transaction on the recovered database failed: %s", what, ename(err));
    KV kv = now->kv;
    int m = r.below(4);
    for (int j = 0; j <= m; j++) {
      H32 k;
      if (!kv.empty() && r.chance(50)) {
        auto it = kv.begin();
        std::advance(it, r.below(kv.size()));
        k = it->first;
        if (r.chance(50)) {
          Res x = a_tx_remove(tx, k);
          ORACLE(C, x.ret == 1, "crash-unusable", "%s: remove on the recovered database failed: %s", what, ename(x.err));
          kv.erase(k);
          continue;
        }
      } else r.fill(k.data(), 32);
      Bytes val = gen_value(r, r.below(5));
      Res x = a_tx_insert(tx, k, val);
      ORACLE(C, x.ret == 1, "crash-unusable", "%s: insert on the recovered database failed: %s", what, ename(x.err));
      kv[k] = mkval(k, val);
    }
    Res x = a_commit(tx);
    ORACLE(C, x.ret == 1, "crash-unusable", "%s: commit on the recovered database failed: %s", what, ename(x.err));
    urkel_tx_destroy(tx);
    now = mkversion(kv);
    mine.push_back(now);
    H32 h = a_root(db);
    ORACLE(C, h == now->root, "crash-root-after", "%s: root %s after a further commit, expected %s", what, hexs(h).c_str(), hexs(now->root).c_str());
    if (r.chance(40)) {
      urkel_close(db);
      db = a_open(path, &err);
      ORACLE(C, db != nullptr, "crash-unopenable", "%s: the recovered database does not open after a further commit: %s", what, ename(err));
      h = a_root(db);
      ORACLE(C, h == now->root, "crash-lost-later", "%s: a commit acknowledged after recovery is lost: root %s, expected %s", what, hexs(h).c_str(), hexs(now->root).c_str());
    }
  }
  urkel_close(db);
  db = a_open(path, &err);
  ORACLE(C, db != nullptr, "crash-unopenable", "%s: the recovered database does not open after further commits: %s", what, ename(err));
  H32 h = a_root(db);
  ORACLE(C, h == now->root, "crash-lost-later", "%s: a commit acknowledged after recovery is lost: root %s, expected %s", what, hexs(h).c_str(), hexs(now->root).c_str());
  records(db, now, nullptr, what, "after further commits");
  for (auto &m : mine) records(db, m, &m->root, what, "commit made after recovery");
  for (size_t i = 0; i < hs.size() && i < 6; i++) records(db, hs[hs.size() - 1 - i], &hs[hs.size() - 1 - i]->root, what, "history after further commits");
  urkel_close(db);
  if (r.chance(30)) {
    DirImage im = ip::read_dir(path);
    DiskDb d;
    ORACLE(C, d.load(im), "crash-disk", "%s: independent reader: %s", what, d.err.c_str());
    KV kv;
    H32 rt;
    ORACLE(C, !d.chain.empty() && d.decode(d.chain[0].root, kv, rt) && rt == now->root && kv_eq(kv, now->kv), "crash-disk", "%s: independent reader finds other contents (%s)", what, d.err.c_str());
  }
  cx.seen("recovered", mix(image_hash(p.img, p.dir), *(const uint64_t *)p.acked->root.data()));
  for (auto &q : nested) {
    Point z = q;
    z.what += " while recovering from a crash " + p.what;
    cx.add("nested_recoveries");
    recover(z, path + "n", r, 1);
  }
}

// a real process killed with SIGKILL at a random moment
static void kill_case(Rng &r) {
  std::string path = cx.dir + "/db";
  ip::rm_rf(path);
  uint64_t wseed = r.next();
  struct Sh { volatile long acked; volatile long begun; };
  Sh *sh = (Sh *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<VerP> vs = {mkversion(KV())};
  Limits l = gen_limits(r, true);
  set_limits(l);
  int nkeys = r.range(3, 30), vm = r.below(5);
  // version i+1 is a pure function of version i and the seed
  auto step = [&](long i, KV &kv, std::vector<std::pair<H32, Bytes>> &ins, std::vector<H32> &rem) {
    Rng q(mix(wseed, i));
    int n = q.range(1, 8);
    while (n--) {
      H32 k;
      Rng kk(mix(wseed, 1000003 + q.below(nkeys)));
      kk.fill(k.data(), 32);
      if (q.chance(30) && kv.count(k)) { kv.erase(k); rem.push_back(k); ins.push_back({k, Bytes()}); }
      else { Bytes v = gen_value(q, vm); kv[k] = mkval(k, v); rem.push_back(ZERO); ins.push_back({k, v}); }
    }
  };
  long next = 0;
  bool fresh = true;
  for (int round = 0; round < 4; round++) {
    sh->acked = 0;
    sh->begun = 0;
    pid_t pid = fork();
    if (pid == 0) {
      KV kv = vs.back()->kv;
      urkel_t *db = a_open(path);
      if (!db) _exit(9);
      for (long i = next;; i++) {
        std::vector<std::pair<H32, Bytes>> ins;
        std::vector<H32> rem;
        step(i, kv, ins, rem);
        urkel_tx_t *tx = a_tx_create(db, nullptr);
        if (!tx) _exit(8);
        for (size_t j = 0; j < ins.size(); j++) {
          if (rem[j] != ZERO) { if (!a_tx_remove(tx, ins[j].first).ret) _exit(7); }
          else if (!a_tx_insert(tx, ins[j].first, ins[j].second).ret) _exit(7);
        }
        sh->begun = i - next + 1;
        if (!a_commit(tx).ret) _exit(6);
        sh->acked = i - next + 1;
        urkel_tx_destroy(tx);
        if (i - next > 400) _exit(0);
        if (i % 17 == 16) { urkel_close(db); db = a_open(path); if (!db) _exit(9); }
      }
    }
    struct timespec ts = {0, (long)r.below(round ? 12000000 : 4000000)};
    nanosleep(&ts, nullptr);
    kill(pid, SIGKILL);
    int st;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st)) ORACLE(C, WEXITSTATUS(st) == 0, "crash-child", "after a kill, the next process failed at step %d", WEXITSTATUS(st));
    long a = sh->acked, b = sh->begun;
    cx.add("kills");
    cx.add("kill_commits", a);
    KV kv = vs.back()->kv;
    std::vector<VerP> add;
    for (long i = 0; i < b; i++) { std::vector<std::pair<H32, Bytes>> ins; std::vector<H32> rem; step(next + i, kv, ins, rem); add.push_back(mkversion(kv)); }
    Point p;
    VerP acked = a ? add[a - 1] : vs.back();
    VerP infl = b > a ? add[b - 1] : nullptr;
    std::vector<VerP> hist = vs;
    hist.insert(hist.end(), add.begin(), add.begin() + a);
    p.dir = ip::exists(path);
    p.img = ip::read_dir(path);
    p.acked = acked; p.inflight = infl; p.hist = hist;
    p.what = "process killed after " + std::to_string(a) + " commits";
    recover(p, cx.dir + "/rec", r, 1);
    // go on with the original directory
    int err;
    urkel_t *db = a_open(path, &err);
    ORACLE(C, db != nullptr, "crash-unopenable", "after kill -9 the database does not open: %s", ename(err));
    H32 root = a_root(db);
    urkel_close(db);
    for (long i = 0; i < a; i++) vs.push_back(add[i]);
    next += a;
    if (infl && root == infl->root) { vs.push_back(infl); next++; }
    fresh = false;
  }
  (void)fresh;
  munmap(sh, 4096);
  cx.seen("cases", mix(cx.cas, *(const uint64_t *)vs.back()->root.data()));
}
void run_crash() {
  Rng r(mix(cx.seed, mix(cx.cas, 0xc4a54)));
  if (cx.cas % 16 == 15) { kill_case(r); return; }
  std::string path = cx.dir + "/db";
  ip::rm_rf(path);
  Limits l = gen_limits(r, !r.chance(10));
  if (r.chance(50)) l.wbuf = r.range(1, 1500);
  set_limits(l);
  pts.clear();
  states.clear();
  crng = &r;
  live_dir = path;
  max_pts = cx.thorough ? 400 : 120;
  {
    Sim s(r.next(), path);
    s.lim = l;
    s.no_destroy = true;
    cur = &s;
    s.kg = KeyGen::make(r, cx.cas % NFAM, r.range(3, 40));
    s.vmode = r.below(5);
    int ops = r.range(10, cx.thorough ? 120 : 60);
    T("case %ld limits %llu/%zu/%zu/%zu ops %d", cx.cas, (unsigned long long)l.max_file, l.wbuf, l.rbuf, l.max_open, ops);
    ip::on_mut = hook;
    s.open();
    for (int i = 0; i < ops; i++) s.op();
    s.inflight = nullptr;
    s.close_all();
    ip::on_mut = nullptr;
    DirImage im = ip::read_dir(path);
    add_point(im, true, "after the last close");
    cx.add("commits", 0);
    for (auto &p : pts) recover(p, cx.dir + "/rec", r, 0);
    cx.seen("cases", mix(s.opmask, mix(pts.size(), *(const uint64_t *)s.last->root.data())));
    cx.sample("case " + std::to_string(cx.cas) + ": " + std::to_string(ops) + " ops, " + std::to_string(s.ncommits) + " commits, " + std::to_string(pts.size()) + " crash states reopened, e.g. " + (pts.empty() ? "-" : pts[pts.size() / 2].what));
    cur = nullptr;
  }
}

// ---- power loss (P24): what was never synced is lost, each file keeping any
// prefix of the changes made to it since its last sync.
struct FileLog {
  Bytes durable;            // content at the last sync
  bool entry = false;       // synced at least once: the name is durable too
  struct Ch { bool trunc; size_t at; Bytes d; };
  std::vector<Ch> ch;       // changes since
  Bytes now() const { Bytes b = durable; for (auto &c : ch) apply(b, c, c.d.size()); return b; }
  static void apply(Bytes &b, const Ch &c, size_t n) {
    if (c.trunc) { b.resize(c.at); return; }
    size_t o = c.at == (size_t)-1 ? b.size() : c.at;
    if (b.size() < o + n) b.resize(o + n);
    if (n) memcpy(b.data() + o, c.d.data(), n);
  }
};
struct Ack { VerP v; uint32_t file; };
struct Loss { Point p; long least; };
static std::map<std::string, FileLog> logs;
static std::vector<Ack> acks;
static std::vector<Loss> losses;
static long pncommits;
static bool fsync_build;
static bool data_name(const std::string &b) { return b.size() == 10 && b.find_first_not_of("0123456789") == std::string::npos; }
static uint32_t top_written() {
  uint32_t t = 0;
  for (auto &e : logs) if (!e.second.now().empty()) t = std::max<uint32_t>(t, strtoul(e.first.c_str(), nullptr, 10));
  return t;
}
static void note_acks() {
  if (cur->ncommits == pncommits) return;
  pncommits = cur->ncommits;
  acks.push_back({cur->last, top_written()});
}
static void lose(const std::string &what) {
  if (losses.size() >= max_pts && !crng->chance(30)) return;
  DirImage im;
  Bytes key;
  bool dir = ip::exists(live_dir);
  for (auto &e : ip::read_dir(live_dir)) if (!data_name(e.first)) im[e.first] = e.second;
  uint32_t top = 0, wr = top_written();
  for (auto &e : logs) top = std::max<uint32_t>(top, strtoul(e.first.c_str(), nullptr, 10));
  std::string how;
  size_t unsynced = 0;
  for (auto &e : logs) {
    const FileLog &l = e.second;
    uint32_t ix = strtoul(e.first.c_str(), nullptr, 10);
    unsynced += !l.ch.empty();
    if (ix == top && !l.entry && crng->chance(10)) { how += " " + e.first + " gone"; continue; }
    size_t k = crng->chance(25) ? 0 : crng->chance(20) ? l.ch.size() : crng->below(l.ch.size() + 1);
    Bytes b = l.durable;
    for (size_t i = 0; i < k; i++) FileLog::apply(b, l.ch[i], l.ch[i].d.size());
    size_t part = 0;
    if (k < l.ch.size() && l.ch[k].d.size() && crng->chance(50)) { part = crng->below(l.ch[k].d.size()); FileLog::apply(b, l.ch[k], part); }
    char t[100];
    snprintf(t, sizeof t, " %s keeps %zu of %zu changes since its last sync%s", e.first.c_str(), k, l.ch.size(), part ? " and part of the next" : "");
    if (!l.ch.empty()) how += t;
    im[e.first] = std::move(b);
  }
  Loss z;
  z.p.dir = dir;
  z.p.img = std::move(im);
  z.p.inflight = cur->inflight;
  z.p.acked = cur->last;
  for (auto &a : acks) z.p.hist.push_back(a.v);
  z.p.what = "power lost " + what + ":" + how;
  z.p.opening = opening;
  z.least = -1;
  for (size_t i = 0; i < acks.size(); i++) if (fsync_build || acks[i].file < wr) z.least = i;
  cx.add("losses_seen");
  if (unsynced > 1) cx.add("losses_with_several_files_unsynced");
  if (z.least >= 0) cx.add("losses_with_a_finished_file");
  if (losses.size() < max_pts) losses.push_back(std::move(z));
  else losses[crng->below(losses.size())] = std::move(z);
}
static void power_hook(const ip::Op &op) {
  std::string path = op.path ? op.path : "";
  if (path.compare(0, live_dir.size() + 1, live_dir + "/")) return;
  std::string base = path.substr(live_dir.size() + 1);
  note_acks();
  if (!data_name(base)) return;
  char b[200];
  snprintf(b, sizeof b, "before %s(%s, %zu)", ip::cls_name[op.cls], base.c_str(), op.len);
  if (crng->chance(40)) lose(b);
  switch (op.cls) {
    case ip::C_OPEN: logs[base]; break;
    case ip::C_WRITE: logs[base].ch.push_back({false, op.off >= 0 ? (size_t)op.off : (size_t)-1, Bytes((const uint8_t *)op.data, (const uint8_t *)op.data + op.len)}); cx.add("writes"); break;
    case ip::C_FTRUNC: case ip::C_TRUNC: logs[base].ch.push_back({true, op.off >= 0 ? (size_t)op.off : op.len, {}}); cx.add("truncations"); break;
    case ip::C_UNLINK: logs.erase(base); break;
    default: break;
  }
  if (op.cls == ip::C_WRITE && crng->chance(20)) { snprintf(b, sizeof b, "during %s(%s, %zu)", ip::cls_name[op.cls], base.c_str(), op.len); lose(b); }
}
static void power_sync(const char *p) {
  std::string path = p ? p : "";
  if (path.compare(0, live_dir.size() + 1, live_dir + "/")) return;
  std::string base = path.substr(live_dir.size() + 1);
  note_acks();
  auto it = logs.find(base);
  if (it == logs.end()) return;
  if (crng->chance(20)) lose("before a sync of " + base);
  it->second.durable = it->second.now();
  it->second.ch.clear();
  it->second.entry = true;
  cx.add("syncs");
  if (crng->chance(30)) lose("after a sync of " + base);
}
void run_power() {
  Rng r(mix(cx.seed, mix(cx.cas, 0x90e12)));
  fsync_build = cx.opt.count("fsync");
  std::string path = cx.dir + "/db";
  ip::rm_rf(path);
  Limits l = gen_limits(r, true);
  l.max_file = r.chance(80) ? r.range(1200, 3000) : r.range(1200, 20000);
  if (r.chance(60)) l.wbuf = r.range(1, 3000);
  set_limits(l);
  logs.clear(); acks.clear(); losses.clear();
  pncommits = 0;
  crng = &r;
  live_dir = path;
  max_pts = cx.thorough ? 120 : 30;
  Sim s(r.next(), path);
  s.lim = l;
  s.no_destroy = true;
  s.fail_sync = r.chance(40);
  cur = &s;
  s.kg = KeyGen::make(r, cx.cas % NFAM, r.range(3, 40));
  s.vmode = r.below(5);
  int ops = r.range(30, cx.thorough ? 300 : 180);
  T("case %ld limits %llu/%zu/%zu/%zu ops %d", cx.cas, (unsigned long long)l.max_file, l.wbuf, l.rbuf, l.max_open, ops);
  ip::on_mut = power_hook;
  ip::on_sync = power_sync;
  s.open();
  for (int i = 0; i < ops; i++) { s.op(); note_acks(); if (r.chance(10)) lose("between calls"); }
  s.inflight = nullptr;
  s.close_all();
  lose("after the last close");
  ip::on_mut = nullptr;
  ip::on_sync = nullptr;
  cx.add("commits", s.ncommits);
  size_t top = 0;
  for (auto &e : logs) top = std::max<size_t>(top, strtoul(e.first.c_str(), nullptr, 10));
  cx.add("files", top);
  // the recorder is worth nothing unless it knows what is in the files
  for (auto &e : ip::read_dir(path)) if (data_name(e.first) && logs[e.first].now() != e.second) harness_error("recorded changes of %s do not add up to its content", e.first.c_str());
  for (auto &z : losses) {
    Point &p = z.p;
    std::string rec = cx.dir + "/rec";
    if (p.dir) ip::write_dir(rec, p.img); else ip::rm_rf(rec);
    const char *what = p.what.c_str();
    T("%s", what);
    int err;
    cx.add("power_losses");
    urkel_t *db = a_open(rec, &err);
    ORACLE(C, db != nullptr, "power-unopenable", "%s: the database does not open any more (%s)", what, ename(err));
    if (!db) throw CaseEnd();
    H32 root = a_root(db);
    urkel_close(db);
    // the same root may have been committed several times: the earliest of
    // those that may be showing bounds what has to be there
    long at = root == ZERO && z.least < 0 ? -1 : -2;
    for (long i = std::max(z.least, 0L); at == -2 && i < (long)p.hist.size(); i++) if (p.hist[i]->root == root) at = i;
    if (at == -2 && p.inflight && root == p.inflight->root) at = p.hist.size();
    for (long i = (long)p.hist.size() - 1; at == -2 && i >= 0; i--) if (p.hist[i]->root == root) at = i;
    if (at == -2 && root == ZERO) at = -1;
    ORACLE(C, at != -2, "power-root", "%s: reopened with root %s, which was never committed", what, hexs(root).c_str());
    if (at == -2) throw CaseEnd();
    ORACLE(C, at >= z.least, "power-lost", "%s: commit %ld of %zu shows (root %s); commit %ld was %s", what, at, p.hist.size(), hexs(root).c_str(), z.least, fsync_build ? "acknowledged by a build that syncs every commit" : "wholly in finished files");
    cx.add(at == (long)p.hist.size() ? "shows_inflight" : at == (long)p.hist.size() - 1 ? "shows_latest" : at == z.least ? "shows_least" : "shows_between");
    Point q = p;
    q.acked = at == (long)p.hist.size() ? p.inflight : at < 0 ? mkversion(KV()) : p.hist[at];
    q.inflight = nullptr;
    if (at < (long)q.hist.size()) q.hist.resize(at + 1);
    recover(q, rec, r, 1);
    cx.seen("cases", mix(image_hash(p.img, p.dir), at));
  }
  cx.sample("case " + std::to_string(cx.cas) + ": " + std::to_string(ops) + " ops, " + std::to_string(s.ncommits) + " commits in " + std::to_string(top) + " files, " + std::to_string(losses.size()) + " power losses, e.g. " + (losses.empty() ? "-" : losses[losses.size() / 2].p.what));
  cur = nullptr;
}
