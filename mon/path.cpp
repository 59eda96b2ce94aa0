#include <utility>
// Effects of the library on the file system (P16): every mutating system call is
// recorded, and a snapshot of everything around the database is compared.
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "sim.h"
namespace {
typedef std::map<std::string, std::string> Snap;   // path -> description
void snap_rec(const std::string &p, const std::string &rel, const std::string &skip, Snap &s) {
  struct stat st;
  if (lstat(p.c_str(), &st)) return;
  char b[200];
  snprintf(b, sizeof b, "mode %o uid %d ino %lu size %lld mtime %lld.%09ld", st.st_mode, st.st_uid, (unsigned long)st.st_ino, S_ISDIR(st.st_mode) ? 0ll : (long long)st.st_size, S_ISDIR(st.st_mode) ? 0ll : (long long)st.st_mtim.tv_sec, S_ISDIR(st.st_mode) ? 0 : st.st_mtim.tv_nsec);
  std::string d = b;
  if (S_ISREG(st.st_mode)) { Bytes c; ip::read_file(p, c); H32 h = ref_hash(c.data(), c.size()); d += " " + hexs(h); }
  if (S_ISLNK(st.st_mode)) { char t[PATH_MAX]; ssize_t n = readlink(p.c_str(), t, sizeof t); if (n > 0) d += " -> " + std::string(t, n); }
  s[rel] = d;
  if (S_ISDIR(st.st_mode)) for (auto &n : ip::list_dir(p)) if (p + "/" + n != skip) snap_rec(p + "/" + n, rel + "/" + n, skip, s);
}
std::string diff(const Snap &a, const Snap &b) {
  for (auto &e : a) { auto it = b.find(e.first); if (it == b.end()) return e.first + " is gone"; if (it->second != e.second) return e.first + " changed: " + e.second + " / " + it->second; }
  for (auto &e : b) if (!a.count(e.first)) return e.first + " appeared";
  return "";
}
std::string canon(const std::string &p) {   // real directory + last component; missing directories stay as named
  size_t k = p.rfind('/');
  if (k == std::string::npos) return p;
  std::string d = k ? p.substr(0, k) : "/";
  char b[PATH_MAX];
  std::string r;
  if (realpath(d.c_str(), b)) r = b;
  else if (d != "/") r = canon(d);
  return (r == "/" ? "" : r) + "/" + p.substr(k + 1);
}
std::string lexical(const std::string &cwd, const std::string &p) {
  std::string a = !p.empty() && p[0] == '/' ? p : cwd + "/" + p;
  std::vector<std::string> v;
  for (size_t i = 0; i <= a.size();) {
    size_t j = a.find('/', i);
    if (j == std::string::npos) j = a.size();
    std::string c = a.substr(i, j - i);
    i = j + 1;
    if (c.empty() || c == ".") continue;
    if (c == "..") { if (!v.empty()) v.pop_back(); continue; }
    v.push_back(c);
  }
  std::string o;
  for (auto &c : v) o += "/" + c;
  return o.empty() ? "/" : o;
}
std::string show(const std::string &s) { std::string o; for (unsigned char c : s) { char b[8]; if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; } return o.size() > 160 ? o.substr(0, 60) + "..." + o.substr(o.size() - 60) + " (" + std::to_string(o.size()) + " bytes)" : o; }
bool own_name(const std::string &n) { return n == "meta" || n == "lock" || (is_datafile(n) && strtoull(n.c_str(), nullptr, 10) <= 0xffffffffu); }

struct World {
  Rng &r;
  std::string base, D;       // D: the database's real directory (canonical)
  KV kv;
  urkel_t *db = nullptr;
  KeyGen kg;
  explicit World(Rng &q) : r(q) { kg = KeyGen::make(r, r.below(NFAM), 12); }
  void effects(const char *what, bool none = false) {
    for (auto &e : ip::take_escapes()) ORACLE(M(P16), false, "escape", "%s: a call outside the scratch directory was attempted: %s", what, show(e).c_str());
    for (auto &e : ip::take_effects()) {
      cx.add("effects_checked");
      size_t k = e.find(' ');
      std::string verb = e.substr(0, k), p = canon(e.substr(k + 1));
      bool ok = false;
      if (!none) {
        if (p == D) ok = verb == "mkdir" || verb == "rmdir";
        size_t s = p.rfind('/');
        if (p.substr(0, s) == D && own_name(p.substr(s + 1))) ok = verb != "mkdir" && verb != "rmdir" && verb != "chmod";
      }
      ORACLE(M(P16), ok, "foreign-effect", "%s: %s of %s, which is not the database's own (database directory %s)", what, verb.c_str(), show(p).c_str(), show(D).c_str());
    }
  }
  std::set<std::string> before;   // what was in the directory, and whether there was one
  // What the library creates is for its owner to use, for the group at most to read, and not for others.
  void modes(const char *what) {
    struct stat st;
    auto judge = [&](const std::string &n, const std::string &p, unsigned most, unsigned least) {
      if (before.count(n) || lstat(p.c_str(), &st)) return;
      unsigned m = st.st_mode & 07777;
      ORACLE(M(P16), !(m & ~most), "too-open", "%s: %s was created with mode %04o", what, show(p).c_str(), m);
      ORACLE(M(P16), (m & least) == least, "unusable", "%s: %s was created with mode %04o, which its owner cannot use", what, show(p).c_str(), m);
      cx.add("modes_checked");
    };
    judge("", D, 0750, 0700);
    for (auto &n : ip::list_dir(D)) if (own_name(n)) judge(n, D + "/" + n, 0640, 0600);
  }
  // Programs this process executes do not inherit the database's files.
  void inherited(const char *what) {
    DIR *d = opendir("/proc/self/fd");
    if (!d) return;
    char l[4200];
    while (struct dirent *e = readdir(d)) {
      int fd = atoi(e->d_name);
      if (e->d_name[0] == '.' || fd == dirfd(d)) continue;
      ssize_t n = readlinkat(dirfd(d), e->d_name, l, sizeof l - 1);
      if (n <= 0) continue;
      l[n] = 0;
      if (strncmp(l, D.c_str(), D.size()) || (l[D.size()] && l[D.size()] != '/')) continue;
      cx.add("descriptors_checked");
      ORACLE(M(P16), fcntl(fd, F_GETFD) & FD_CLOEXEC, "inherited", "%s: descriptor %d (%s) would be inherited by an executed program", what, fd, show(l).c_str());
    }
    closedir(d);
  }
  void open(const std::string &spell, const char *what) {
    int e = 0;
    before.clear();
    if (ip::exists(D)) { before.insert(""); for (auto &n : ip::list_dir(D)) before.insert(n); }
    mode_t um = umask(0);
    db = a_open(spell, &e);
    umask(um);
    effects(what);
    if (db) modes(what);
    ORACLE(M(P16), db != nullptr, "open", "%s: opening %s failed with %s", what, show(spell).c_str(), ename(e));
    check(what);
    inherited(what);
  }
  void check(const char *what) {
    urkel_iter_t *it = urkel_iterate(db, nullptr);
    ORACLE(M(P16), it != nullptr, "contents", "%s: iterate failed", what);
    IterRes ir = a_walk(it);
    urkel_iter_destroy(it);
    ORACLE(M(P16), same(kv, ir), "contents", "%s: %s", what, kvdiff(kv, ir).c_str());
    struct stat st;
    ORACLE(M(P16), lstat((D + "/meta").c_str(), &st) == 0, "elsewhere", "%s: the database is not in %s", what, show(D).c_str());
  }
  void use(int n) {
    mode_t um = umask(0);
    for (int i = 0; i < n; i++) {
      urkel_tx_t *tx = a_tx_create(db, nullptr);
      for (int j = r.below(4); j >= 0; j--) {
        H32 k = r.pick(kg.keys);
        Bytes v = gen_value(r, r.below(5));
        Res ed = a_tx_insert(tx, k, v);
        ORACLE(M(P16), ed.ret, "use", "insert failed");
        kv[k] = mkval(k, v);
      }
      Res c = a_commit(tx);
      ORACLE(M(P16), c.ret, "use", "commit failed with %s", ename(c.err));
      urkel_tx_destroy(tx);
    }
    umask(um);
    effects("commit");
    modes("commit");
    check("after commits");
    inherited("after commits");
    effects("reading", true);
  }
  void close() { urkel_close(db); db = nullptr; effects("close"); }
  void destroy(const std::string &spell, const char *what, bool foreign) {
    Res x = a_destroy(spell);
    effects(what);
    for (auto &n : ip::list_dir(D)) ORACLE(M(P16), !own_name(n), "destroy-left", "%s: %s is still there after destroying %s", what, n.c_str(), show(spell).c_str());
    if (!foreign) {
      ORACLE(M(P16), x.ret, "destroy", "%s: destroying %s failed with %s", what, show(spell).c_str(), ename(x.err));
      ORACLE(M(P16), !ip::exists(D), "destroy-left", "%s: the directory is still there", what);
    }
    kv.clear();
  }
};
std::string rnd_name(Rng &r) {
  static const char *N[] = {"db", "a b", "x%sy%n", "\xc3\xa9\xff", ".hidden", "...", "..a", "a..", "meta", "lock", "0000000001", "-rf", "a\nb", "~", "*", "db.", "'q'", "\\", "$HOME"};
  if (r.chance(70)) return N[r.below(19)];
  return std::string(r.range(1, 30), 'k');
}
// another spelling of base/rel as seen from cwd == base (or absolute)
std::string respell(Rng &r, const std::string &base, const std::vector<std::string> &comps) {
  bool abs = r.chance(50);
  std::string s = abs ? base : "";
  if (abs && r.chance(30)) s = "/" + s;
  if (abs && r.chance(30)) {   // above the root there is only the root
    static const char *UP[] = {"/..", "/../..", "/.", "//..//.", "/nosuch/../..", "/../../../.", "/..//.."};
    s = UP[r.below(7)] + s;
  }
  bool first = !abs;
  auto add = [&](const std::string &c) { if (!first) s += r.chance(15) ? "///" : "/"; s += c; first = false; };
  for (auto &c : comps) {
    if (r.chance(25)) add(".");
    if (r.chance(25)) { add(r.chance(50) ? "nosuch" : c); add(".."); }
    add(c);
  }
  if (r.chance(20)) add(".");
  if (r.chance(20)) { add("zz"); add(".."); }
  if (r.chance(25)) s += r.chance(50) ? "/" : "//";
  return s;
}
void as_nobody(const std::function<int()> &f, int &rc) {
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) harness_error("fork");
  if (!p) {
    if (setgid(65534) || setuid(65534)) _exit(90);
    _exit(f());
  }
  int st;
  waitpid(p, &st, 0);
  if (!WIFEXITED(st)) { fprintf(stderr, "child killed by signal\n"); _exit(77); }
  rc = WEXITSTATUS(st);
}
}
void run_path() {
  Rng r(mix(cx.seed, mix(cx.cas, 0x9a78)));
  char rb[PATH_MAX];
  if (!realpath(cx.dir.c_str(), rb)) harness_error("realpath");
  World w(r);
  w.base = std::string(rb) + "/p";
  if (chdir(rb)) harness_error("chdir");
  ip::rm_rf(w.base);
  ip::mkdir_p(w.base);
  Limits l = real_limits;
  if (r.chance(80)) { l.max_file = 1100 + r.below(1500); l.max_open = r.range(1, 4); if (r.chance(50)) l.wbuf = r.range(1, 2000); }
  set_limits(l);
  ip::log_effects = true;
  ip::take_effects();
  ip::old_kernel = r.chance(8);
  ip::n_old_kernel = 0;
  int kind = cx.cas % 6;
  // things around the database which must not change
  auto surroundings = [&](const std::string &d) {
    std::string one = "x";
    ip::write_file(d + "/0000000001", "foreign", 7);
    ip::write_file(d + "/meta", "0123456789abcdef0123456789abcdef", 32);
    ip::write_file(d + "/lock", "", 0);
    ip::write_file(d + "/notes", "hello", 5);
  };
  std::string note;
  switch (kind) {
    case 0: {   // spellings of the path
      std::vector<std::string> comps;
      int n = r.range(1, 3);
      std::string d = w.base;
      for (int i = 0; i < n; i++) { comps.push_back(rnd_name(r)); if (i + 1 < n) { d += "/" + comps.back(); ip::mkdir_p(d); } }
      if (n > 1) surroundings(w.base);
      if (r.chance(30) && n > 1) {   // through a symbolic link to the parent
        std::string tgt = w.base + "/target";
        if (tgt != w.base + "/" + comps[0] && !ip::exists(tgt)) { ip::mkdir_p(tgt); std::string ln = w.base + "/ln"; if (!ip::exists(ln) && !symlink("target", ln.c_str())) { comps = {"ln", comps.back()}; d = tgt; } }
      }
      w.D = canon(w.base + [&] { std::string s; for (auto &c : comps) s += "/" + c; return s; }());
      Snap s0, s1;
      snap_rec(w.base, "", w.D, s0);
      int k = r.range(2, 5);
      for (int i = 0; i < k; i++) {
        if (chdir(w.base.c_str())) harness_error("chdir");
        std::string sp = respell(r, w.base, comps);
        std::string lx = canon(lexical(w.base, sp));
        if (lx != w.D) harness_error("respell %s -> %s not %s", sp.c_str(), lx.c_str(), w.D.c_str());
        note += " " + show(sp);
        w.open(sp, "open by another spelling");
        if (r.chance(40) && chdir(rb)) harness_error("chdir");   // a relative path must not follow the working directory
        w.use(r.range(1, 6));
        w.close();
        cx.add("spellings");
        snap_rec(w.base, "", w.D, s1);
        std::string df = diff(s0, s1);
        ORACLE(M(P16), df.empty(), "surroundings", "opened as %s: outside the database, %s", show(sp).c_str(), show(df).c_str());
        s1.clear();
      }
      if (chdir(w.base.c_str())) harness_error("chdir");
      w.destroy(respell(r, w.base, comps), "destroy by another spelling", false);
      snap_rec(w.base, "", w.D, s1);
      std::string df = diff(s0, s1);
      ORACLE(M(P16), df.empty(), "surroundings", "after destroy: outside the database, %s", show(df).c_str());
      w.open(respell(r, w.base, comps), "open after destroy");
      w.use(1);
      w.close();
      break;
    }
    case 1: {   // foreign entries inside the directory
      w.D = w.base + "/db";
      surroundings(w.base);
      bool before = r.chance(50);
      if (!before) { w.open(w.D, "open"); w.use(r.range(1, 8)); if (r.chance(50)) w.close(); }
      ip::mkdir_p(w.D);
      static const char *F[] = {"notes", "meta.bak", "metadata", "met", "META", "lock.1", "loc", "locks", "000000001", "00000000001", "000000000a", "0000000001.bak", "+000000001", " 000000001", "-000000001", "0x00000001", "9999999999", "4294967296", "..0", ".meta", ".lock", "1", "0", "0000000001~", "0000000001 ", "meta\n", "a", "zzz", "0000000\xb1" "01", "tmp"};
      std::set<std::string> put;
      for (int i = r.range(1, 12); i > 0; i--) put.insert(F[r.below(30)]);
      for (auto &n : put) {
        Bytes c(r.below(300));
        r.fill(c.data(), c.size());
        ip::write_file(w.D + "/" + n, c.data(), c.size());
        if (r.chance(20)) chmod((w.D + "/" + n).c_str(), 0400);
      }
      if (r.chance(40)) { ip::mkdir_p(w.D + "/sub"); surroundings(w.D + "/sub"); }
      if (r.chance(30) && symlink("../0000000001", (w.D + "/sym").c_str())) harness_error("symlink");
      auto foreign = [&](Snap &s) { Snap t; snap_rec(w.base, "", "", t); for (auto &e : t) { std::string n = e.first.rfind("/db/", 0) == 0 ? e.first.substr(4) : ""; if (e.first == "/db" || (!n.empty() && own_name(n))) continue; s[e.first] = e.second; } };
      Snap s0;
      foreign(s0);
      auto cmp = [&](const char *what) { Snap s1; foreign(s1); std::string df = diff(s0, s1); ORACLE(M(P16), df.empty(), "foreign-touched", "%s: %s", what, show(df).c_str()); cx.add("foreign_checks"); };
      for (int i = r.range(1, 4); i > 0; i--) {
        if (!w.db) { w.open(w.D, "open among foreign files"); cmp("open"); }
        w.use(r.range(1, 8));
        cmp("commit");
        w.close();
        cmp("close");
      }
      int e = 0;
      if (r.chance(30)) { urkel__corrupt(w.D.c_str()); w.effects("urkel__corrupt"); cmp("urkel__corrupt"); }
      (void)e;
      w.destroy(w.D, "destroy among foreign files", true);
      cmp("destroy");
      w.open(w.D, "open after destroy");
      cmp("open after destroy");
      w.use(3);
      w.close();
      cmp("use after destroy");
      note = std::to_string(put.size()) + " foreign files";
      break;
    }
    case 2: {   // lengths
      size_t L = r.chance(70) ? r.range(1005, 1030) : r.chance(50) ? r.range(900, 1005) : r.range(1030, 9000);
      std::string d = w.base;
      bool rel = r.chance(40);
      while (d.size() + 1 + 200 + 2 < L && d.size() < 3400) { d += "/" + std::string(200, 'd'); ip::mkdir_p(d); }
      size_t left = L > d.size() + 1 ? L - d.size() - 1 : 1;
      std::string parent = d;
      if (left > 255) { d += "/" + std::string(left - (left > 300 ? 0 : 100), 'e'); }   // component too long for the file system
      else d += "/" + std::string(left, 'f');
      bool possible = left <= 255 && d.size() < 4000;
      if (r.chance(30)) {   // a long way to say where, relative to the working directory
        if (chdir(w.base.c_str())) harness_error("chdir");
        size_t n = r.chance(70) ? 8192 - w.base.size() - 6 + r.below(12) : r.range(4000, 20000);
        std::string lp = "./";
        while (lp.size() + 2 <= n) lp += "./";
        lp += n & 1 ? "l" : "lo";
        int le = 0;
        w.D = w.base + "/" + lp.substr(lp.rfind('/') + 1);
        urkel_t *ld = a_open(lp, &le);
        w.effects("open by a long relative path");
        if (ld) { urkel_close(ld); Res x = a_destroy(lp); ORACLE(M(P16), x.ret == 1, "long-relative", "opened by a relative path of %zu bytes but not destroyed by it: %s", lp.size(), ename(x.err)); cx.add("long_relative_used"); }
        else { ORACLE(M(P16), le == URKEL_EBADOPEN, "long-relative", "opening a relative path of %zu bytes failed with %s", lp.size(), ename(le)); cx.add("long_relative_refused"); }
        w.effects("destroy by a long relative path");
        ORACLE(M(P16), !ip::exists(w.D), "long-relative", "a relative path of %zu bytes left something behind", lp.size());
        if (chdir(rb)) harness_error("chdir");
      }
      w.D = canon(d);
      Snap s0, s1;
      snap_rec(w.base, "", w.D, s0);
      std::string sp = d;
      if (rel) { if (chdir(parent.c_str())) harness_error("chdir %zu", parent.size()); sp = d.substr(parent.size() + 1); }
      if (r.chance(20)) sp += "/";
      int e = 0;
      urkel_t *db = a_open(sp, &e);
      bool fits = d.size() + 11 <= 1024;
      w.effects("open at a long path");
      cx.seen("lengths", mix(d.size(), 1));
      if (possible && d.size() <= 1000) ORACLE(M(P16), db != nullptr, "long-path", "opening a path of %zu bytes failed with %s", d.size(), ename(e));
      if (!db) {
        ORACLE(M(P16), e == URKEL_EBADOPEN, "long-path", "opening a path of %zu bytes failed with %s", d.size(), ename(e));
        Res x = a_destroy(sp);
        ORACLE(M(P16), !x.ret && x.err == URKEL_EBADOPEN, "long-path", "destroying a path of %zu bytes gave %d %s", d.size(), x.ret, ename(x.err));
        snap_rec(w.base, "", "", s1);
        std::string df = diff(s0, s1);
        ORACLE(M(P16), df.empty(), "refused-but-changed", "a refused path of %zu bytes: %s", d.size(), show(df).c_str());
        cx.add("refused");
      } else {
        (void)fits;
        w.db = db;
        w.check("open at a long path");
        w.use(r.range(2, 8));
        w.close();
        w.open(sp, "reopen at a long path");
        w.use(2);
        w.close();
        snap_rec(w.base, "", w.D, s1);
        std::string df = diff(s0, s1);
        ORACLE(M(P16), df.empty(), "surroundings", "path of %zu bytes: outside the database, %s", d.size(), show(df).c_str());
        if (r.chance(50)) { urkel__corrupt(sp.c_str()); w.effects("urkel__corrupt at a long path"); }
        w.destroy(sp, "destroy at a long path", false);
        cx.add("long_used");
      }
      note = std::to_string(d.size()) + " bytes" + (db ? "" : ", refused");
      break;
    }
    case 3: {   // unusable paths
      surroundings(w.base);
      int sub = r.below(14);
      std::string p = w.base + "/db";
      bool may_make_dir = false;
      int unpriv = -1;
      switch (sub) {
        case 0: p = w.base + "/nosuch/db"; break;
        case 1: p = w.base + "/notes/db"; break;
        case 2: p = w.base + "/notes"; break;
        case 3: p = w.base + "/" + std::string(256, 'n'); break;
        case 4: if (symlink("nowhere/at/all", p.c_str())) harness_error("symlink"); break;
        case 5: if (symlink("db", p.c_str())) harness_error("symlink"); break;
        case 6: ip::mkdir_p(p + "/meta"); may_make_dir = true; break;
        case 7: ip::mkdir_p(p + "/lock"); break;
        case 8: ip::mkdir_p(p); if (mkfifo((p + "/0000000001").c_str(), 0600)) harness_error("mkfifo"); ip::write_file(p + "/meta", "0123456789abcdef0123456789abcdef", 32); may_make_dir = true; sub = 0; p = w.base + "/nosuch/x/y"; break;
        case 9: unpriv = 0; chmod(w.base.c_str(), 0555); break;                                 // parent not writable
        case 10: unpriv = 1; ip::mkdir_p(p); chmod(p.c_str(), 0555); break;                      // directory not writable
        case 11: unpriv = 2; w.D = p; w.open(p, "open"); w.use(3); w.close(); chmod(p.c_str(), 0755); break;  // someone else's database
        case 12: unpriv = 3; ip::mkdir_p(p); chmod(p.c_str(), 0); break;
        case 13: {   // working directory deleted
          ip::mkdir_p(w.base + "/gone");
          if (chdir((w.base + "/gone").c_str())) harness_error("chdir");
          if (rmdir((w.base + "/gone").c_str())) harness_error("rmdir");
          p = "db";
          break;
        }
      }
      w.D = canon(p);
      Snap s0, s1;
      snap_rec(w.base, "", "", s0);
      auto attempt = [&]() -> int {
        int e = 0;
        urkel_t *db = a_open(p, &e);
        if (db) { urkel_close(db); return 1; }
        if (e != URKEL_EBADOPEN) return 2;
        Res x = a_destroy(p);
        if (x.ret) return 3;
        if (x.err != URKEL_EBADOPEN) return 4;
        return 0;
      };
      int rc;
      if (unpriv >= 0) { chmod(w.base.c_str(), unpriv == 0 ? 0555 : 0755); s0.clear(); snap_rec(w.base, "", "", s0); as_nobody(attempt, rc); ip::take_effects(); if (rc == 90) { cx.add("skipped_unprivileged"); rc = 0; } else cx.add("unprivileged"); }
      else if (sub == 6) { int e; urkel_t *db = a_open(p, &e); rc = db ? 1 : e != URKEL_EBADOPEN ? 2 : 0; if (db) urkel_close(db); }
      else rc = attempt();
      w.effects("unusable path");
      static const char *R[] = {"", "open succeeded", "open failed with another error than EBADOPEN", "destroy succeeded", "destroy failed with another error than EBADOPEN"};
      ORACLE(M(P16), rc < 5, "unusable", "kind %d: child failed (%d)", sub, rc);
      ORACLE(M(P16), rc == 0, "unusable", "unusable path, kind %d: %s", sub, R[rc]);
      snap_rec(w.base, "", "", s1);
      // a lock file in the directory is the library's own
      s0.erase("/db/lock");
      s1.erase("/db/lock");
      std::string df = sub == 7 ? "" : diff(s0, s1);
      (void)may_make_dir;
      ORACLE(M(P16), df.empty(), "refused-but-changed", "unusable path, kind %d: %s", sub, show(df).c_str());
      chmod(w.base.c_str(), 0755);
      if (chdir(rb)) harness_error("chdir");
      if (sub == 13) { w.D = w.base + "/abs"; w.open(w.D, "absolute path without a working directory"); w.use(2); w.close(); }
      cx.add("refused");
      note = "unusable path of kind " + std::to_string(sub);
      break;
    }
    case 4: {   // destroy
      w.D = w.base + "/db";
      surroundings(w.base);
      Snap s0, s1;
      snap_rec(w.base, "", w.D, s0);
      Res x = a_destroy(w.D);
      ORACLE(M(P16), !x.ret && x.err == URKEL_EBADOPEN, "destroy", "destroying a database that does not exist gave %d %s", x.ret, ename(x.err));
      w.effects("destroy of nothing", true);
      int rounds = r.range(1, 4);
      for (int i = 0; i < rounds; i++) {
        w.open(w.D, "open");
        H32 root0 = a_root(w.db);
        ORACLE(M(P16), root0 == ZERO, "not-empty", "after destroy, open found root %s", hexs(root0).c_str());
        w.use(r.range(1, 20));
        if (r.chance(40)) {   // in use: refused for another process
          fflush(nullptr);
          pid_t p = fork();
          if (!p) {
            Res y = a_destroy(w.D);
            int e = 0;
            urkel_t *d2 = a_open(w.D, &e);
            _exit(y.ret ? 1 : y.err != URKEL_EBADOPEN ? 2 : d2 ? 3 : e != URKEL_EBADOPEN ? 4 : 0);
          }
          int st;
          waitpid(p, &st, 0);
          ORACLE(M(P16), WIFEXITED(st) && WEXITSTATUS(st) == 0, "in-use", "destroy or open by another process while in use: outcome %d", st);
          w.check("after another process tried to destroy");
          w.use(1);
          cx.add("in_use_refusals");
        }
        w.close();
        if (r.chance(30)) { ip::write_file(w.D + "/lock", "", 0); }   // stale lock file of a dead process
        w.destroy(w.D, "destroy", false);
        snap_rec(w.base, "", w.D, s1);
        std::string df = diff(s0, s1);
        ORACLE(M(P16), df.empty(), "surroundings", "after destroy: outside the database, %s", show(df).c_str());
        s1.clear();
        cx.add("destroys");
      }
      note = std::to_string(rounds) + " rounds";
      break;
    }
    case 5: {   // the current directory as database, empty path, relative path and a wandering working directory
      int sub = r.below(4);
      w.D = w.base + "/cwd";
      ip::mkdir_p(w.D);
      ip::mkdir_p(w.base + "/other");
      surroundings(w.base);
      Snap s0, s1;
      snap_rec(w.base, "", w.D, s0);
      if (chdir(w.D.c_str())) harness_error("chdir");
      std::string sp = sub == 0 ? "." : sub == 1 ? "" : sub == 2 ? "../cwd" : "./";
      w.open(sp, "open of the working directory");
      if (chdir((w.base + "/other").c_str())) harness_error("chdir");
      w.use(r.range(3, 20));
      w.close();
      ORACLE(M(P16), ip::list_dir(w.base + "/other").empty(), "elsewhere", "files appeared in the working directory of the moment");
      if (chdir(w.D.c_str())) harness_error("chdir");
      w.open(sp, "reopen of the working directory");
      w.use(2);
      w.close();
      snap_rec(w.base, "", w.D, s1);
      std::string df = diff(s0, s1);
      ORACLE(M(P16), df.empty(), "surroundings", "outside the database, %s", show(df).c_str());
      if (chdir(w.base.c_str())) harness_error("chdir");
      w.destroy(r.chance(50) ? "cwd" : "other/../cwd/", "destroy", false);
      note = "working directory as '" + sp + "'";
      break;
    }
  }
  if (chdir(rb)) harness_error("chdir");
  ip::log_effects = false;
  ip::old_kernel = false;
  ip::Res lv = ip::live();
  ORACLE(M(P14), !lv.allocs && !lv.fds && !lv.dirs && !lv.maps, "leak", "%s: %ld allocations, %ld descriptors, %ld directories, %ld mappings left: %s", note.substr(0, 100).c_str(), lv.allocs, lv.fds, lv.dirs, lv.maps, ip::leak_report(0).c_str());
  cx.add("leak_checks");
  cx.add("opens_without_o_cloexec", std::exchange(ip::n_old_kernel, 0));
  cx.seen("cases", mix(kind, ref_hash(note.data(), note.size())[0] | (uint64_t)ref_hash(note.data(), note.size())[1] << 8 | (uint64_t)ref_hash(note.data(), note.size())[2] << 16));
  static const char *KN[] = {"spellings", "foreign entries", "long path", "unusable path", "destroy", "working directory"};
  cx.sample("case " + std::to_string(cx.cas) + ": " + KN[kind] + ": " + note.substr(0, 200));
}
