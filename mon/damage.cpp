// Damaged files (P22): a database is built, its files are damaged in structure-aware
// ways, and everything is tried on it.  No memory error, abort or hang; failures carry
// an error code; records whose own bytes and path are intact keep their exact values.
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include "sim.h"
namespace {
struct PtrLess { bool operator()(const Ptr &a, const Ptr &b) const { return std::tie(a.index, a.pos, a.size) < std::tie(b.index, b.pos, b.size); } };
struct Pristine {
  DirImage img;
  std::vector<VerP> vs;                 // oldest first, vs[0] empty
  DiskDb disk;
  std::map<Ptr, std::pair<VerP, std::map<H32, std::vector<Range>>>, PtrLess> roots;
  std::vector<DiskDb::Rec> recs;
};
KeyGen kg;
bool known_code(int e) { return e >= 1 && e <= 13; }
void wr_ptr(uint8_t *d, uint32_t index, uint32_t pos, unsigned size) {
  unsigned i = index << 1 | ((size >> 9) & 1);
  uint32_t q = pos << 1 | ((size >> 8) & 1);
  d[0] = i; d[1] = i >> 8; d[2] = q; d[3] = q >> 8; d[4] = q >> 16; d[5] = q >> 24; d[6] = size;
}
Ptr rd_ptr(const uint8_t *d) {
  uint32_t i = d[0] | d[1] << 8, q = d[2] | d[3] << 8 | d[4] << 16 | (uint32_t)d[5] << 24;
  Ptr p;
  p.index = i >> 1; p.pos = q >> 1; p.size = d[6] | (i & 1) << 9 | (q & 1) << 8;
  return p;
}
struct Damager {
  Rng &r;
  Pristine &p;
  DirImage im;
  bool forged = false;
  std::string log;
  Damager(Rng &q, Pristine &x) : r(q), p(x), im(x.img) { im.erase("lock"); }
  void note(const char *f, ...) __attribute__((format(printf, 2, 3))) { char b[300]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); log += log.empty() ? "" : "; "; log += b; }
  std::vector<std::string> data() { std::vector<std::string> v; for (auto &e : im) if (is_datafile(e.first)) v.push_back(e.first); return v; }
  Bytes *some(std::string *name = nullptr) {
    auto v = data();
    if (v.empty()) return nullptr;
    std::string n = r.chance(60) ? v.back() : r.pick(v);
    if (name) *name = n;
    return &im[n];
  }
  uint8_t *at(const Range &g, size_t need) {
    auto it = im.find(fname(g.index));
    if (it == im.end() || it->second.size() < (size_t)g.pos + need) return nullptr;
    return it->second.data() + g.pos;
  }
  Ptr any_ptr(uint32_t selfi, uint32_t selfp, unsigned selfs) {
    Ptr q;
    const DiskDb::Rec &x = r.pick(p.recs);
    q.index = x.r.index; q.pos = x.r.pos; q.size = x.r.len;
    switch (r.below(12)) {
      case 0: q.index = selfi; q.pos = selfp; q.size = selfs; break;
      case 1: q.index = 0; break;
      case 2: q.index = r.below(0x8000); break;
      case 3: q.pos = r.next() & 0x7fffffff; break;
      case 4: q.pos = 0x7fffffff - r.below(100); break;
      case 5: q.size = r.below(1024); break;
      case 6: q.size = r.chance(50) ? 0 : 1023; break;
      case 7: { auto it = im.find(fname(q.index)); if (it != im.end()) { size_t n = it->second.size(); q.pos = n > 3 ? n - r.below(3) - 1 : 0; } break; }   // straddles the end
      case 8: q.pos += r.below(5) - 2; q.pos &= 0x7fffffff; break;
      case 9: q.index++; break;
      case 10: q.index = r.below(p.disk.last + 3); q.pos = r.below(5000); q.size = r.below(1024); break;
    }
    return q;
  }
  // one field of the pointer that is there
  Ptr bent_ptr(const uint8_t *d) {
    Ptr q = rd_ptr(d);
    switch (r.below(4)) {
      case 0: case 1: q.size = r.below(q.size + 4); break;
      case 2: q.pos += r.range(-80, 80); q.pos &= 0x7fffffff; break;
      case 3: q.index += r.range(-1, 1); q.index &= 0x7fff; break;
    }
    return q;
  }
  void meta_at(const DiskMeta &m) {
    Range g{m.index, m.pos, 38};
    uint8_t *d = at(g, 38);
    if (!d) return;
    switch (r.below(5)) {
      case 0: d[r.below(38)] ^= 1 << r.below(8); note("bit flipped in the commit record at %u:%u", m.index, m.pos); break;
      case 1: memset(d, r.chance(50) ? 0 : 0xff, 38); note("commit record at %u:%u wiped", m.index, m.pos); break;
      case 2: {   // stale copy of another commit record
        const DiskMeta &o = r.pick(p.disk.chain);
        auto it = p.img.find(fname(o.index));
        memcpy(d, it->second.data() + o.pos, 38);
        note("commit record %u:%u overwritten by the one at %u:%u", m.index, m.pos, o.index, o.pos);
        break;
      }
      default: {   // valid checksum, wild pointers
        forged = true;
        bool pr = r.chance(60);
        Ptr q = r.chance(30) ? bent_ptr(d + (pr ? 4 : 11)) : any_ptr(m.index, m.pos, 0);
        if (pr && r.chance(50)) { const DiskMeta &o = r.pick(p.disk.chain); q.index = o.index; q.pos = o.pos; if (r.chance(30)) q.pos += r.below(39); q.size = 0; }
        wr_ptr(d + (pr ? 4 : 11), q.index, q.pos, q.size);
        ref_blake2b(d + 18, 20, d, 18, p.disk.key.data(), 32);
        note("commit record at %u:%u re-signed with its %s pointer set to %u:%u+%u", m.index, m.pos, pr ? "previous-record" : "root", q.index, q.pos, q.size);
      }
    }
  }
  void node_field() {
    const DiskDb::Rec &x = r.pick(p.recs);
    uint8_t *d = at(x.r, x.r.len);
    if (!d || !x.r.len) return;
    if (x.kind == 3) { d[r.below(x.r.len)] ^= 1 << r.below(8); note("value byte at %u:%u", x.r.index, x.r.pos); return; }
    const char *what = "";
    if (x.kind == 2) {
      switch (r.below(4)) {
        case 0: d[0] = r.chance(50) ? r.next() : (uint8_t)(r.below(4) | r.below(4) << 4); what = "type"; break;
        case 1: { Ptr q = r.chance(40) ? bent_ptr(d + 1) : any_ptr(x.r.index, x.r.pos, x.r.len); wr_ptr(d + 1, q.index, q.pos, q.size); what = "value pointer"; break; }
        case 2: d[8 + r.below(32)] ^= 1 << r.below(8); what = "key"; break;
        case 3: { uint8_t nk[32]; H32 k = r.pick(kg.keys); memcpy(nk, k.data(), 32); memcpy(d + 8, nk, 32); what = "key (another's)"; break; }
      }
      note("leaf at %u:%u: %s", x.r.index, x.r.pos, what);
      return;
    }
    unsigned fl = d[0] >> 4;
    size_t o = 1;
    unsigned plen = 0;
    if (fl & 1) { plen = d[1]; o = 2 + (plen + 7) / 8; }
    switch (r.below(8)) {
      case 0: d[0] = r.chance(50) ? r.next() : (uint8_t)(r.below(4) | r.below(4) << 4); what = "type and flags"; break;
      case 7: { unsigned n = r.chance(70) ? 0x100 + r.below(0x190) : r.next() & 0xffff; d[0] = 0x31; d[1] = n; d[2] = n >> 8; what = "two-byte prefix length"; break; }
      case 1: if (fl & 1) { d[1] = r.chance(50) ? r.next() : (uint8_t)(plen + r.below(9) - 4); what = "prefix length"; } else { d[0] |= 0x10; what = "prefix flag"; } break;
      case 2: if (plen) { d[2 + r.below((plen + 7) / 8)] ^= 1 << r.below(8); what = "prefix bits"; } else { d[0] = 0x31; what = "two-byte prefix flag"; } break;
      case 3: case 4: case 5: {
        unsigned side = r.below(2);
        size_t off = o + side * 39;
        if (off + 7 > x.r.len) return;
        Ptr q = r.chance(40) ? bent_ptr(d + off) : any_ptr(x.r.index, x.r.pos, x.r.len);
        wr_ptr(d + off, q.index, q.pos, q.size);
        note("internal at %u:%u: %s pointer to %u:%u+%u", x.r.index, x.r.pos, side ? "right" : "left", q.index, q.pos, q.size);
        if (r.chance(20)) { Ptr q2 = q; wr_ptr(d + o + (1 - side) * 39, q2.index, q2.pos, q2.size); note("both"); }
        return;
      }
      case 6: { size_t off = o + 7 + r.below(2) * 39; if (off + 32 > x.r.len) return; if (r.chance(50)) d[off + r.below(32)] ^= 1 << r.below(8); else memset(d + off, 0, 32); what = "child hash"; break; }
    }
    note("internal at %u:%u: %s", x.r.index, x.r.pos, what);
  }
  void one(bool inplace) {
    std::string n;
    Bytes *b;
    switch (r.below(inplace ? 5 : 16)) {
      case 0:
        if (!(b = some(&n)) || b->empty()) return;
        for (int i = r.chance(60) ? 1 : r.range(2, 40); i > 0; i--) { size_t o = r.below(b->size()); (*b)[o] ^= 1 << r.below(8); if (i < 2) note("bit at %s:%zu", n.c_str(), o); }
        break;
      case 1: {
        if (!(b = some(&n)) || b->empty()) return;
        size_t o = r.below(b->size()), l = std::min<size_t>(b->size() - o, r.chance(50) ? r.range(1, 50) : r.range(1, 2000));
        int how = r.below(3);
        if (how == 0) memset(b->data() + o, 0, l); else if (how == 1) memset(b->data() + o, 0xff, l); else r.fill(b->data() + o, l);
        note("%s:%zu+%zu overwritten", n.c_str(), o, l);
        break;
      }
      case 2: case 3: case 4: node_field(); break;
      case 5: if (!p.disk.chain.empty()) meta_at(r.chance(60) ? p.disk.chain[0] : r.pick(p.disk.chain)); break;
      case 6: if (!p.disk.chain.empty()) meta_at(p.disk.chain[r.below(std::min<size_t>(3, p.disk.chain.size()))]); break;
      case 7: {
        if (!(b = some(&n)) || b->empty()) return;
        size_t k = r.chance(20) ? 0 : r.chance(40) ? b->size() - std::min<size_t>(b->size(), r.range(1, 80)) : r.below(b->size());
        b->resize(k);
        note("%s cut to %zu bytes", n.c_str(), k);
        break;
      }
      case 8: {
        auto v = data();
        if (r.chance(15) || v.empty()) {
          if (r.chance(40)) { im.erase("meta"); note("meta is missing"); }
          else { Bytes &m = im["meta"]; if (m.empty()) return; if (r.chance(50)) { m.resize(r.below(m.size())); note("meta cut to %zu bytes", m.size()); } else { m[r.below(m.size())] ^= 1 << r.below(8); note("bit in meta"); } }
        } else { n = r.chance(50) ? v.back() : r.pick(v); im.erase(n); note("%s is missing", n.c_str()); }
        break;
      }
      case 9: {   // misplaced block
        Bytes *c;
        std::string n2;
        if (!(b = some(&n)) || !(c = some(&n2)) || b->empty() || c->empty()) return;
        static const size_t S[] = {38, 40, 78, 128, 512, 4096, 7, 32};
        size_t l = S[r.below(8)], o = r.below(b->size()), q = r.below(c->size());
        if (r.chance(70)) { o -= o % l; q -= q % l; }
        l = std::min({l, b->size() - o, c->size() - q});
        Bytes t(b->begin() + o, b->begin() + o + l);
        std::copy(t.begin(), t.end(), c->begin() + q);
        note("%zu bytes of %s:%zu written to %s:%zu", l, n.c_str(), o, n2.c_str(), q);
        break;
      }
      case 10: {   // copy of a node over another
        const DiskDb::Rec &x = r.pick(p.recs), &y = r.pick(p.recs);
        uint8_t *d = at(y.r, y.r.len);
        auto it = p.img.find(fname(x.r.index));
        size_t l = std::min(x.r.len, y.r.len);
        if (d && it != p.img.end() && it->second.size() >= (size_t)x.r.pos + l) memcpy(d, it->second.data() + x.r.pos, l);
        note("record %u:%u over %u:%u", x.r.index, x.r.pos, y.r.index, y.r.pos);
        break;
      }
      case 11: {   // bytes inserted or removed
        if (!(b = some(&n)) || b->empty()) return;
        size_t o = r.below(b->size()), l = r.range(1, 100);
        if (r.chance(50)) { Bytes g(l); r.fill(g.data(), l); b->insert(b->begin() + o, g.begin(), g.end()); note("%zu bytes inserted at %s:%zu", l, n.c_str(), o); }
        else { l = std::min(l, b->size() - o); b->erase(b->begin() + o, b->begin() + o + l); note("%zu bytes removed at %s:%zu", l, n.c_str(), o); }
        break;
      }
      case 12: {   // something appended
        auto v = data();
        if (v.empty()) return;
        b = &im[v.back()];
        size_t was = b->size();
        if (r.chance(50)) b->resize(b->size() + r.below(5000));
        else if (r.chance(50) || p.disk.chain.empty()) { Bytes g(r.below(600)); r.fill(g.data(), g.size()); b->insert(b->end(), g.begin(), g.end()); }
        else { b->resize((b->size() + 37) / 38 * 38); const DiskMeta &o = r.pick(p.disk.chain); const Bytes &s = p.img.at(fname(o.index)); b->insert(b->end(), s.begin() + o.pos, s.begin() + o.pos + 38); }
        note("%zu bytes appended to %s", b->size() - was, v.back().c_str());
        break;
      }
      case 13: {   // another data file
        auto v = data();
        uint32_t i = v.empty() ? 1 : atoi(v.back().c_str()) + 1;
        if (r.chance(20)) i += r.range(1, 40000);
        if (r.chance(10)) i = 0;
        Bytes g(r.below(400));
        r.fill(g.data(), g.size());
        if (r.chance(30) && !v.empty()) g = im[r.pick(v)];
        im[fname(i)] = g;
        note("data file %s appeared (%zu bytes)", fname(i).c_str(), g.size());
        break;
      }
      case 14: {   // two files exchanged
        auto v = data();
        if (v.size() < 2) return;
        std::string a = r.pick(v), c = r.pick(v);
        std::swap(im[a], im[c]);
        note("%s and %s exchanged", a.c_str(), c.c_str());
        break;
      }
      case 15: {
        if (!(b = some(&n)) || b->empty()) return;
        size_t k = r.below(b->size());
        std::fill(b->begin() + k, b->end(), 0);
        note("%s zeroed from %zu", n.c_str(), k);
        break;
      }
    }
  }
};
struct Use {
  Rng &r;
  Pristine &p;
  DirImage &im;
  bool forged;
  std::string path, log;
  urkel_t *db = nullptr;
  long exact = 0, fails = 0, answers = 0;
  bool intact(const Range &g) {
    auto a = p.img.find(fname(g.index)), b = im.find(fname(g.index));
    if (a == p.img.end() || b == im.end()) return false;
    // recovery drops what follows the newest commit record
    if (g.index > tail.index || (g.index == tail.index && (uint64_t)g.pos + g.len > (uint64_t)tail.pos + 38)) return false;
    if ((size_t)g.pos + g.len > b->second.size()) return false;
    return std::equal(a->second.begin() + g.pos, a->second.begin() + g.pos + g.len, b->second.begin() + g.pos);
  }
  void code(const char *what, int ret, int err) {
    answers++;
    ORACLE(M(P22), ret == 0 || ret == 1, "return", "%s returned %d [%s]", what, ret, log.c_str());
    if (!ret) { fails++; ORACLE(M(P22), known_code(err), "no-error-code", "%s failed without an error code (%s) [%s]", what, ename(err), log.c_str()); }
  }
  // what must be exact under the newest record and under older ones
  std::vector<std::pair<VerP, std::map<H32, bool>>> must;   // [0]: default root, when def
  DiskMeta tail{};
  bool def = false, live = false;
  bool open_required = false;
  void expectations() {
    bool same_meta = im.count("meta") && im["meta"] == p.img["meta"];
    DiskDb d;
    d.load(im);   // the chain as far as it can be followed
    if (!same_meta || d.chain.empty()) return;
    tail = d.chain[0];
    if (live && (p.disk.chain.empty() || tail.index != p.disk.chain[0].index || tail.pos != p.disk.chain[0].pos)) return;
    std::set<std::string> fa, fb;
    for (auto &e : p.img) if (is_datafile(e.first)) fa.insert(e.first);
    for (auto &e : im) if (is_datafile(e.first)) fb.insert(e.first);
    if (fa != fb) { bool contig = true; uint32_t n = 0; for (auto &f : fb) if (strtoul(f.c_str(), nullptr, 10) != ++n) contig = false; if (!contig) return; }
    std::map<H32, std::vector<std::map<H32, std::vector<Range>> *>> by;
    std::set<Bytes> metas;
    std::set<std::pair<uint32_t, uint32_t>> places;
    for (auto &m : p.disk.chain) { const Bytes &b = p.img.at(fname(m.index)); metas.insert(Bytes(b.begin() + m.pos, b.begin() + m.pos + 38)); places.insert({m.index, m.pos}); }
    for (size_t i = 0; i < d.chain.size(); i++) {
      // the commit record itself: the newest may be a copy, older ones must be as they were
      const DiskMeta &m = d.chain[i];
      const Bytes &mb = im.at(fname(m.index));
      if (!metas.count(Bytes(mb.begin() + m.pos, mb.begin() + m.pos + 38))) break;
      if (i && (!places.count({m.index, m.pos}) || !intact({m.index, m.pos, 38}))) break;
      if (d.chain[i].root.index == 0) { if (i == 0) { def = true; open_required = true; must.push_back({p.vs[0], {}}); } continue; }
      auto it = p.roots.find(d.chain[i].root);
      if (it == p.roots.end()) break;   // a forged or unknown record: nothing is known beyond
      // the root record itself (and its value when it is a leaf)
      auto &paths = it->second.second;
      const std::vector<Range> &one = paths.begin()->second;
      bool rootok = intact(one[0]) && (paths.size() > 1 || std::all_of(one.begin(), one.end(), [&](const Range &g) { return intact(g); }));
      if (!rootok) break;
      std::map<H32, bool> keys;
      for (auto &k : paths) if (std::all_of(k.second.begin(), k.second.end(), [&](const Range &g) { return intact(g); })) keys[k.first] = true;
      if (i == 0) { def = true; open_required = true; }
      else {
        // addressed by hash: the newest record with that hash answers
        bool newer = false;
        for (size_t j = 0; j < must.size(); j++) if (must[j].first->root == it->second.first->root) newer = true;
        if (newer) continue;
      }
      must.push_back({it->second.first, keys});
    }
  }
  void reads(bool deep) {
    H32 h = a_root(db);
    if (def) ORACLE(M(P22), h == must[0].first->root, "root", "the newest commit record and its root are intact, but the root is %s [%s]", hexs(h).c_str(), log.c_str());
    for (size_t i = 0; i < must.size(); i++) {
      const VerP &v = must[i].first;
      bool d = i == 0 && def && r.chance(50);
      if (i > 4 && !r.chance(30)) continue;
      for (auto &k : must[i].second) {
        Res g = a_get(db, k.first, d ? nullptr : &v->root);
        ORACLE(M(P22), g.ret && g.v == v->kv.at(k.first)->v, "undamaged-record", "root %s key %s: own bytes and path are intact, but get gave %d %s (%zu bytes, committed %zu) [%s]", hexs(v->root).c_str(), hexs(k.first).c_str(), g.ret, ename(g.err), g.v.size(), v->kv.at(k.first)->v.size(), log.c_str());
        exact++;
        if (r.chance(20)) { Res q = a_prove(db, k.first, d ? nullptr : &v->root); ORACLE(M(P22), q.ret && q.v == v->prove(k.first), "undamaged-proof", "root %s key %s: own bytes and path are intact, but prove gave %d %s [%s]", hexs(v->root).c_str(), hexs(k.first).c_str(), q.ret, ename(q.err), log.c_str()); }
      }
    }
    // everything else: any answer, but an orderly one
    std::vector<const H32 *> roots = {nullptr, nullptr};
    for (int i = 0; i < (deep ? 6 : 2); i++) roots.push_back(&r.pick(p.vs)->root);
    H32 unk;
    r.fill(unk.data(), 32);
    roots.push_back(&unk);
    for (auto rt : roots) {
      for (int i = 0; i < 6; i++) {
        H32 k = r.chance(80) ? r.pick(kg.keys) : kg.absent(r);
        Res g = a_get(db, k, rt);
        code("get", g.ret, g.err);
        ORACLE(M(P22), g.v.size() <= 1023, "size", "get returned %zu bytes [%s]", g.v.size(), log.c_str());
        g = a_has(db, k, rt);
        code("has", g.ret, g.err);
        g = a_prove(db, k, rt);
        code("prove", g.ret, g.err);
        if (g.ret) { VRes v = a_verify(g.v, k, rt ? *rt : h); (void)v; }
      }
      urkel_errno = ESENT;
      urkel_iter_t *it = urkel_iterate(db, rt ? rt->data() : nullptr);
      if (!it) { code("iterate", 0, urkel_errno); continue; }
      IterRes ir = a_walk(it, 4000, r.chance(80));
      urkel_iter_destroy(it);
      if (ir.err != -1) code("iter_next", 0, ir.err);
      cx.add("iterated", ir.recs.size());
    }
  }
  void writes() {
    // model of the records that are intact under the default root
    std::map<H32, Bytes> sure;
    std::set<H32> gone;
    if (def) for (auto &k : must[0].second) sure[k.first] = must[0].first->kv.at(k.first)->v;
    for (int round = r.range(1, 3); round > 0; round--) {
      int e = 0;
      const H32 *rt = r.chance(20) ? &r.pick(p.vs)->root : nullptr;
      urkel_tx_t *tx = a_tx_create(db, rt, &e);
      if (!tx) { code("tx_create", 0, e); continue; }
      bool tracked = !rt;
      std::map<H32, Bytes> t = sure;
      for (int i = r.range(1, 14); i > 0; i--) {
        H32 k = r.chance(70) ? r.pick(kg.keys) : kg.absent(r);
        Res x;
        switch (r.below(10)) {
          case 0: case 1: case 2: case 3: {
            Bytes v = gen_value(r, r.below(5));
            x = a_tx_insert(tx, k, v);
            code("tx_insert", x.ret, x.err);
            if (t.count(k)) { ORACLE(M(P22), x.ret || !tracked, "undamaged-update", "overwriting key %s, whose bytes and path are intact, failed with %s [%s]", hexs(k).c_str(), ename(x.err), log.c_str()); t[k] = v; }
            break;
          }
          case 4: case 5: case 6: x = a_tx_remove(tx, k); code("tx_remove", x.ret, x.err); if (x.ret) t.erase(k); break;
          case 7: x = a_tx_get(tx, k); code("tx_get", x.ret, x.err); if (tracked && t.count(k)) { ORACLE(M(P22), x.ret && x.v == t[k], "undamaged-record", "transaction: key %s: bytes and path are intact, but get gave %d %s [%s]", hexs(k).c_str(), x.ret, ename(x.err), log.c_str()); exact++; } break;
          case 8: x = a_tx_prove(tx, k); code("tx_prove", x.ret, x.err); break;
          case 9: {
            if (r.chance(50)) { urkel_iter_t *it = urkel_iter_create(tx); if (it) { a_walk(it, r.below(300)); urkel_iter_destroy(it); } }
            else if (r.chance(50)) { urkel_tx_clear(tx); t = sure; tracked = true; }
            else { const H32 &q = r.pick(p.vs)->root; x = a_tx_inject(tx, q); code("tx_inject", x.ret, x.err); if (x.ret) tracked = false; }
            break;
          }
        }
      }
      a_tx_root(tx);
      if (r.chance(75)) {
        Res c = a_commit(tx);
        code("commit", c.ret, c.err);
        cx.add(c.ret ? "commits_on_damaged" : "commit_failures");
        if (c.ret) { if (!tracked) { sure.clear(); def = false; } else sure = t; }
      }
      urkel_tx_destroy(tx);
      if (r.chance(15)) { Res x = a_inject(db, r.pick(p.vs)->root); code("inject", x.ret, x.err); if (x.ret) { sure.clear(); def = false; } }
      if (r.chance(20)) { H32 k = r.pick(kg.keys); Res x = a_remove(db, k); code("remove", x.ret, x.err); if (x.ret) sure.erase(k); }
      if (r.chance(20)) { H32 k = r.pick(kg.keys); Bytes v = gen_value(r, 0); Res x = a_insert(db, k, v); code("insert", x.ret, x.err); if (x.ret && sure.count(k)) sure[k] = v; else if (!x.ret && sure.count(k)) ORACLE(M(P22), false, "undamaged-update", "one-shot overwrite of key %s, whose bytes and path are intact, failed with %s [%s]", hexs(k).c_str(), ename(x.err), log.c_str()); }
      for (auto &k : sure) { Res g = a_get(db, k.first, nullptr); ORACLE(M(P22), g.ret && g.v == k.second, "undamaged-record", "after more commits, key %s gave %d %s [%s]", hexs(k.first).c_str(), g.ret, ename(g.err), log.c_str()); exact++; }
    }
    close();
    if (r.chance(70)) {
      int e = 0;
      db = a_open(path, &e);
      if (!db) { code("reopen", 0, e); if (!sure.empty()) ORACLE(M(P22), false, "undamaged-record", "reopening after commits failed with %s [%s]", ename(e), log.c_str()); return; }
      cx.add("reopens");
      for (auto &k : sure) { Res g = a_get(db, k.first, nullptr); ORACLE(M(P22), g.ret && g.v == k.second, "undamaged-record", "after commits and a reopen, key %s gave %d %s [%s]", hexs(k.first).c_str(), g.ret, ename(g.err), log.c_str()); exact++; }
      must.clear();
      def = false;
      reads(false);
      close();
    }
  }
  void close() {
    urkel_close(db);
    db = nullptr;
    ip::Res l = ip::live();
    ORACLE(M(P14), !l.allocs && !l.fds && !l.maps && !l.dirs, "leak", "damaged files: after close, %ld allocations, %ld descriptors, %ld mappings, %ld directory handles are left: %s [%s]", l.allocs, l.fds, l.maps, l.dirs, ip::leak_report(0).c_str(), log.c_str());
  }
};
}
void run_damage() {
  Rng r(mix(cx.seed, mix(cx.cas, 0xda4a)));
  std::string path = cx.dir + "/db";
  ip::rm_rf(path);
  Limits l = real_limits;
  if (r.chance(85)) { l.max_file = 1100 + r.below(r.chance(50) ? 1500 : 8000); l.max_open = r.range(1, 5); if (r.chance(50)) l.rbuf = r.range(76, 600); if (r.chance(30)) l.wbuf = r.below(1000); }
  set_limits(l);
  Pristine p;
  kg = KeyGen::make(r, cx.cas % NFAM, r.range(1, 40));
  int e = 0;
  urkel_t *db = a_open(path, &e);
  if (!db) harness_error("open");
  KV kv;
  p.vs.push_back(mkversion(kv));
  for (int c = r.range(1, 7); c > 0; c--) {
    urkel_tx_t *tx = a_tx_create(db, nullptr);
    for (int i = r.range(c > 1, 14); i > 0; i--) {
      H32 k = r.pick(kg.keys);
      if (r.chance(15)) { a_tx_remove(tx, k); kv.erase(k); }
      else { Bytes v = gen_value(r, r.below(5)); if (!a_tx_insert(tx, k, v).ret) harness_error("insert"); kv[k] = mkval(k, v); }
    }
    if (!a_commit(tx).ret) harness_error("commit");
    urkel_tx_destroy(tx);
    p.vs.push_back(mkversion(kv));
  }
  urkel_close(db);
  p.img = ip::read_dir(path);
  if (!p.disk.load(p.img)) harness_error("pristine: %s", p.disk.err.c_str());
  for (auto &m : p.disk.chain) {
    if (!m.root.index || p.roots.count(m.root)) continue;
    KV out;
    H32 h;
    std::map<H32, std::vector<Range>> paths;
    if (!p.disk.decode(m.root, out, h, &paths)) harness_error("pristine: %s", p.disk.err.c_str());
    VerP v;
    for (auto &x : p.vs) if (x->root == h) v = x;
    if (!v) harness_error("pristine: unknown root");
    p.roots[m.root] = {v, paths};
  }
  p.recs = p.disk.recs;
  if (p.recs.empty()) p.recs.push_back({{1, 0, 1}, 3});
  Damager d(r, p);
  int rounds = r.chance(60) ? 1 : r.range(2, 6);
  bool live = r.chance(20);   // bytes change under an open handle
  for (int i = 0; i < rounds; i++) d.one(live);
  if (d.im == p.img) d.log += " (no change)";
  std::string dlog = d.log.substr(0, 400);
  urkel_t *early = nullptr;
  if (live) {
    early = a_open(path, &e);
    ORACLE(M(P22), early != nullptr, "open", "open of an intact database failed with %s", ename(e));
    if (r.chance(50)) { urkel_iter_t *it = urkel_iterate(early, nullptr); if (it) { a_walk(it, r.below(40)); urkel_iter_destroy(it); } }
    for (auto &f : d.im) {
      if (!is_datafile(f.first) || f.second == p.img[f.first]) continue;
      if (f.second.size() != p.img[f.first].size()) harness_error("size changed");
      int fd = ::open((path + "/" + f.first).c_str(), O_WRONLY | O_CLOEXEC);
      if (fd < 0 || ::pwrite(fd, f.second.data(), f.second.size(), 0) != (ssize_t)f.second.size()) harness_error("pwrite");
      ::close(fd);
    }
    cx.add("damaged_while_open");
  } else ip::write_dir(path, d.im);
  cx.add("damages", rounds);
  T("damage: %s", d.log.c_str());
  Use u{r, p, d.im, d.forged, path, dlog};
  u.live = live;
  u.expectations();
  db = early ? early : a_open(path, &e);
  u.db = db;
  if (!db) {
    cx.add("open_refused");
    ORACLE(M(P22), e == URKEL_EBADOPEN, "no-error-code", "open failed with %s [%s]", ename(e), dlog.c_str());
    ORACLE(M(P22), !u.open_required, "undamaged-record", "the metadata file, the newest commit record and its root are intact, but open failed [%s]", dlog.c_str());
    ip::Res lv = ip::live();
    ORACLE(M(P14), !lv.allocs && !lv.fds && !lv.maps && !lv.dirs, "leak", "failed open: %ld allocations, %ld descriptors, %ld mappings, %ld directory handles are left [%s]", lv.allocs, lv.fds, lv.maps, lv.dirs, dlog.c_str());
    if (r.chance(50)) { Res x = a_open(path) ? Res() : a_destroy(path); (void)x; }
  } else {
    cx.add("opened");
    u.reads(true);
    u.writes();
    if (u.db) u.close();
    if (r.chance(20)) { Res x = a_destroy(path); u.code("destroy", x.ret, x.err); }
  }
  cx.add("exact_records", u.exact);
  cx.add("orderly_failures", u.fails);
  cx.add("calls_on_damaged", u.answers);
  H32 dh = ref_hash(d.log.data(), d.log.size());
  cx.seen("cases", mix(*(const uint64_t *)dh.data(), u.fails));
  cx.sample("case " + std::to_string(cx.cas) + (live ? ": while open: " : ": ") + dlog.substr(0, 200) + (u.def ? "" : ", newest commit lost") + ", " + std::to_string(u.exact) + " intact records read, " + std::to_string(u.fails) + " orderly failures");
}
