// Proofs: generation (P03), forgery attempts (P04), hostile bytes (P05).
#include "sim.h"
#include <algorithm>

static const Mask A3 = M(P03), A4 = M(P04), A5 = M(P05);

struct World {
  VerP v;
  std::vector<H32> keys;    // present
  std::vector<Bytes> pool;  // honest proofs of this and other versions
  std::vector<H32> pkey;    // their keys
};
static std::map<H32, VerP> roots;  // root -> version, for the truth

static long nverify;
// Verify one byte string and judge it.
static void judge(const Bytes &pf, const H32 &key, const H32 &root, const char *how) {
  bool ex = false;
  Bytes val;
  ip::Res before = ip::live();
  VRes g = a_verify(pf, key, root);
  ip::Res after = ip::live();
  nverify++;
  cx.add("verifications");
  cx.add((std::string("attack_") + how).c_str());
  if (g.ret) cx.add("verified_true");
  if (cx.trace) T("verify (%s) key %s root %s proof %s -> %d %s exists=%d len=%zu", how, hex(key).c_str(), hex(root).c_str(), hex(pf.data(), std::min<size_t>(pf.size(), 300)).c_str(), g.ret, ename(g.err), g.exists, g.len);
  int code = proof_verify(pf, key, root, ex, val);
  cx.seen("verdicts", mix(mix(pf.size() ? pf[pf.size() / 2] : 0, pf.size()), mix(*(const uint64_t *)key.data(), code * 2 + ex)));
  cx.add(("code_" + std::string(ename(code))).c_str());
  // soundness against the truth
  if (g.ret) {
    auto it = roots.find(root);
    ORACLE(A4 | A5, it != roots.end(), "verified-unknown-root", "%s: verification succeeded against root %s, which no tree here has", how, hex(root).c_str());
    if (it != roots.end()) {
      auto e = it->second->kv.find(key);
      if (e == it->second->kv.end()) ORACLE(A4 | A5, !g.exists, "forged-existence", "%s: proof of existence verified for absent key %s", how, hex(key).c_str());
      else {
        ORACLE(A4 | A5, g.exists, "forged-absence", "%s: proof of absence verified for present key %s (%zu bytes)", how, hex(key).c_str(), e->second->v.size());
        ORACLE(A4 | A5, g.len == e->second->v.size() && g.value == e->second->v, "forged-value", "%s: verified value of key %s differs from the stored one (%zu vs %zu bytes)", how, hex(key).c_str(), g.len, e->second->v.size());
      }
    }
  } else {
    ORACLE(A4 | A5, g.exists == 0 && g.len == 0, "failed-but-exists", "%s: failed verification (%s) reports exists=%d length=%zu", how, ename(g.err), g.exists, g.len);
  }
  ORACLE(A5, (g.ret == 1) == (code == 0), "verdict", "%s: verify returned %d (%s), the rules say %s", how, g.ret, ename(g.err), ename(code));
  ORACLE(A5, g.ret == 1 || g.err == code, "verdict-code", "%s: verify failed with %s, the rules say %s", how, ename(g.err), ename(code));
  ORACLE(A5, g.ret == 0 || (g.exists == (int)ex && g.len == val.size() && g.value == val), "verdict-value", "%s: verify reports exists=%d, %zu bytes; the rules say exists=%d, %zu bytes", how, g.exists, g.len, ex, val.size());
  ORACLE(A5, after.allocs == before.allocs, "verify-leak", "%s: verification kept %ld allocation(s): %s", how, after.allocs - before.allocs, ip::leak_report(0).c_str());
}
static H32 other_key(Rng &r, const World &w, const H32 &k) {
  H32 x = k;
  switch (r.below(4)) {
    case 0: if (!w.keys.empty()) return r.pick(w.keys); break;
    case 1: kflip(x, r.below(256)); return x;
    case 2: kflip(x, 255 - r.below(8)); return x;
  }
  r.fill(x.data(), 32);
  return x;
}
static void setbit(uint8_t *p, unsigned i, unsigned b) { if (b) p[i >> 3] |= 1 << (7 - (i & 7)); else p[i >> 3] &= ~(1 << (7 - (i & 7))); }
static unsigned getbit(const uint8_t *p, unsigned i) { return (p[i >> 3] >> (7 - (i & 7))) & 1; }

// one structured forgery of an honest proof
static Proof forge(Rng &r, const World &w, Proof p, H32 &key, const char *&how) {
  const Version &v = *w.v;
  switch (r.below(22)) {
    case 0: how = "depth"; { static const int D[] = {1, -1, 2, -2, 8, -8, 128, -128, 255, -255, 256, 64}; p.depth = (p.depth + D[r.below(12)]) & 0x3fff; } break;
    case 1: how = "retype"; p.type = r.below(4); if (p.type == T_COLLISION) { p.key = r.chance(50) ? key : other_key(r, w, key); p.vhash = ref_hash(p.value.data(), p.value.size()); }
            if (p.type == T_SHORT && !p.plen) { p.plen = r.range(1, 256); r.fill(p.pbits, 32); } break;
    case 2: how = "self-collision"; { // the key's own leaf presented as a colliding leaf
      Proof q = p; q.type = T_COLLISION; q.key = key; q.vhash = ref_hash(p.value.data(), p.value.size()); q.value.clear(); p = q; break; }
    case 3: how = "ancestor-short"; { // cut the path at an ancestor and call it a short
      if (p.nodes.empty()) break;
      unsigned c = r.below(p.nodes.size());
      int i = v.top; unsigned d = 0;
      for (unsigned j = 0; j < c && i >= 0 && !v.nodes[i].leaf; j++, d++) { const RNode &n = v.nodes[i]; i = kbit(key, n.depth + n.plen) ? n.r : n.l; }
      if (i < 0 || d != c || v.nodes[i].leaf) break;
      const RNode &n = v.nodes[i];
      p.nodes.resize(c);
      p.type = T_SHORT; p.depth = n.depth; p.plen = n.plen;
      memset(p.pbits, 0, 32);
      for (unsigned b = 0; b < n.plen; b++) setbit(p.pbits, b, kbit(*n.key, n.depth + b));
      p.left = v.nodes[n.l].hash; p.right = v.nodes[n.r].hash;
      if (r.chance(30) && p.plen) setbit(p.pbits, r.below(p.plen), r.below(2));
      if (!p.plen && r.chance(50)) { p.plen = 1; p.pbits[0] = r.chance(50) ? 0x80 : 0; }
      break; }
    case 4: how = "ancestor-deadend"; { if (!p.nodes.empty()) p.nodes.resize(r.below(p.nodes.size())); p.type = T_DEADEND; unsigned d = 0; for (auto &n : p.nodes) d += n.plen + 1; p.depth = d; break; }
    case 5: how = "sibling-collision"; { // another leaf at its own place
      if (w.keys.empty()) break; H32 o = r.pick(w.keys); Proof q = proof_of(v, o); if (q.type != T_EXISTS) break;
      q.type = T_COLLISION; q.key = o; q.vhash = ref_hash(q.value.data(), q.value.size()); q.value.clear(); p = q; break; }
    case 6: how = "drop-node"; if (!p.nodes.empty()) p.nodes.erase(p.nodes.begin() + r.below(p.nodes.size())); if (r.chance(50)) { unsigned d = 0; for (auto &n : p.nodes) d += n.plen + 1; p.depth = d; } break;
    case 7: how = "dup-node"; if (!p.nodes.empty()) { size_t i = r.below(p.nodes.size()); p.nodes.insert(p.nodes.begin() + i, p.nodes[r.below(p.nodes.size())]); } if (r.chance(50)) { unsigned d = 0; for (auto &n : p.nodes) d += n.plen + 1; p.depth = d; } break;
    case 8: how = "swap-nodes"; if (p.nodes.size() > 1) std::swap(p.nodes[r.below(p.nodes.size())], p.nodes[r.below(p.nodes.size())]); break;
    case 9: how = "hash-bit"; if (!p.nodes.empty()) { auto &h = p.nodes[r.below(p.nodes.size())].hash; kflip(h, r.below(256)); } else if (p.type == T_SHORT) kflip(r.chance(50) ? p.left : p.right, r.below(256)); else if (p.type == T_COLLISION) kflip(r.chance(50) ? p.key : p.vhash, r.below(256)); break;
    case 10: how = "prefix-bit"; if (!p.nodes.empty()) { auto &n = p.nodes[r.below(p.nodes.size())]; if (n.plen) { unsigned b = r.below(n.plen); setbit(n.pbits, b, !getbit(n.pbits, b)); } } else if (p.plen) { unsigned b = r.below(p.plen); setbit(p.pbits, b, !getbit(p.pbits, b)); } break;
    case 11: how = "prefix-len"; if (!p.nodes.empty()) { auto &n = p.nodes[r.below(p.nodes.size())]; int d = r.chance(50) ? 1 : -1; if ((int)n.plen + d >= 0 && n.plen + d <= 256) n.plen += d; if (r.chance(50)) p.depth += d; p.depth &= 0x3fff; } else if (p.plen) { p.plen += r.chance(50) && p.plen < 256 ? 1 : -1; } break;
    case 12: how = "move-prefix"; if (p.nodes.size() > 1) { size_t i = r.below(p.nodes.size() - 1); auto &a = p.nodes[i], &b = p.nodes[i + 1]; unsigned t = a.plen; a.plen = b.plen; b.plen = t; for (int q = 0; q < 32; q++) std::swap(a.pbits[q], b.pbits[q]); } break;
    case 13: how = "value"; if (p.type == T_EXISTS) { if (!p.value.empty() && r.chance(60)) p.value[r.below(p.value.size())] ^= 1 << r.below(8); else if (r.chance(50) && p.value.size() < 1023) p.value.push_back(0); else if (!p.value.empty()) p.value.pop_back(); } break;
    case 14: how = "swap-short"; if (p.type == T_SHORT) std::swap(p.left, p.right); break;
    case 15: how = "transplant-tail"; if (!w.pool.empty()) { Proof q; if (proof_decode(r.pick(w.pool), q)) { auto ns = p.nodes; unsigned d = p.depth; p = q; p.nodes = ns; if (r.chance(50)) p.depth = d; } } break;
    case 16: how = "transplant-head"; if (!w.pool.empty()) { Proof q; if (proof_decode(r.pick(w.pool), q) && !q.nodes.empty()) { size_t n = r.below(q.nodes.size() + 1), m = p.nodes.empty() ? 0 : r.below(p.nodes.size()); std::vector<PNode> ns(q.nodes.begin(), q.nodes.begin() + n); ns.insert(ns.end(), p.nodes.begin() + m, p.nodes.end()); p.nodes = ns; unsigned d = 0; for (auto &x : p.nodes) d += x.plen + 1; p.depth = d; } } break;
    case 17: how = "shifted-walk"; { // descend with the key's bits read at shifted positions
      if (v.top < 0) break;
      unsigned s = r.range(1, 40);
      Proof q; int i = v.top;
      for (;;) {
        const RNode &n = v.nodes[i];
        q.depth = n.depth + s;
        if (q.depth > 256) break;
        if (n.leaf) { q.type = T_COLLISION; q.key = *n.key; q.vhash = n.val->vhash; break; }
        bool m = n.depth + n.plen + s < 256;
        for (unsigned b = 0; m && b < n.plen; b++) if (kbit(key, n.depth + s + b) != kbit(*n.key, n.depth + b)) m = false;
        if (!m) { q.type = T_SHORT; q.plen = n.plen; memset(q.pbits, 0, 32); for (unsigned b = 0; b < n.plen; b++) setbit(q.pbits, b, kbit(*n.key, n.depth + b)); q.left = v.nodes[n.l].hash; q.right = v.nodes[n.r].hash; break; }
        PNode pn; pn.plen = n.plen; for (unsigned b = 0; b < n.plen; b++) setbit(pn.pbits, b, kbit(*n.key, n.depth + b));
        unsigned b = kbit(key, n.depth + n.plen + s);
        pn.hash = v.nodes[b ? n.l : n.r].hash; q.nodes.push_back(pn); i = b ? n.r : n.l;
      }
      if (r.chance(30)) q.depth -= s;
      p = q; break; }
    case 18: how = "internal-as-leaf"; { // an inner node's preimage presented as a leaf
      std::vector<int> in; for (size_t i = 0; i < v.nodes.size(); i++) if (!v.nodes[i].leaf) in.push_back(i);
      if (in.empty()) break;
      const RNode &n = v.nodes[in[r.below(in.size())]];
      H32 l = v.nodes[n.l].hash, rr = v.nodes[n.r].hash;
      Proof q = proof_of(v, *n.key); unsigned d = 0; size_t c = 0; while (c < q.nodes.size() && d < n.depth) d += q.nodes[c++].plen + 1; q.nodes.resize(c);
      q.depth = n.depth; q.type = r.chance(50) ? T_COLLISION : T_EXISTS; q.key = l; q.vhash = rr; q.value.assign(l.begin(), l.end()); q.value.insert(q.value.end(), rr.begin(), rr.end()); key = r.chance(50) ? *n.key : l; p = q; break; }
    case 19: how = "leaf-as-internal"; { if (w.keys.empty()) break; H32 o = r.pick(w.keys); Proof q = proof_of(v, o); Val vv(o, q.value); q.type = T_SHORT; q.plen = r.chance(50) ? 1 : 0; memset(q.pbits, 0, 32); setbit(q.pbits, 0, !kbit(key, std::min(255u, q.depth))); q.left = o; q.right = vv.vhash; q.value.clear(); p = q; break; }
    case 20: how = "no-nodes"; p.nodes.clear(); if (r.chance(60)) p.depth = 0; break;
    default: how = "replay"; break;
  }
  return p;
}
// random structurally valid proof for `key` with the root it proves
static Proof synth(Rng &r, const H32 &key, unsigned depth) {
  Proof p;
  p.type = r.below(4);
  p.depth = depth;
  unsigned d = depth;
  std::vector<PNode> rev;
  while (d > 0) {
    PNode n;
    unsigned m = d - 1;
    switch (r.below(5)) {
      case 0: n.plen = 0; break;
      case 1: n.plen = std::min(m, (unsigned)r.below(9)); break;
      case 2: n.plen = r.below(m + 1); break;
      case 3: n.plen = std::min(m, 120 + (unsigned)r.below(16)); break;
      default: n.plen = r.chance(20) ? m : 0;
    }
    if (rev.size() >= 255) n.plen = m;
    unsigned at = d - 1 - n.plen;
    for (unsigned b = 0; b < n.plen; b++) setbit(n.pbits, b, kbit(key, at + b));
    r.fill(n.hash.data(), 32);
    rev.push_back(n);
    d = at;
  }
  p.nodes.assign(rev.rbegin(), rev.rend());
  r.fill(p.left.data(), 32); r.fill(p.right.data(), 32);
  r.fill(p.key.data(), 32); r.fill(p.vhash.data(), 32);
  if (p.type == T_COLLISION && r.chance(60)) { p.key = key; kflip(p.key, r.chance(50) ? 248 + r.below(8) : r.below(256)); }
  if (p.type == T_SHORT) {
    static const unsigned L[] = {1, 2, 7, 8, 9, 63, 64, 127, 128, 129, 254, 255, 256};
    p.plen = L[r.below(13)];
    // a prefix that agrees with the key as long as possible, then differs
    for (unsigned b = 0; b < p.plen && depth + b < 256; b++) setbit(p.pbits, b, kbit(key, depth + b));
    if (r.chance(85)) { unsigned b = r.below(p.plen); setbit(p.pbits, b, !getbit(p.pbits, b)); }
  }
  if (p.type == T_EXISTS) p.value = gen_value(r, r.below(5));
  return p;
}
static H32 root_of(const Proof &p, const H32 &key) {
  H32 next = ZERO;
  if (p.type == T_SHORT) next = rh_internal(p.pbits, p.plen, p.left, p.right);
  if (p.type == T_COLLISION) next = rh_leaf(p.key, p.vhash);
  if (p.type == T_EXISTS) next = rh_leaf(key, ref_hash(p.value.data(), p.value.size()));
  unsigned d = p.depth;
  for (size_t i = p.nodes.size(); i--;) {
    const PNode &n = p.nodes[i];
    d--;
    next = kbit(key, d) ? rh_internal(n.pbits, n.plen, n.hash, next) : rh_internal(n.pbits, n.plen, next, n.hash);
    d -= n.plen;
  }
  return next;
}
static Bytes hostile(Rng &r, const char *&how) {
  Bytes b;
  auto u16 = [&](unsigned v) { b.push_back(v & 255); b.push_back(v >> 8 & 255); };
  auto rnd = [&](size_t n) { size_t o = b.size(); b.resize(o + n); r.fill(b.data() + o, n); };
  if (r.chance(15)) { how = "random"; rnd(r.below(200)); return b; }
  how = "fields";
  static const unsigned C[] = {0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 64, 127, 128, 254, 255, 256, 257, 300, 512, 4096, 32768, 65535};
  static const unsigned D[] = {0, 1, 2, 8, 128, 255, 256, 257, 512, 1000, 8191, 16383};
  unsigned type = r.below(4), depth = D[r.below(12)], cnt = C[r.below(22)];
  if (r.chance(40)) cnt = r.below(6);
  u16(type << 14 | depth);
  u16(cnt);
  Bytes bm((cnt + 7) / 8);
  switch (r.below(3)) { case 0: break; case 1: memset(bm.data(), 0xff, bm.size()); break; default: r.fill(bm.data(), bm.size()); }
  if (cnt > 300 && r.chance(70)) bm.resize(r.below(bm.size()));
  b.insert(b.end(), bm.begin(), bm.end());
  auto pref = [&]() {
    unsigned n;
    switch (r.below(9)) {
      case 0: b.push_back(0); n = 0; break;                                      // empty prefix
      case 1: n = r.range(1, 127); b.push_back(n); break;
      case 2: n = r.range(128, 256); b.push_back(0x80 | n >> 8); b.push_back(n & 255); break;
      case 3: n = r.below(128); b.push_back(0x80); b.push_back(n); break;        // overlong
      case 4: n = 257 + r.below(40); b.push_back(0x80 | n >> 8); b.push_back(n & 255); break;
      case 5: b.push_back(0x80 | r.below(128)); b.push_back(r.next()); n = r.below(300); break;
      case 6: b.push_back(0xff); b.push_back(0xff); n = 256; break;
      default: n = r.range(1, 16); b.push_back(n);
    }
    size_t k = (n + 7) / 8;
    if (k > 40) k = 40;
    if (r.chance(5) && k) k--;
    rnd(k);
  };
  for (unsigned i = 0; i < cnt && i < 300; i++) {
    if (i / 8 < bm.size() && (bm[i / 8] >> (7 - (i & 7)) & 1)) pref();
    rnd(32);
    if (r.chance(1)) break;
  }
  switch (type) {
    case 1: pref(); rnd(64); break;
    case 2: rnd(64); break;
    case 3: { static const unsigned S[] = {0, 1, 31, 32, 255, 256, 1022, 1023, 1024, 1025, 2048, 32767, 65535}; unsigned s = S[r.below(13)]; u16(s); rnd(r.chance(80) ? s : r.below(s + 1)); break; }
  }
  if (r.chance(30) && !b.empty()) b.resize(r.below(b.size()));
  else if (r.chance(15)) rnd(r.range(1, 40));
  return b;
}
static void bytes_mutate(Rng &r, Bytes &b) {
  int n = 1 + r.below(3);
  while (n--) switch (r.below(7)) {
    case 0: if (!b.empty()) b[r.below(b.size())] ^= 1 << r.below(8); break;
    case 1: if (!b.empty()) b[r.below(std::min<size_t>(b.size(), 8))] = r.next(); break;
    case 2: if (!b.empty()) b.resize(r.below(b.size())); break;
    case 3: { size_t k = r.range(1, 33); size_t o = b.size(); b.resize(o + k); r.fill(b.data() + o, k); break; }
    case 4: if (b.size() > 4) { size_t i = r.below(b.size()), k = 1 + r.below(std::min<size_t>(33, b.size() - i)); b.erase(b.begin() + i, b.begin() + i + k); } break;
    case 5: { size_t i = r.below(b.size() + 1); Bytes x(r.range(1, 32)); r.fill(x.data(), x.size()); b.insert(b.begin() + i, x.begin(), x.end()); break; }
    default: if (!b.empty()) b[r.below(b.size())] = r.chance(50) ? 0xff : 0; break;
  }
}

void run_proof() {
  Rng r(mix(cx.seed, mix(cx.cas, 0x9f00f)));
  std::string path = cx.dir + "/db";
  ip::rm_rf(path);
  set_limits(gen_limits(r, r.chance(40)));
  roots.clear();
  roots[ZERO] = mkversion(KV());
  nverify = 0;
  World w;
  KeyGen kg;
  if (cx.cas % 3 == 0) {
    // a pair (or triple) of keys sharing exactly p bits
    unsigned p = (cx.cas / 3 * 7 + (cx.seed - 1) * 3) % 256;
    H32 a, b;
    r.fill(a.data(), 32);
    b = a;
    kflip(b, p);
    for (unsigned i = p + 1; i < 256; i++) if (r.chance(50)) kflip(b, i);
    kg.fam = 100;
    kg.keys = {a, b};
    if (r.chance(50)) { H32 c = r.chance(50) ? a : b; unsigned q = r.below(256); kflip(c, q); if (c != a && c != b) kg.keys.push_back(c); }
    cx.seen("shared_prefix_lengths", (uint64_t)(p + 1) << 20);
  } else {
    int fam = r.below(NFAM);
    int n = r.chance(15) ? 257 : r.chance(30) ? r.range(1, 5) : r.range(5, 60);
    if (fam != 2 && n > 100) n = 100;
    kg = KeyGen::make(r, fam, n);
  }
  int err;
  urkel_t *db = a_open(path, &err);
  ORACLE(~0u, db != nullptr, "open-failed", "open failed: %s", ename(err));
  urkel_tx_t *tx = a_tx_create(db, nullptr, &err);
  ORACLE(~0u, tx != nullptr, "tx-create", "tx_create failed: %s", ename(err));
  KV kv;
  int vm = r.below(5);
  std::vector<VerP> hist;
  int rounds = cx.prop == P03 ? r.range(1, 4) : 1;
  auto sweep = [&](const char *why, bool committed) {
    VerP v = mkversion(kv);
    roots[v->root] = v;
    // keys to prove: present ones, and for some of them every single-bit neighbour class
    std::vector<H32> ks;
    for (auto &e : kv) ks.push_back(e.first);
    std::vector<H32> q = ks;
    if (q.size() > 40) { for (size_t i = q.size(); i > 1; i--) std::swap(q[i - 1], q[r.below(i)]); q.resize(40); }
    for (int i = 0; i < 40; i++) {
      H32 k = ks.empty() ? H32() : r.pick(ks);
      if (i < 8) kflip(k, 255 - i); else if (i < 34) kflip(k, r.below(256)); else k = kg.absent(r);
      q.push_back(k);
    }
    for (auto &k : q) {
      Bytes canon = v->prove(k);
      int n = committed ? 3 : 1;
      for (int how = 0; how < n; how++) {
        Res p = how == 0 ? a_tx_prove(tx, k) : how == 1 ? a_prove(db, k, nullptr) : a_prove(db, k, &v->root);
        ORACLE(A3, p.ret == 1, "prove-failed", "%s: prove(%s) failed: %s", why, hex(k).c_str(), ename(p.err));
        check_verify(v, k, p.v, v->root, A3);
        ORACLE(A3, p.v == canon, "proof-bytes", "%s: proof of %s is %s, canonical form is %s", why, hex(k).c_str(), hex(p.v.data(), std::min<size_t>(p.v.size(), 200)).c_str(), hex(canon.data(), std::min<size_t>(canon.size(), 200)).c_str());
        cx.add("proofs");
        Proof pf;
        if (how == 0 && proof_decode(canon, pf)) {
          cx.add(("proof_type_" + std::to_string(pf.type)).c_str());
          unsigned mx = pf.plen;
          for (auto &nn : pf.nodes) mx = std::max(mx, nn.plen);
          cx.seen("proof_shapes", mix(pf.type * 1000 + pf.depth, pf.nodes.size() * 300 + mx));
        }
      }
    }
    // historical roots
    for (auto &h : hist) {
      if (cx.prop != P03) break;
      for (int i = 0; i < 5; i++) {
        std::vector<H32> hk;
        for (auto &e : h->kv) hk.push_back(e.first);
        H32 k = hk.empty() || r.chance(40) ? kg.absent(r) : r.pick(hk);
        Res p = a_prove(db, k, &h->root);
        ORACLE(A3, p.ret == 1, "prove-failed", "%s: prove(%s) at a historical root failed: %s", why, hex(k).c_str(), ename(p.err));
        check_verify(h, k, p.v, h->root, A3);
        ORACLE(A3, p.v == h->prove(k), "proof-bytes", "%s: historical proof of %s is not canonical", why, hex(k).c_str());
        cx.add("proofs");
      }
    }
  };
  for (int round = 0; round < rounds; round++) {
    for (auto &k : kg.keys) {
      if (round && r.chance(60)) {
        if (r.chance(30) && kv.count(k)) { Res x = a_tx_remove(tx, k); ORACLE(~0u, x.ret == 1, "remove-failed", "tx_remove failed: %s", ename(x.err)); kv.erase(k); }
        continue;
      }
      if (round == 0 && kg.fam != 100 && r.chance(5)) continue;
      Bytes v = gen_value(r, vm);
      Res x = a_tx_insert(tx, k, v);
      ORACLE(~0u, x.ret == 1, "insert-failed", "tx_insert failed: %s", ename(x.err));
      kv[k] = mkval(k, v);
    }
    if (cx.prop == P03) sweep("uncommitted", false);
    if (r.chance(70)) {
      Res x = a_commit(tx);
      ORACLE(~0u, x.ret == 1, "commit-failed", "commit failed: %s", ename(x.err));
      if (cx.prop == P03) sweep("committed", true);
      hist.push_back(mkversion(kv));
      if (r.chance(50)) {
        urkel_tx_destroy(tx);
        urkel_close(db);
        db = a_open(path, &err);
        ORACLE(~0u, db != nullptr, "open-failed", "reopen failed: %s", ename(err));
        tx = a_tx_create(db, nullptr, &err);
        ORACLE(~0u, tx != nullptr, "tx-create", "tx_create failed: %s", ename(err));
        if (cx.prop == P03) sweep("reopened", true);
      }
    }
  }
  if (cx.prop != P03) {
    w.v = mkversion(kv);
    roots[w.v->root] = w.v;
    for (auto &e : kv) w.keys.push_back(e.first);
    // a second version sharing most of the tree
    KV kv2 = kv;
    for (auto &k : kg.keys) if (r.chance(20)) { if (r.chance(40)) kv2.erase(k); else kv2[k] = mkval(k, gen_value(r, 0)); }
    VerP v2 = mkversion(kv2);
    roots[v2->root] = v2;
    for (int i = 0; i < 30; i++) {
      H32 k = w.keys.empty() || r.chance(40) ? kg.absent(r) : r.pick(w.keys);
      if (i < 16) {
        // honest proofs come from the library itself; the reference form is the fallback
        Res p = a_tx_prove(tx, k);
        w.pool.push_back(p.ret ? p.v : w.v->prove(k));
      } else w.pool.push_back(v2->prove(k));
      w.pkey.push_back(k);
    }
    bool all = cx.prop == P05;
    int N = cx.thorough ? 1500 : 500;
    // every single-bit corruption class of one honest proof: root, key, value
    {
      size_t i = r.below(16);
      for (int b = 0; b < 256; b++) {
        H32 rt = w.v->root; kflip(rt, b);
        judge(w.pool[i], w.pkey[i], rt, "root-bit");
        H32 k = w.pkey[i]; kflip(k, b);
        judge(w.pool[i], k, w.v->root, "key-bit");
      }
      if (all) for (size_t n = 0; n <= w.pool[i].size(); n += w.pool[i].size() > 600 ? r.range(1, 9) : 1) { Bytes t(w.pool[i].begin(), w.pool[i].begin() + n); judge(t, w.pkey[i], w.v->root, "truncate"); }
    }
    for (int i = 0; i < N; i++) {
      const char *how = "";
      size_t j = r.below(w.pool.size());
      H32 key = w.pkey[j];
      H32 root = r.chance(85) ? w.v->root : r.chance(50) ? v2->root : ZERO;
      int c = r.below(100);
      if (c < (all ? 25 : 15)) {
        Bytes b = w.pool[j];
        bytes_mutate(r, b);
        judge(b, r.chance(80) ? key : other_key(r, w, key), root, "bytes");
      } else if (c < (all ? 45 : 20)) {
        Bytes b = hostile(r, how);
        if (r.chance(50)) r.fill(key.data(), 32);
        judge(b, key, root, how);
      } else if (c < (all ? 65 : 25)) {
        static const unsigned D[] = {0, 1, 2, 9, 100, 255, 256};
        r.fill(key.data(), 32);
        Proof p = synth(r, key, r.chance(50) ? D[r.below(7)] : r.below(257));
        H32 rt = root_of(p, key);
        // the root is made to fit, so nothing is known about a tree with it
        if (cx.prop == P05) {
          bool ex; Bytes val;
          Bytes b = proof_encode(p);
          if (r.chance(15) && p.nodes.size()) { size_t bi = 4 + (p.nodes.size() - 1) / 8; b[bi] |= (p.nodes.size() & 7) ? (0xff >> (p.nodes.size() & 7)) : 0; }
          int code = proof_verify(b, key, rt, ex, val);
          VRes g = a_verify(b, key, rt);
          cx.add("verifications"); cx.add("attack_fitted-root"); cx.add(g.ret ? "verified_true" : "verified_false");
          cx.seen("verdicts", mix(p.type * 300 + p.depth, mix(p.nodes.size(), code)));
          T("fitted root: type %u depth %u nodes %zu -> %d %s (rules: %s)", p.type, p.depth, p.nodes.size(), g.ret, ename(g.err), ename(code));
          ORACLE(A5, (g.ret == 1) == (code == 0) && (g.ret == 1 || g.err == code), "verdict", "fitted root: verify returned %d (%s), the rules say %s (type %u depth %u, %zu nodes)", g.ret, ename(g.err), ename(code), p.type, p.depth, p.nodes.size());
          ORACLE(A5, g.exists == (int)ex && g.len == val.size() && g.value == val, "verdict-value", "fitted root: verify reports exists=%d, %zu bytes; the rules say exists=%d, %zu bytes", g.exists, g.len, ex, val.size());
          if (r.chance(50)) { Proof q = p; q.depth = (p.depth + (r.chance(50) ? 1 : -1)) & 0x3fff; judge(proof_encode(q), key, rt, "fitted-shift"); }
        }
        judge(proof_encode(p), key, root, "synthetic");
      } else {
        Proof p;
        if (!proof_decode(w.pool[j], p)) continue;
        p = forge(r, w, p, key, how);
        if (p.nodes.size() > 400) continue;
        if (r.chance(15)) { const char *h2; p = forge(r, w, p, key, h2); }
        Bytes b = proof_encode(p);
        std::string h = how;
        judge(b, r.chance(85) ? key : other_key(r, w, key), root, h.c_str());
      }
    }
    if (all) {
      int ex = 5; size_t n = 5; unsigned char v[1023];
      urkel_errno = ESENT;
      int ret = urkel_verify(&ex, v, &n, w.pool[0].data(), w.pool[0].size(), w.pkey[0].data(), nullptr);
      ORACLE(A5, ret == 0 && urkel_errno == URKEL_EINVAL && ex == 0 && n == 0, "null-root", "verify without a root: ret=%d errno=%s", ret, ename(urkel_errno));
    }
  }
  urkel_tx_destroy(tx);
  urkel_close(db);
  ip::Res l = ip::live();
  ORACLE(A3 | A5, l.allocs == 0 && l.fds == 0 && l.maps == 0, "leak", "%ld allocation(s), %ld descriptor(s) left after close: %s", l.allocs, l.fds, ip::leak_report(0).c_str());
  cx.seen("cases", mix(cx.cas, *(const uint64_t *)mkversion(kv)->root.data()));
  cx.sample("case " + std::to_string(cx.cas) + ": key family " + std::to_string(kg.fam) + ", " + std::to_string(kv.size()) + " records, " + std::to_string(nverify) + " forged or hostile proofs judged, root " + hexs(mkversion(kv)->root));
}
