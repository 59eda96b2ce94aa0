#include "ref.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

const H32 ZERO = {};

std::string hex(const void *p, size_t n) {
  static const char d[] = "0123456789abcdef";
  std::string s;
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
  return s;
}
bool unhex(const std::string &s, Bytes &out) {
  out.clear();
  if (s.size() & 1) return false;
  auto v = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
  for (size_t i = 0; i < s.size(); i += 2) {
    int a = v(s[i]), b = v(s[i + 1]);
    if (a < 0 || b < 0) return false;
    out.push_back(a << 4 | b);
  }
  return true;
}
uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0xD1342543DE82EF95ull + 0x2545F4914F6CDD1Dull));
  return r.next();
}

// ---------------------------------------------------------------- BLAKE2b (RFC 7693)
static const uint64_t IV[8] = {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull,
                               0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
static const uint8_t SG[10][16] = {{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
                                   {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
                                   {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
                                   {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
                                   {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
                                   {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
                                   {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
                                   {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
                                   {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
                                   {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}};
static inline uint64_t ror(uint64_t x, int n) { return x >> n | x << (64 - n); }
static void F(uint64_t *h, const uint8_t *blk, uint64_t t, bool last) {
  uint64_t m[16], v[16];
  for (int i = 0; i < 16; i++) {
    uint64_t w = 0;
    for (int j = 7; j >= 0; j--) w = w << 8 | blk[i * 8 + j];
    m[i] = w;
  }
  for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = IV[i]; }
  v[12] ^= t;
  if (last) v[14] = ~v[14];
#define G(a, b, c, d, x, y)                                                    \
  v[a] += v[b] + x; v[d] = ror(v[d] ^ v[a], 32); v[c] += v[d]; v[b] = ror(v[b] ^ v[c], 24); \
  v[a] += v[b] + y; v[d] = ror(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = ror(v[b] ^ v[c], 63);
  for (int r = 0; r < 12; r++) {
    const uint8_t *s = SG[r % 10];
    G(0, 4, 8, 12, m[s[0]], m[s[1]]) G(1, 5, 9, 13, m[s[2]], m[s[3]])
    G(2, 6, 10, 14, m[s[4]], m[s[5]]) G(3, 7, 11, 15, m[s[6]], m[s[7]])
    G(0, 5, 10, 15, m[s[8]], m[s[9]]) G(1, 6, 11, 12, m[s[10]], m[s[11]])
    G(2, 7, 8, 13, m[s[12]], m[s[13]]) G(3, 4, 9, 14, m[s[14]], m[s[15]])
  }
#undef G
  for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
}
void ref_blake2b(uint8_t *out, size_t outlen, const void *data, size_t len, const void *key, size_t keylen) {
  uint64_t h[8], t = 0;
  memcpy(h, IV, sizeof h);
  h[0] ^= 0x01010000ull ^ (keylen << 8) ^ outlen;
  uint8_t blk[128];
  const uint8_t *p = (const uint8_t *)data;
  if (keylen) {
    memset(blk, 0, 128);
    memcpy(blk, key, keylen);
    t = 128;
    F(h, blk, t, len == 0);
    if (len == 0) goto done;
  }
  while (len > 128) { t += 128; F(h, p, t, false); p += 128; len -= 128; }
  memset(blk, 0, 128);
  if (len) memcpy(blk, p, len);
  t += len;
  F(h, blk, t, true);
done:
  for (size_t i = 0; i < outlen; i++) out[i] = (uint8_t)(h[i >> 3] >> (8 * (i & 7)));
}
H32 ref_hash(const void *data, size_t len) {
  H32 h;
  ref_blake2b(h.data(), 32, data, len);
  return h;
}

// ---------------------------------------------------------------- tree
H32 rh_leaf(const H32 &key, const H32 &vh) {
  uint8_t b[65];
  b[0] = 0;
  memcpy(b + 1, key.data(), 32);
  memcpy(b + 33, vh.data(), 32);
  return ref_hash(b, 65);
}
H32 rh_internal(const uint8_t *pb, unsigned plen, const H32 &l, const H32 &r) {
  uint8_t b[1 + 2 + 32 + 64];
  size_t n = 0;
  if (plen == 0) b[n++] = 1;
  else {
    b[n++] = 2;
    b[n++] = plen & 255;
    b[n++] = plen >> 8;
    memcpy(b + n, pb, (plen + 7) / 8);
    n += (plen + 7) / 8;
  }
  memcpy(b + n, l.data(), 32); n += 32;
  memcpy(b + n, r.data(), 32); n += 32;
  return ref_hash(b, n);
}
Val::Val(const H32 &key, const Bytes &b) : v(b) {
  vhash = ref_hash(v.data(), v.size());
  leaf = rh_leaf(key, vhash);
}
ValP mkval(const H32 &key, const Bytes &b) { return std::make_shared<const Val>(key, b); }

static void prefix_bits(const H32 &key, unsigned depth, unsigned plen, uint8_t out[32]) {
  memset(out, 0, 32);
  for (unsigned i = 0; i < plen; i++)
    if (kbit(key, depth + i)) out[i >> 3] |= 1 << (7 - (i & 7));
}
static unsigned lcp(const H32 &a, const H32 &b) {
  for (unsigned i = 0; i < 32; i++)
    if (a[i] != b[i]) return i * 8 + __builtin_clz((unsigned)(a[i] ^ b[i]) << 24);
  return 256;
}
typedef std::pair<const H32, ValP> KVE;
static int rbuild(std::vector<RNode> &nodes, const std::vector<const KVE *> &a, size_t lo, size_t hi, unsigned depth) {
  RNode n;
  n.depth = depth;
  n.key = &a[lo]->first;
  n.plen = 0;
  n.l = n.r = -1;
  n.val = nullptr;
  if (hi - lo == 1) {
    n.leaf = true;
    n.val = a[lo]->second.get();
    n.hash = n.val->leaf;
  } else {
    n.leaf = false;
    unsigned c = lcp(a[lo]->first, a[hi - 1]->first);
    n.plen = c - depth;
    size_t m = lo, b = hi;  // first with bit c set
    while (m < b) { size_t x = (m + b) / 2; if (kbit(a[x]->first, c)) b = x; else m = x + 1; }
    n.l = rbuild(nodes, a, lo, m, c + 1);
    n.r = rbuild(nodes, a, m, hi, c + 1);
    uint8_t pb[32];
    prefix_bits(*n.key, depth, n.plen, pb);
    n.hash = rh_internal(pb, n.plen, nodes[n.l].hash, nodes[n.r].hash);
  }
  nodes.push_back(n);
  return (int)nodes.size() - 1;
}
void Version::build() const {
  if (built) return;
  built = true;
  if (kv.empty()) { top = -1; return; }
  std::vector<const KVE *> a;
  a.reserve(kv.size());
  for (auto &e : kv) a.push_back(&e);
  nodes.reserve(2 * a.size());
  top = rbuild(nodes, a, 0, a.size(), 0);
}
unsigned Version::max_depth() const {
  build();
  unsigned d = 0;
  for (auto &n : nodes) if (n.depth > d) d = n.depth;
  return d;
}
VerP mkversion(const KV &kv) {
  auto v = std::make_shared<Version>();
  v->kv = kv;
  v->build();
  v->root = v->top < 0 ? ZERO : v->nodes[v->top].hash;
  return v;
}
H32 ref_root(const KV &kv) {
  if (kv.empty()) return ZERO;
  std::vector<RNode> nodes;
  std::vector<const KVE *> a;
  for (auto &e : kv) a.push_back(&e);
  int t = rbuild(nodes, a, 0, a.size(), 0);
  return nodes[t].hash;
}
Proof proof_of(const Version &v, const H32 &key) {
  v.build();
  Proof p;
  if (v.top < 0) { p.type = T_DEADEND; return p; }
  int i = v.top;
  for (;;) {
    const RNode &n = v.nodes[i];
    p.depth = n.depth;
    if (n.leaf) {
      if (*n.key == key) { p.type = T_EXISTS; p.value = n.val->v; }
      else { p.type = T_COLLISION; p.key = *n.key; p.vhash = n.val->vhash; }
      return p;
    }
    bool match = lcp(*n.key, key) >= n.depth + n.plen;
    if (!match) {
      p.type = T_SHORT;
      p.plen = n.plen;
      prefix_bits(*n.key, n.depth, n.plen, p.pbits);
      p.left = v.nodes[n.l].hash;
      p.right = v.nodes[n.r].hash;
      return p;
    }
    PNode pn;
    pn.plen = n.plen;
    prefix_bits(*n.key, n.depth, n.plen, pn.pbits);
    unsigned b = kbit(key, n.depth + n.plen);
    pn.hash = v.nodes[b ? n.l : n.r].hash;
    p.nodes.push_back(pn);
    i = b ? n.r : n.l;
  }
}
Bytes Version::prove(const H32 &key) const { return proof_encode(proof_of(*this, key)); }

static void putbits(Bytes &o, const uint8_t *pb, unsigned plen) {
  if (plen >= 0x80) o.push_back(0x80 | (plen >> 8));
  o.push_back(plen & 255);
  o.insert(o.end(), pb, pb + (plen + 7) / 8);
}
Bytes proof_encode(const Proof &p) {
  Bytes o;
  unsigned f = (p.type << 14) | p.depth;
  o.push_back(f & 255); o.push_back(f >> 8);
  unsigned c = p.nodes.size();
  o.push_back(c & 255); o.push_back(c >> 8);
  size_t bm = o.size();
  o.resize(o.size() + (c + 7) / 8);
  for (unsigned i = 0; i < c; i++) {
    const PNode &n = p.nodes[i];
    if (n.plen) { o[bm + i / 8] |= 1 << (7 - (i & 7)); putbits(o, n.pbits, n.plen); }
    o.insert(o.end(), n.hash.begin(), n.hash.end());
  }
  switch (p.type) {
    case T_SHORT:
      putbits(o, p.pbits, p.plen);
      o.insert(o.end(), p.left.begin(), p.left.end());
      o.insert(o.end(), p.right.begin(), p.right.end());
      break;
    case T_COLLISION:
      o.insert(o.end(), p.key.begin(), p.key.end());
      o.insert(o.end(), p.vhash.begin(), p.vhash.end());
      break;
    case T_EXISTS:
      o.push_back(p.value.size() & 255);
      o.push_back(p.value.size() >> 8);
      o.insert(o.end(), p.value.begin(), p.value.end());
      break;
  }
  return o;
}
struct Cur {
  const uint8_t *p; size_t n;
  bool take(void *o, size_t k) { if (n < k) return false; if (k) memcpy(o, p, k); p += k; n -= k; return true; }
  bool u8(unsigned &v) { uint8_t b; if (!take(&b, 1)) return false; v = b; return true; }
  bool u16(unsigned &v) { uint8_t b[2]; if (!take(b, 2)) return false; v = b[0] | b[1] << 8; return true; }
  bool bits(uint8_t *pb, unsigned &len) {
    unsigned a;
    memset(pb, 0, 32);
    if (!u8(a)) return false;
    if (a & 0x80) { unsigned b; if (!u8(b)) return false; a = (a & 0x7f) << 8 | b; if (a < 0x80) return false; }
    if (a == 0 || a > 256) return false;
    len = a;
    return take(pb, (a + 7) / 8);
  }
};
bool proof_decode(const Bytes &b, Proof &p) {
  Cur c{b.data(), b.size()};
  unsigned f, cnt;
  p = Proof();
  if (!c.u16(f) || !c.u16(cnt)) return false;
  p.type = f >> 14;
  p.depth = f & 0x3fff;
  if (p.depth > 256 || cnt > 256) return false;
  Bytes bm((cnt + 7) / 8);
  if (!c.take(bm.data(), bm.size())) return false;
  for (unsigned i = 0; i < cnt; i++) {
    PNode n;
    if ((bm[i / 8] >> (7 - (i & 7))) & 1) { if (!c.bits(n.pbits, n.plen)) return false; }
    if (!c.take(n.hash.data(), 32)) return false;
    p.nodes.push_back(n);
  }
  switch (p.type) {
    case T_DEADEND: break;
    case T_SHORT:
      if (!c.bits(p.pbits, p.plen) || !c.take(p.left.data(), 32) || !c.take(p.right.data(), 32)) return false;
      break;
    case T_COLLISION:
      if (!c.take(p.key.data(), 32) || !c.take(p.vhash.data(), 32)) return false;
      break;
    case T_EXISTS: {
      unsigned s;
      if (!c.u16(s)) return false;
      if (c.n < s || s > 1023) return false;
      p.value.resize(s);
      c.take(p.value.data(), s);
      break;
    }
  }
  return c.n == 0;
}
static bool has_prefix(const uint8_t *pb, unsigned plen, const H32 &key, unsigned depth) {
  if (depth + plen > 256) return false;
  for (unsigned i = 0; i < plen; i++)
    if (((pb[i >> 3] >> (7 - (i & 7))) & 1) != (int)kbit(key, depth + i)) return false;
  return true;
}
int proof_verify(const Bytes &b, const H32 &key, const H32 &root, bool &exists, Bytes &value) {
  Proof p;
  exists = false;
  value.clear();
  if (!proof_decode(b, p)) return 7;  // EINVAL
  H32 next = ZERO;
  switch (p.type) {
    case T_SHORT:
      if (has_prefix(p.pbits, p.plen, key, p.depth)) return 3;  // ESAMEPATH
      next = rh_internal(p.pbits, p.plen, p.left, p.right);
      break;
    case T_COLLISION:
      if (p.key == key) return 2;  // ESAMEKEY
      next = rh_leaf(p.key, p.vhash);
      break;
    case T_EXISTS:
      next = rh_leaf(key, ref_hash(p.value.data(), p.value.size()));
      break;
  }
  unsigned depth = p.depth;
  for (size_t i = p.nodes.size(); i--;) {
    const PNode &n = p.nodes[i];
    if (depth < n.plen + 1) return 4;  // ENEGDEPTH
    depth -= 1;
    next = kbit(key, depth) ? rh_internal(n.pbits, n.plen, n.hash, next) : rh_internal(n.pbits, n.plen, next, n.hash);
    depth -= n.plen;
    if (!has_prefix(n.pbits, n.plen, key, depth)) return 5;  // EPATHMISMATCH
  }
  if (depth != 0) return 6;  // ETOODEEP
  if (next != root) return 1;  // EHASHMISMATCH
  if (p.type == T_EXISTS) { exists = true; value = p.value; }
  return 0;
}

// ---------------------------------------------------------------- on-disk reader
std::string fname(uint32_t idx) {
  char b[16];
  snprintf(b, sizeof b, "%010u", idx);
  return b;
}
bool is_datafile(const std::string &n) {
  if (n.size() != 10) return false;
  for (char c : n) if (c < '0' || c > '9') return false;
  return true;
}
static Ptr rptr(const uint8_t *d) {
  Ptr p;
  unsigned i = d[0] | d[1] << 8;
  uint32_t q = d[2] | d[3] << 8 | d[4] << 16 | (uint32_t)d[5] << 24;
  p.index = i >> 1;
  p.pos = q >> 1;
  p.size = (i & 1) << 9 | (q & 1) << 8 | d[6];
  return p;
}
View DiskDb::file(uint32_t idx) {
  View v;
  if (mapped) { auto it = mapped->files.find(idx); return it == mapped->files.end() ? v : it->second; }
  auto it = img->find(fname(idx));
  if (it == img->end()) return v;
  v.p = it->second.data(); v.n = it->second.size(); v.ok = true;
  return v;
}
MappedDir::MappedDir(const std::string &dir) {
  DIR *d = opendir(dir.c_str());
  if (!d) return;
  while (struct dirent *e = readdir(d)) {
    std::string n = e->d_name;
    if (n != "meta" && !is_datafile(n)) continue;
    int fd = open((dir + "/" + n).c_str(), O_RDONLY | O_CLOEXEC);
    struct stat st;
    if (fd < 0) continue;
    fstat(fd, &st);
    if (n == "meta") { meta.resize(st.st_size); if (pread(fd, meta.data(), meta.size(), 0) < 0) meta.clear(); }
    else {
      View v;
      v.ok = true;
      v.n = st.st_size;
      if (v.n) { void *m = mmap(nullptr, v.n, PROT_READ, MAP_SHARED, fd, 0); if (m == MAP_FAILED) v.ok = false; else v.p = (const uint8_t *)m; }
      files[(uint32_t)strtoul(n.c_str(), nullptr, 10)] = v;
    }
    close(fd);
  }
  closedir(d);
}
MappedDir::~MappedDir() { for (auto &f : files) if (f.second.p) munmap((void *)f.second.p, f.second.n); }
static bool rmeta(const uint8_t *d, const H32 &key, Ptr &prev, Ptr &root) {
  if (d[0] != 0x6c || d[1] != 0x6b || d[2] != 0x72 || d[3] != 0x6d) return false;
  uint8_t c[20];
  ref_blake2b(c, 20, d, 18, key.data(), 32);
  if (memcmp(c, d + 18, 20)) return false;
  prev = rptr(d + 4);
  root = rptr(d + 11);
  return true;
}
bool DiskDb::load(const DirImage &im) {
  img = &im;
  chain.clear();
  recs.clear();
  err.clear();
  auto m = im.find("meta");
  if (m == im.end() || m->second.size() < 32) { err = "no meta key file"; return false; }
  memcpy(key.data(), m->second.data(), 32);
  last = 0;
  uint32_t n = 0;
  for (auto &f : im) if (is_datafile(f.first)) {
    uint32_t i = (uint32_t)strtoul(f.first.c_str(), nullptr, 10);
    n++;
    if (i != n) { err = "data files not numbered 1..n: " + f.first; return false; }
    last = i;
  }
  return chain_from_last();
}
bool DiskDb::load(const MappedDir &md) {
  mapped = &md;
  chain.clear();
  recs.clear();
  err.clear();
  if (md.meta.size() < 32) { err = "no meta key file"; return false; }
  memcpy(key.data(), md.meta.data(), 32);
  last = 0;
  for (auto &f : md.files) {
    if (f.first != last + 1) { err = "data files not numbered 1..n: " + fname(f.first); return false; }
    last = f.first;
  }
  return chain_from_last();
}
bool DiskDb::chain_from_last() {
  bool found = false;
  DiskMeta dm{};
  for (uint32_t i = last; i >= 1 && !found; i--) {
    View b = file(i);
    for (size_t off = b->size() / 38 * 38; off >= 38;) {
      off -= 38;
      if (rmeta(b->data() + off, key, dm.prev, dm.root)) { dm.index = i; dm.pos = off; found = true; break; }
    }
  }
  if (!found) return true;  // empty
  for (;;) {
    chain.push_back(dm);
    Ptr p = dm.prev;
    if (p.index == 0) break;
    View b = file(p.index);
    if (!b || (size_t)p.pos + 38 > b->size()) { err = "previous-commit pointer outside its file"; return false; }
    if (p.pos % 38) { err = "commit record not aligned"; return false; }
    if (p.index > dm.index || (p.index == dm.index && p.pos >= dm.pos)) { err = "previous-commit pointer does not go back"; return false; }
    DiskMeta q{};
    if (!rmeta(b->data() + p.pos, key, q.prev, q.root)) { err = "previous commit record invalid"; return false; }
    q.index = p.index; q.pos = p.pos;
    dm = q;
  }
  return true;
}
bool DiskDb::node(const Ptr &p, H32 path_bits, unsigned depth, KV &out, H32 &hash, bool isroot, const H32 *expect,
                  std::map<H32, std::vector<Range>> *path, std::vector<Range> &stk) {
  View b = file(p.index);
  if (!b) { err = "pointer to missing file " + std::to_string(p.index); return false; }
  if ((size_t)p.pos + p.size > b->size() || p.size == 0) { err = "node pointer outside file"; return false; }
  const uint8_t *d = b->data() + p.pos;
  size_t n = p.size;
  unsigned type = d[0] & 15, fl = d[0] >> 4;
  Range rg{p.index, p.pos, (uint32_t)p.size};
  if (type == 2) {
    if (fl || n != 40) { err = "leaf record size " + std::to_string(n); return false; }
    Ptr vp = rptr(d + 1);
    H32 k;
    memcpy(k.data(), d + 8, 32);
    if (lcp(k, path_bits) < depth) { err = "leaf key not under its path"; return false; }
    Bytes v;
    View vf = file(vp.index);
    if (!vf || (size_t)vp.pos + vp.size > vf->size()) { err = "value pointer outside file"; return false; }
    v.assign(vf->data() + vp.pos, vf->data() + vp.pos + vp.size);
    ValP val = mkval(k, v);
    hash = val->leaf;
    if (expect && hash != *expect) { err = "leaf hash differs from parent record"; return false; }
    out[k] = val;
    recs.push_back({rg, 2});
    Range vr{vp.index, vp.pos, (uint32_t)vp.size};
    recs.push_back({vr, 3});
    if (path) {
      auto &x = (*path)[k];
      x = stk;
      x.push_back(rg);
      x.push_back(vr);
    }
    return true;
  }
  if (type != 1) { err = "bad node type " + std::to_string(d[0]); return false; }
  if (fl > 3 || fl == 2) { err = "bad node flags"; return false; }
  size_t o = 1;
  unsigned plen = 0;
  uint8_t pb[33] = {0};
  if (fl & 1) {
    if (fl & 2) { if (n < 3) { err = "short node"; return false; } plen = d[1] | d[2] << 8; o = 3; if (plen < 256) { err = "non-minimal prefix size"; return false; } }
    else { plen = d[1]; o = 2; if (!plen) { err = "zero prefix size"; return false; } }
    if (depth + plen >= 256) { err = "prefix beyond key"; return false; }
    memcpy(pb, d + o, (plen + 7) / 8);
    o += (plen + 7) / 8;
  }
  if (o + 78 != n) { err = "internal record size mismatch"; return false; }
  recs.push_back({rg, 1});
  H32 kb = path_bits;
  for (unsigned i = 0; i < plen; i++) {
    unsigned bit = (pb[i >> 3] >> (7 - (i & 7))) & 1;
    if (kbit(kb, depth + i) != bit) kflip(kb, depth + i);
  }
  H32 lh, rh, l2, r2;
  Ptr lp = rptr(d + o), rp = rptr(d + o + 39);
  memcpy(lh.data(), d + o + 7, 32);
  memcpy(rh.data(), d + o + 46, 32);
  if (lh == ZERO || rh == ZERO) { err = "empty child"; return false; }
  hash = rh_internal(pb, plen, lh, rh);
  if (expect && hash != *expect) { err = "internal hash differs from parent record"; return false; }
  unsigned c = depth + plen;
  stk.push_back(rg);
  H32 k0 = kb, k1 = kb;
  if (kbit(k0, c)) kflip(k0, c);
  if (!kbit(k1, c)) kflip(k1, c);
  if (!node(lp, k0, c + 1, out, l2, false, &lh, path, stk)) return false;
  if (!node(rp, k1, c + 1, out, r2, false, &rh, path, stk)) return false;
  stk.pop_back();
  return true;
}
bool DiskDb::decode(const Ptr &p, KV &out, H32 &root, std::map<H32, std::vector<Range>> *path) {
  out.clear();
  if (p.index == 0) { root = ZERO; return true; }
  std::vector<Range> stk;
  return node(p, ZERO, 0, out, root, true, nullptr, path, stk);
}

// ---------------------------------------------------------------- on-disk writer
static void wptr(Bytes &o, const Ptr &p) {
  unsigned i = p.index << 1 | ((p.size >> 9) & 1);
  uint32_t q = p.pos << 1 | ((p.size >> 8) & 1);
  o.push_back(i); o.push_back(i >> 8);
  o.push_back(q); o.push_back(q >> 8); o.push_back(q >> 16); o.push_back(q >> 24);
  o.push_back(p.size);
}
DbWriter::~DbWriter() { if (fd >= 0) close(fd); }
void DbWriter::start(const std::string &d, const H32 &k) {
  dir = d;
  key = k;
  mkdir(dir.c_str(), 0750);
  int f = open((dir + "/meta").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0640);
  if (f < 0 || write(f, key.data(), 32) != 32) abort();
  close(f);
}
Ptr DbWriter::put(const void *d, size_t n, int kind) {
  if (place && n) place(*this, n, kind);
  while (top < file) {
    int f = open((dir + "/" + fname(++top)).c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0640);
    if (f < 0) abort();
    close(f);
  }
  if (fdi != file) {
    if (fd >= 0) close(fd);
    fd = open((dir + "/" + fname(file)).c_str(), O_WRONLY | O_CLOEXEC);
    if (fd < 0) abort();
    fdi = file;
  }
  if (n && pwrite(fd, d, n, pos) != (ssize_t)n) abort();
  Ptr p;
  p.index = file;
  p.pos = (uint32_t)pos;
  p.size = kind == 4 ? 0 : n;
  pos += n;
  return p;
}
Ptr DbWriter::node(const Version &v, int i) {
  const RNode &n = v.nodes[i];
  auto it = have.find(n.hash);
  if (it != have.end()) return it->second;
  Bytes o;
  if (n.leaf) {
    Ptr vp = put(n.val->v.data(), n.val->v.size(), 3);
    o.push_back(2);
    wptr(o, vp);
    o.insert(o.end(), n.key->begin(), n.key->end());
  } else {
    Ptr l = node(v, n.l), r = node(v, n.r);
    o.push_back(n.plen == 0 ? 0x01 : n.plen < 256 ? 0x11 : 0x31);
    if (n.plen) {
      o.push_back(n.plen);
      if (n.plen >= 256) o.push_back(n.plen >> 8);
      uint8_t pb[32];
      prefix_bits(*n.key, n.depth, n.plen, pb);
      o.insert(o.end(), pb, pb + (n.plen + 7) / 8);
    }
    wptr(o, l);
    o.insert(o.end(), v.nodes[n.l].hash.begin(), v.nodes[n.l].hash.end());
    wptr(o, r);
    o.insert(o.end(), v.nodes[n.r].hash.begin(), v.nodes[n.r].hash.end());
  }
  return have[n.hash] = put(o.data(), o.size(), n.leaf ? 2 : 1);
}
Ptr DbWriter::commit(const Version &v) {
  v.build();
  Ptr root;
  if (v.top >= 0) root = node(v, v.top);
  Bytes o = {0x6c, 0x6b, 0x72, 0x6d};
  wptr(o, prev);
  wptr(o, root);
  o.resize(38);
  ref_blake2b(o.data() + 18, 20, o.data(), 18, key.data(), 32);
  uint64_t pad = (38 - pos % 38) % 38;
  if (pad) pos += pad;   // a hole reads as zeros
  return prev = put(o.data(), 38, 4);
}
