// Independent reference implementation: BLAKE2b, canonical tree, canonical
// proofs, proof verification, on-disk decoding.  Shares no code with liburkel.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

typedef std::array<uint8_t, 32> H32;
typedef std::vector<uint8_t> Bytes;

std::string hex(const void *p, size_t n);
inline std::string hex(const H32 &h) { return hex(h.data(), 32); }
inline std::string hexs(const H32 &h) { return hex(h.data(), 6); }
bool unhex(const std::string &s, Bytes &out);

void ref_blake2b(uint8_t *out, size_t outlen, const void *data, size_t len,
                 const void *key = nullptr, size_t keylen = 0);
H32 ref_hash(const void *data, size_t len);

struct Val {
  Bytes v;
  H32 vhash;
  H32 leaf;  // leaf hash for the key it was made for
  Val(const H32 &key, const Bytes &b);
};
typedef std::shared_ptr<const Val> ValP;
typedef std::map<H32, ValP> KV;

ValP mkval(const H32 &key, const Bytes &b);

extern const H32 ZERO;

inline unsigned kbit(const H32 &k, unsigned i) {
  return (k[i >> 3] >> (7 - (i & 7))) & 1;
}
inline void kflip(H32 &k, unsigned i) { k[i >> 3] ^= 1 << (7 - (i & 7)); }

// An immutable version of the contents with its canonical tree.
struct RNode {
  bool leaf;
  unsigned depth;  // depth at which this node sits (before its prefix)
  unsigned plen;   // prefix length (internal only)
  int l, r;        // children (internal) 
  const H32 *key;  // some key below
  const Val *val;  // leaf only
  H32 hash;
};

struct Version {
  KV kv;
  H32 root;
  mutable std::vector<RNode> nodes;
  mutable int top = -1;
  mutable bool built = false;
  void build() const;
  // canonical proof bytes
  Bytes prove(const H32 &key) const;
  unsigned max_depth() const;
};
typedef std::shared_ptr<const Version> VerP;
VerP mkversion(const KV &kv);
H32 ref_root(const KV &kv);

// hash helpers
H32 rh_leaf(const H32 &key, const H32 &vhash);
H32 rh_internal(const uint8_t *pbits, unsigned plen, const H32 &l, const H32 &r);

// Decoded proof.
struct PNode {
  unsigned plen = 0;
  uint8_t pbits[32] = {0};
  H32 hash;
};
struct Proof {
  unsigned type = 0, depth = 0;
  std::vector<PNode> nodes;
  unsigned plen = 0;
  uint8_t pbits[32] = {0};
  H32 left, right;  // SHORT
  H32 key, vhash;   // COLLISION
  Bytes value;      // EXISTS
};
enum { T_DEADEND = 0, T_SHORT = 1, T_COLLISION = 2, T_EXISTS = 3 };
Bytes proof_encode(const Proof &p);
bool proof_decode(const Bytes &b, Proof &p);
// Returns urkel error code (0 = ok).
int proof_verify(const Bytes &b, const H32 &key, const H32 &root, bool &exists, Bytes &value);
Proof proof_of(const Version &v, const H32 &key);

// On-disk reader.
typedef std::map<std::string, Bytes> DirImage;
struct Ptr {
  uint32_t index = 0, pos = 0, size = 0;
};
struct DiskMeta {
  uint32_t index, pos;
  Ptr prev, root;
};
struct Range {
  uint32_t index, pos, len;
};
struct View { const uint8_t *p = nullptr; size_t n = 0; bool ok = false; const uint8_t *data() const { return p; } size_t size() const { return n; } explicit operator bool() const { return ok; } const View *operator->() const { return this; } };
// read-only maps of the data files of a directory (for files too big to copy)
struct MappedDir {
  std::map<uint32_t, View> files;
  Bytes meta;
  explicit MappedDir(const std::string &dir);
  ~MappedDir();
};
struct DiskDb {
  const DirImage *img = nullptr;
  const MappedDir *mapped = nullptr;
  H32 key;
  uint32_t last = 0;
  std::vector<DiskMeta> chain;  // newest first
  std::string err;
  bool load(const DirImage &im);
  bool load(const MappedDir &md);
  // Decode the tree at root pointer `p`. Returns false and sets err on any
  // inconsistency. If `path` is given collects byte ranges per key.
  bool decode(const Ptr &p, KV &out, H32 &root, std::map<H32, std::vector<Range>> *path = nullptr);
  // collects all (index,pos,len,kind) node records reachable, kind 1 internal 2 leaf 3 value
  struct Rec { Range r; int kind; };
  std::vector<Rec> recs;
private:
  View file(uint32_t idx);
  bool chain_from_last();
  bool node(const Ptr &p, H32 prefixbits, unsigned depth, KV &out, H32 &hash, bool isroot,
            const H32 *expect, std::map<H32, std::vector<Range>> *path, std::vector<Range> &stk);
};
// Writes a database directory in the documented format, placing records where it is told to.
struct DbWriter {
  std::string dir;
  H32 key;
  uint32_t file = 1;
  uint64_t pos = 0;
  std::function<void(DbWriter &, size_t len, int kind)> place;   // may move (file, pos) before a record; kind 1 internal 2 leaf 3 value 4 meta
  Ptr prev;
  std::map<H32, Ptr> have;
  void start(const std::string &d, const H32 &k);
  Ptr commit(const Version &v);      // -> pointer of its commit record
  ~DbWriter();
private:
  uint32_t top = 0;
  int fd = -1;
  uint32_t fdi = 0;
  Ptr put(const void *d, size_t n, int kind);
  Ptr node(const Version &v, int i);
};
std::string fname(uint32_t idx);
bool is_datafile(const std::string &n);

// PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
  bool chance(unsigned pct) { return below(100) < pct; }
  void fill(void *p, size_t n) {
    uint8_t *b = (uint8_t *)p;
    for (size_t i = 0; i < n; i++) b[i] = (uint8_t)next();
  }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
uint64_t mix(uint64_t a, uint64_t b);
