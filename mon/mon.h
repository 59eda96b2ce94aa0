#pragma once
#include <cstdarg>
#include <functional>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
extern "C" {
#include <urkel.h>
}
#include "ip.h"
#include "ref.h"

extern "C" {
extern uint64_t urkel_verif_max_file_size __attribute__((weak));
extern size_t urkel_verif_write_buffer __attribute__((weak));
extern size_t urkel_verif_read_buffer __attribute__((weak));
extern size_t urkel_verif_max_open_files __attribute__((weak));
}
struct Limits {
  uint64_t max_file;
  size_t wbuf, rbuf, max_open;
};
extern Limits real_limits;
void set_limits(const Limits &l);
Limits get_limits();

enum { P01 = 1, P02, P03, P04, P05, P06, P07, P08, P09, P10, P11, P12, P13, P14, P15, P16, P17, P18, P19, P20, P21, P22, P23, P24 };
typedef uint32_t Mask;
inline Mask M() { return 0; }
template <class... T> inline Mask M(int p, T... r) { return (1u << p) | M(r...); }

struct CaseEnd { };   // thrown after a violation

struct Ctx {
  int prop = 0;
  uint64_t seed = 1;
  long cas = 0;
  long ncases = 0;
  bool thorough = false, trace = false;
  std::string dir;   // scratch
  std::map<std::string, long> stats;
  std::map<std::string, std::unordered_set<uint64_t>> distinct;
  std::vector<std::string> samples;
  std::vector<std::string> tr;
  struct V { std::string key, detail; long cas; };
  std::vector<V> viols;
  std::map<std::string, std::string> opt;

  bool wants(Mask m) const { return m >> prop & 1; }
  void add(const char *k, long n = 1) { stats[k] += n; }
  void seen(const char *k, uint64_t h) { auto &s = distinct[k]; if (s.size() < 400000) s.insert(h); }
  void sample(const std::string &s) { if (samples.size() < 6) samples.push_back(s); }
  void t(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  // report if the property being checked is in the mask
  bool viol(Mask m, const char *key, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
};
extern Ctx cx;
#define T(...) do { if (cx.trace) cx.t(__VA_ARGS__); } while (0)
#define ORACLE(mask, cond, key, ...) do { if (cx.wants(mask)) { cx.add("oracle_evaluations"); if (!(cond)) cx.viol(mask, key, __VA_ARGS__); } } while (0)
void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void save_progress();

// ---- API wrappers with exact-size buffers; errno is pre-set to a sentinel.
const int ESENT = 0x5a5a;
struct Res { int ret = 0, err = 0; Bytes v; size_t size = 0; };
const char *ename(int e);
Res a_get(urkel_t *db, const H32 &k, const H32 *root, long expect_size = -1);
Res a_tx_get(urkel_tx_t *tx, const H32 &k, long expect_size = -1);
Res a_has(urkel_t *db, const H32 &k, const H32 *root);
Res a_tx_has(urkel_tx_t *tx, const H32 &k);
Res a_insert(urkel_t *db, const H32 &k, const Bytes &v);
Res a_tx_insert(urkel_tx_t *tx, const H32 &k, const Bytes &v);
Res a_remove(urkel_t *db, const H32 &k);
Res a_tx_remove(urkel_tx_t *tx, const H32 &k);
Res a_prove(urkel_t *db, const H32 &k, const H32 *root);
Res a_tx_prove(urkel_tx_t *tx, const H32 &k);
H32 a_root(urkel_t *db);
H32 a_tx_root(urkel_tx_t *tx);
Res a_inject(urkel_t *db, const H32 &h);
Res a_tx_inject(urkel_tx_t *tx, const H32 &h);
Res a_commit(urkel_tx_t *tx);
urkel_tx_t *a_tx_create(urkel_t *db, const H32 *root, int *err = nullptr);
urkel_t *a_open(const std::string &path, int *err = nullptr);
Res a_destroy(const std::string &path);
struct VRes { int ret, err, exists; Bytes value; size_t len; };
VRes a_verify(const Bytes &proof, const H32 &key, const H32 &root);
// full walk; returns records, final ret/err of the terminating call
struct IterRes { std::vector<std::pair<H32, Bytes>> recs; int err = 0; bool sticky_end = true; };
IterRes a_walk(urkel_iter_t *it, long limit = -1, bool values = true);

// ---- generators
struct KeyGen {
  int fam;
  std::vector<H32> keys;
  static KeyGen make(Rng &r, int fam, int n);
  H32 absent(Rng &r) const;  // near-miss or random
};
const int NFAM = 10;
Bytes gen_value(Rng &r, int mode);
Limits gen_limits(Rng &r, bool scaled);

std::string kvdiff(const KV &want, const IterRes &got);
bool same(const KV &want, const IterRes &got);
bool kv_eq(const KV &a, const KV &b);

void run_sim();
void run_proof();
void run_crash();
void run_power();
void run_fault();
void run_short();
void run_conc();
void run_lin();
void run_proc();
void run_path();
void run_big();
void run_hash();
void run_damage();
void run_cost();
