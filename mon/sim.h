#pragma once
#include "mon.h"
struct TxS { urkel_tx_t *tx; KV kv; };
struct Sim {
  Rng r;
  std::string path;
  urkel_t *db = nullptr;
  std::map<H32, VerP> hist;
  std::vector<H32> order;
  VerP last, def, empty;
  VerP inflight;   // what the commit now running would establish
  std::vector<TxS> txs;
  std::vector<H32> hot;
  KeyGen kg;
  int vmode = 0;
  Limits lim;
  long ncommits = 0, opens = 0;
  uint64_t opmask = 0;
  DirImage img, before;
  Sim *other = nullptr;       // another database open in this process
  static int nopen;           // databases open
  Sim(uint64_t seed, const std::string &p);
  ~Sim();
  H32 any_key();
  Bytes value(const KV &kv, const H32 &k);
  void touch(const H32 &k);
  H32 known_root();
  H32 unknown_root();
  void open();
  void close_all();
  void reopen();
  void committed(VerP v);
  void check_disk();
  void snap();
  void unchanged(const char *what);
  void full_check(const char *why, int nh);
  void view_check(VerP v, const H32 *root, Mask m, const char *why, int nprobe);
  void tx_check(TxS &t, const char *why, int nprobe);
  bool no_destroy = false;   // a destroy cut short leaves nothing to recover
  bool fail_sync = false;   // now and then the first sync of a commit fails, and the commit is then repeated
  void op();
};
void check_read(Mask m, const char *what, const Res &g, const KV &kv, const H32 &k);
void check_verify(const VerP &v, const H32 &k, const Bytes &proof, const H32 &root, Mask m);
