// Short and interrupted system calls (P10): the same history is run with and
// without them; answers (judged against the model) and files must be the same.
#include "sim.h"
static std::vector<uint64_t> once(uint64_t seed, uint64_t dseed, bool on, unsigned pct, unsigned ei, const Limits &l, int nk, int fam, int vm, int ops, long *commits, DirImage *fin) {
  std::string path = cx.dir + "/db";
  ip::rm_rf(path);
  set_limits(l);
  ip::set_det_random(true, dseed);
  Sim s(seed, path);
  s.lim = l;
  Rng kr(mix(seed, 7));
  s.kg = KeyGen::make(kr, fam, nk);
  s.vmode = vm;
  std::vector<uint64_t> h;
  auto image = [&] {
    uint64_t x = 1;
    DirImage im = ip::read_dir(path);
    for (auto &e : im) { for (char c : e.first) x = mix(x, c); H32 d = ref_hash(e.second.data(), e.second.size()); x = mix(x, *(uint64_t *)d.data()); }
    h.push_back(x);
    if (fin) *fin = im;
  };
  ip::set_short(on, mix(seed, 99), pct, ei);
  s.open();
  image();
  long last = 0;
  for (int i = 0; i < ops; i++) { s.op(); if (s.ncommits != last) { last = s.ncommits; image(); } }
  s.full_check("at the end", 3);
  s.reopen();
  s.full_check("after final reopen", 5);
  s.close_all();
  ip::set_short(false, 0, 0, 0);
  ip::set_det_random(false, 0);
  image();
  *commits = s.ncommits;
  return h;
}
void run_short() {
  Rng r(mix(cx.seed, mix(cx.cas, 0x5407)));
  Limits l = gen_limits(r, !r.chance(20));
  int nk = r.range(2, 60), fam = cx.cas % NFAM, vm = r.below(5), ops = r.range(15, cx.thorough ? 250 : 110);
  uint64_t s = r.next(), d = r.next();
  long c1, c2;
  DirImage f1, f2;
  static const unsigned P[][2] = {{100, 0}, {95, 30}, {50, 20}, {0, 60}, {10, 90}, {100, 50}, {30, 5}};
  const unsigned *p = P[r.below(7)];
  std::vector<uint64_t> a = once(s, d, false, 0, 0, l, nk, fam, vm, ops, &c1, &f1);
  long s0 = ip::n_short, e0 = ip::n_eintr;
  std::vector<uint64_t> b = once(s, d, true, p[0], p[1], l, nk, fam, vm, ops, &c2, &f2);
  cx.add("short_calls", ip::n_short - s0);
  cx.add("interrupted_calls", ip::n_eintr - e0);
  cx.add("images_compared", a.size());
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  std::string diff;
  for (auto &e : f1) {
    auto it = f2.find(e.first);
    if (it == f2.end()) { diff += " " + e.first + " missing"; continue; }
    if (it->second == e.second) continue;
    size_t o = 0;
    while (o < e.second.size() && o < it->second.size() && e.second[o] == it->second[o]) o++;
    diff += " " + e.first + ": " + std::to_string(e.second.size()) + " vs " + std::to_string(it->second.size()) + " bytes, first difference at " + std::to_string(o);
  }
  for (auto &e : f2) if (!f1.count(e.first)) diff += " extra " + e.first;
  ORACLE(M(P10), c1 == c2 && a.size() == b.size() && i == a.size(), "short-files", "with %u%% short and %u%% interrupted calls the files differ after commit %zu of %ld; at the end:%s", p[0], p[1], i, c1, diff.c_str());
  if (c1) cx.seen("cases", mix(mix(p[0], p[1]), a.back()));
  cx.sample("case " + std::to_string(cx.cas) + ": " + std::to_string(ops) + " ops, " + std::to_string(c1) + " commits, " + std::to_string(ip::n_short - s0) + " short and " + std::to_string(ip::n_eintr - e0) + " interrupted calls, files identical at " + std::to_string(a.size()) + " points");
}
