// The hash function (P18): every length, alignment and thread, read-only input
// between inaccessible pages, sizes past every counter boundary; against the
// reference BLAKE2b and known answers.
#include <errno.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
#include "mon.h"
namespace {
H32 hash_of(const void *p, size_t n, unsigned out_align) {
  // output in an exact-size block: a write past 32 bytes is caught by ASan or by the frame
  uint8_t *o = (uint8_t *)malloc(16 + out_align + 32);
  memset(o, 0xa5, 16 + out_align + 32);
  int e = 0x5a5a;
  errno = e;
  urkel_hash(o + 16 + out_align, p, n);
  H32 h;
  memcpy(h.data(), o + 16 + out_align, 32);
  for (unsigned i = 0; i < 16 + out_align; i++) ORACLE(M(P18), o[i] == 0xa5, "output", "bytes before the output were written (length %zu)", n);
  free(o);
  return h;
}
// a buffer whose last byte is followed, or whose first byte is preceded, by an inaccessible page
struct Guarded {
  uint8_t *m; size_t total, pg = sysconf(_SC_PAGESIZE);
  explicit Guarded(size_t cap) {
    total = (cap + pg - 1) / pg * pg + 2 * pg;
    m = (uint8_t *)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) harness_error("mmap");
    mprotect(m, pg, PROT_NONE);
    mprotect(m + total - pg, pg, PROT_NONE);
  }
  ~Guarded() { munmap(m, total); }
  uint8_t *end(size_t n) { return m + total - pg - n; }
  uint8_t *begin() { return m + pg; }
  void lock(bool ro) { mprotect(m + pg, total - 2 * pg, ro ? PROT_READ : PROT_READ | PROT_WRITE); }
};
void content(Rng &r, uint8_t *p, size_t n) {
  switch (r.below(6)) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xff, n); break;
    case 2: for (size_t i = 0; i < n; i++) p[i] = i; break;
    case 3: memset(p, 0, n); if (n) p[n - 1 - r.below(n < 130 ? n : 130)] = 1 << r.below(8); break;
    default: r.fill(p, n);
  }
}
void kat() {
  static const char *K[] = {"0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8", "bddd813c634239723171ef3fee98579b94964e3bb1cb3e427262c8c068d52319",
                            "39a7eb9fedc19aabc83425c6755dd90e6f9d0c804964a1f4aaeea3b9fb599835", "a99f9e9e25426ef3e7b08471796a42a176fdca040637e3d8f4740c2ea6a014ea"};
  Bytes in[4];
  in[1] = {'a', 'b', 'c'};
  for (int i = 0; i < 256; i++) in[2].push_back(i);
  in[3].assign(1000000, 0xff);
  for (int i = 0; i < 4; i++) {
    if (hex(ref_hash(in[i].data(), in[i].size())) != K[i]) harness_error("the reference BLAKE2b is wrong");
    H32 h = hash_of(in[i].data(), in[i].size(), 0);
    ORACLE(M(P18), hex(h) == K[i], "digest", "known answer %d: got %s, want %s", i, hex(h).c_str(), K[i]);
  }
  H32 h = hash_of(nullptr, 0, 0);
  ORACLE(M(P18), hex(h) == K[0], "digest", "null pointer and length 0: got %s", hex(h).c_str());
}
void check_at(const uint8_t *p, size_t n, const H32 &want, const char *how, unsigned oa) {
  H32 g = hash_of(p, n, oa);
  cx.add("digests");
  ORACLE(M(P18), g == want, "digest", "length %zu, %s: got %s, want %s", n, how, hex(g).c_str(), hex(want).c_str());
}
void small(Rng &r, size_t n, bool all) {
  static Guarded *g = new Guarded(2 << 20);
  g->lock(false);
  uint8_t *e = g->end(n);
  content(r, e, n);
  H32 want = ref_hash(e, n);
  g->lock(true);   // a write to the input is fatal from here
  check_at(e, n, want, "at the end of a page", r.below(17));
  check_at(e, n, want, "again", r.below(17));
  int na = all ? 16 : 3;
  Bytes copy(e, e + n);
  g->lock(false);
  for (int i = 0; i < na; i++) {
    unsigned al = all ? i : r.below(64);
    memcpy(g->begin() + al, copy.data(), n);
    g->lock(true);
    check_at(g->begin() + al, n, want, al ? "at another alignment" : "at the beginning of a page", al);
    g->lock(false);
  }
  // exact-size heap block
  uint8_t *hp = (uint8_t *)malloc(n ? n : 1);
  memcpy(hp, copy.data(), n);
  check_at(hp, n, want, "in a heap block", 0);
  free(hp);
  cx.seen("lengths", mix(n, 7));
  cx.seen("cases", mix(n, *(const uint64_t *)want.data()));
}
void threads(Rng &r) {
  int nt = r.range(2, 12);
  std::vector<Bytes> in(nt);
  std::vector<H32> want(nt);
  Bytes shared(r.below(5000));
  content(r, shared.data(), shared.size());
  H32 sw = ref_hash(shared.data(), shared.size());
  for (int i = 0; i < nt; i++) { in[i].resize(r.below(3000)); content(r, in[i].data(), in[i].size()); want[i] = ref_hash(in[i].data(), in[i].size()); }
  std::vector<long> bad(nt, 0);
  std::vector<std::thread> th;
  std::atomic<int> ready{0};
  for (int i = 0; i < nt; i++)
    th.emplace_back([&, i] {
      ready++;
      while (ready < nt) sched_yield();
      for (int k = 0; k < 60; k++) {
        H32 h;
        urkel_hash(h.data(), in[i].data(), in[i].size());
        if (h != want[i]) bad[i]++;
        urkel_hash(h.data(), shared.data(), shared.size());
        if (h != sw) bad[i]++;
      }
    });
  for (auto &t : th) t.join();
  for (int i = 0; i < nt; i++) ORACLE(M(P18), bad[i] == 0, "threads", "thread %d of %d got %ld wrong digests", i, nt, bad[i]);
  cx.add("digests", nt * 120);
  cx.add("thread_digests", nt * 120);
  cx.seen("cases", mix(nt, *(const uint64_t *)sw.data()));
}
// n bytes: a 16 MB pattern mapped again and again, read only
void huge(Rng &r, uint64_t n) {
  const size_t B = 16 << 20;
  int fd = memfd_create("pattern", 0);
  if (fd < 0 || ftruncate(fd, B)) harness_error("memfd");
  uint8_t *w = (uint8_t *)mmap(nullptr, B, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (w == MAP_FAILED) harness_error("mmap");
  r.fill(w, B);
  size_t len = (n + B - 1) / B * B;
  uint8_t *p = (uint8_t *)mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) harness_error("mmap %zu", len);
  for (size_t o = 0; o < len; o += B) if (mmap(p + o, B, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) harness_error("mmap fixed");
  munmap(w, B);
  close(fd);
  H32 want, got;
  std::thread t([&] { want = ref_hash(p, n); });
  urkel_hash(got.data(), p, n);
  t.join();
  munmap(p, len);
  cx.add("digests");
  cx.add("huge_digests");
  if (n >= 1ull << 32) cx.add("past_4_gigabytes");
  cx.seen("lengths", mix(n, 7));
  ORACLE(M(P18), got == want, "digest", "length %llu: got %s, want %s", (unsigned long long)n, hex(got).c_str(), hex(want).c_str());
}
}
void run_hash() {
  Rng r(mix(cx.seed, mix(cx.cas, 0x4a54)));
  if (cx.opt.count("huge")) {
    static const uint64_t N[] = {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 129, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 77, (1ull << 29) + 5, (1ull << 33) + 300};
    uint64_t n = cx.cas < 8 ? N[cx.cas] : (1ull << r.range(26, 33)) + r.below(100000) - 50000;
    huge(r, n);
    cx.seen("cases", mix(n, 3));
    cx.sample("case " + std::to_string(cx.cas) + ": " + std::to_string(n) + " bytes");
    return;
  }
  if (cx.cas == 0) kat();
  if (cx.opt.count("threads")) { threads(r); return; }
  size_t n;
  bool all = cx.cas <= 1300;
  if (cx.cas <= 4300) n = cx.cas;
  else if (r.chance(50)) n = 128 * r.below(64) + r.below(5) - (r.chance(50) ? 2 : 0), n = n > (1 << 20) ? 0 : n;
  else if (r.chance(80)) n = r.below(20000);
  else n = r.below(1 << 20);
  small(r, n, all);
  cx.sample("case " + std::to_string(cx.cas) + ": length " + std::to_string(n));
}
