// Interposer between liburkel and libc (linked with -Wl,--wrap=...).
// Compiled WITHOUT sanitizers, and uses no pthread synchronisation, so that it
// never adds happens-before edges that could hide a race from ThreadSanitizer.
#pragma once
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include "ref.h"

namespace ip {

enum Cls {
  C_OPEN, C_READ, C_PREAD, C_WRITE, C_FTRUNC, C_UNLINK, C_MKDIR, C_RMDIR, C_MMAP, C_MUNMAP,
  C_CLOSE, C_FCNTL, C_FSTAT, C_STAT, C_OPENDIR, C_READDIR, C_RENAME, C_FSYNC, C_TRUNC, NCLS
};
extern const char *cls_name[NCLS];

struct Op {
  int cls;
  const char *path;
  int fd;
  const void *data;
  size_t len;
  int64_t off;
  int flags;
};

// ---- containment guard / effect log
void set_guard(const std::string &root);   // mutating path operations outside are refused and recorded
std::vector<std::string> take_escapes();
extern bool old_kernel;                    // open() knows no O_CLOEXEC (EINVAL)
extern long n_old_kernel;
extern bool log_effects;                   // record successful mutating path operations
std::vector<std::string> take_effects();   // "verb path"

// ---- mutation callback (crash-point enumeration)
extern void (*on_sync)(const char *path);  // called after a successful fsync or fdatasync
extern void (*on_mut)(const Op &op);       // called before a mutating call on a path under the guard

// ---- faults
struct Fault {
  int cls = -1;        // class to count (-1 = any faultable class)
  long nth = 0;        // 1-based index among calls of that class since arm()
  int err = 5;
  long partial = 0;    // write/read: >0: first complete that many bytes (short count), then fail the next call
  long repeat = 1;     // number of consecutive failing calls (of the class); -1 = until disarm
};
void arm(const Fault &f);
void arm_random(uint64_t seed, unsigned permille, uint32_t clsmask);
void disarm();
long fired();                       // failures injected since arm
long calls(int cls);                // calls since arm (cls<0: all faultable)
void reset_calls();
struct Short {                      // short / interrupted I/O
  bool on = false;
  unsigned pct = 50;
  unsigned eintr_pct = 20;
};
void set_short(bool on, uint64_t seed, unsigned pct, unsigned eintr);
extern long n_short, n_eintr;
std::string last_fault();           // description of the last injected failure

// ---- deterministic randomness for the library
void set_det_random(bool on, uint64_t seed);

// ---- resource ledgers
struct Res { long allocs, fds, dirs, maps; size_t bytes; };
Res live();                          // live resources acquired through the library
size_t mark();                       // ledger sequence number
std::string leak_report(size_t since);
extern std::atomic<long> n_unknown, n_slack, n_alloc, n_sys, n_readbytes;
extern bool count_mapreads;          // count the library's copies out of mapped files (single-threaded, ASan build)
extern long n_mapread;
long max_wr_fds();                   // high-water mark of simultaneously open descriptors
void reset_max_fds();
extern long fail_alloc_after;

// ---- threads
extern std::atomic<int> jitter_permille;  // probability of a delay at a scheduling point
void threads_reset(int n);   // before starting n threads
void thread_begin(int slot, uint64_t seed);
void thread_end();
void sched_point();
extern void (*on_sched)();   // called at every scheduling point of a registered thread
bool deadlocked(std::string *why);       // true: all unfinished registered threads wait on locks held by waiting threads
bool all_done(int n);
uint64_t epochs();
extern std::atomic<long> n_lock, n_delay, n_contended;

// ---- raw helpers (not interposed)
bool read_file(const std::string &p, Bytes &out);
bool write_file(const std::string &p, const void *d, size_t n);
DirImage read_dir(const std::string &d);   // regular files only
std::vector<std::string> list_dir(const std::string &d);
size_t file_size(const std::string &p);
void write_dir(const std::string &d, const DirImage &im);  // replaces content
void rm_rf(const std::string &p);          // only under the guard root
void mkdir_p(const std::string &p);
bool exists(const std::string &p);
int nfds();                                // open descriptors of this process
uint64_t now_ns();
}  // namespace ip
