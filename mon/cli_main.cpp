// Linked with the command-line tool: confines it to URKEL_GUARD and injects faults on request.
#include <stdlib.h>
#include <stdio.h>
#include "ip.h"
__attribute__((constructor)) static void setup() {
  const char *g = getenv("URKEL_GUARD");
  if (g) ip::set_guard(g);
  const char *f = getenv("URKEL_FAULT");
  if (f) {
    ip::Fault x;
    int cls = -1, err = 5;
    long nth = 0, partial = 0, repeat = 1;
    if (sscanf(f, "%d:%ld:%d:%ld:%ld", &cls, &nth, &err, &partial, &repeat) == 5) { x.cls = cls; x.nth = nth; x.err = err; x.partial = partial; x.repeat = repeat; ip::arm(x); }
  }
  const char *s = getenv("URKEL_SHORT");
  if (s) ip::set_short(true, strtoull(s, nullptr, 10), 60, 30);
}
__attribute__((destructor)) static void report() {
  auto e = ip::take_escapes();
  if (!e.empty()) fprintf(stderr, "ESCAPE %s\n", e[0].c_str());
  if (getenv("URKEL_FAULT")) fprintf(stderr, "FIRED %ld\n", ip::fired());
  ip::Res l = ip::live();
  if (l.allocs || l.fds || l.dirs) fprintf(stderr, "LEFT %ld %ld %ld\n", l.allocs, l.fds, l.dirs);
}
