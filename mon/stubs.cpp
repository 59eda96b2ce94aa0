#include "mon.h"
#define W(x) __attribute__((weak)) void x() { harness_error("mode not built"); }

