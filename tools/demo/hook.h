/* atomic_store_explicit and the fences of the real lace.c, with delays where the demo asks for them */
#include "base.h"
static __thread int before, after; /* microseconds before and after every store of this thread */
#undef atomic_store_explicit
#define atomic_store_explicit(p, v, o) ({ if (before) usleep(before); __atomic_store_n(p, v, o); if (after) usleep(after); (void)0; })
