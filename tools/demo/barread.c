/* The worker that opens the barrier is held up at each of its stores. */
#include "base.h"
#undef atomic_store_explicit
static __thread int held;
#define atomic_store_explicit(p, v, o) ({ __atomic_store_n(p, v, o); if (held) usleep(2000); (void)0; })
#include "lace.c"
static atomic_int n;
VOID_TASK_0(all) { held = 1; for (int i = 0; i < 20; i++) { n++; lace_barrier(); if (n < 2 * (i + 1)) fail("early"); lace_barrier(); } held = 0; }
int main(void) { limit(60); lace_start(2, 100); for (int i = 0; i < 5; i++) { n = 0; TOGETHER(all); } lace_stop(); return 0; }
