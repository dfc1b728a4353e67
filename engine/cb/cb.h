/* harness vocabulary for CBMC; the same file compiles natively for replays */
#ifndef CB_H
#define CB_H
#include <stdint.h>
#include <stddef.h>
#ifdef VP_REPLAY
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
static uint64_t vp_in[256] = {
#include "vp_in.inc"
};
#define IN(k) (vp_in[k])
static void vp_fail(const char *m) { fprintf(stderr, "REPLAY %s\n", m); _exit(10); }
#define ASSERT(c, m) do { if (!(c)) vp_fail(m); } while (0)
static void vp_unmet(const char *m) { fprintf(stderr, "assumption not met: %s\n", m); _exit(12); }
#define ASSUME(c) do { if (!(c)) vp_unmet(#c); } while (0)
#define REACH(l) ((void)0)
#else
static uint64_t vp_in[256];
uint64_t nondet_u64(void);
#define IN(k) (vp_in[k] = nondet_u64())
#ifdef VP_REACH
#define ASSERT(c, m) ((void)(c))
#define REACH(l) __CPROVER_assert(0, "REACH " l)
#else
#define ASSERT(c, m) __CPROVER_assert(c, m)
#define REACH(l) ((void)0)
#endif
#define ASSUME(c) __CPROVER_assume(c)
#endif
#endif
