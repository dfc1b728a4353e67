/* a deque of DQ slots; NSP tasks are spawned. INNER: then, with these tasks outstanding, 1 RUN, 2 RUNEX, 3 NEWFRAME,
   4 TOGETHER of a task that spawns EXTRA tasks,
   5 a function that uses LACE_VARS */
#define VP_EXIT(c) do { vp_assert(vp_expect_exit, "C05: the program is not ended while there is room in the deque"); vp_assert((c) != 0, "C05: overflow exits with an error"); vp_reach("exit"); vp_exited = 1; } while (0)
static int vp_expect_exit, vp_exited;
#include "vp_env.h"
#include LACE_C
#include "tasks.h"
#ifndef DQ
#define DQ 2
#endif
#ifndef NSP
#define NSP 3
#endif
TASK_1(int, leaf, int, n)
{
    t_begin(n); t_end(n, LACE_WORKER_ID);
    return 100 + n;
}
#ifdef INNER
int vp_inner;
TASK_1(int, inner, int, n)
{
    vp_inner++;
    if (LACE_WORKER_ID) return 9;
    for (int i = 0; i < EXTRA; i++) {
        if (NSP + i == DQ) vp_expect_exit = 1;
        SPAWN(leaf, NSP + i);
        vp_assert(NSP + i < DQ, "C05: one task more than the deque holds ends the program");
    }
    for (int i = EXTRA - 1; i >= 0; i--) { int r = SYNC(leaf); t_synced(NSP + i, r, 100 + NSP + i, LACE_WORKER_ID); }
    return 9;
}
int __attribute__((noinline)) inner_CALL_(int n) { LACE_VARS; return CALL(inner, n); }
#endif
TASK_1(int, root, int, x)
{
    int me = LACE_WORKER_ID, r;
    vp_symbolic();
    for (int i = 0; i < NSP; i++) {
        if (i == DQ) vp_expect_exit = 1;
        SPAWN(leaf, i);
        vp_assert(i < DQ, "C05: one task more than the deque holds ends the program");
#ifdef SHARE
        LACE_MAKE_ALL_SHARED();
#endif
    }
#ifdef INNER
#if INNER == 1
    r = RUN(inner, 5);
#elif INNER == 2
    r = RUNEX(inner, 5);
#elif INNER == 5
    r = inner_CALL_(5);
#elif INNER == 3
    r = NEWFRAME(inner, 5);
#else
    TOGETHER(inner, 5); r = 9; vp_assert(vp_inner == 2, "C05,C09: TOGETHER runs on each worker");
#endif
    vp_assert(r == 9 && vp_inner >= 1, "C05,C11: the result of a task started inside a worker");
    vp_reach("inner");
#endif
    for (int i = NSP-1; i >= 0; i--) { r = SYNC(leaf); t_synced(i, r, 100 + i, me); }
    return x + 1;
}
int main(void)
{
    lace_start(2, DQ);
    vp_settle();
    int r = RUN(root, 41);
    vp_assert(r == 42, "C05: RUN returns the result");
    vp_reach("end");
    return 0;
}
