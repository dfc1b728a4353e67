/* spawn/sync programs on one worker, the other workers steal */
#include "vp_env.h"
#include LACE_C
#include "tasks.h"
#ifndef N
#define N 2
#endif
#ifndef W
#define W 2
#endif
#ifndef DQ
#define DQ 6
#endif
#ifndef PROG
#define PROG 1
#endif
TASK_1(int, leaf, int, n)
{
    t_begin(n); t_end(n, LACE_WORKER_ID);
    return 100 + n;
}
int vp_pre[4];
TASK_1(int, dummy, int, i)
{
    vp_assert(i >= 0 && i < 4 && vp_pre[i] == 0, "C01: a task of an earlier phase is executed once");
    vp_pre[i]++;
    return 50 + i;
}
/* node n with one child n+1 */
TASK_1(int, node, int, n)
{
    t_begin(n);
    SPAWN(leaf, n + 1);
    int r = SYNC(leaf);
    t_synced(n + 1, r, 101 + n, LACE_WORKER_ID);
    t_end(n, LACE_WORKER_ID);
    return 200 + n;
}
/* a chain: each task spawns the next one; while a thief has the first, its owner may execute the second, which spawns on the owner's deque */
TASK_2(int, chain, int, n, int, d)
{
    int me = LACE_WORKER_ID, r = 0;
    t_begin(n);
    if (d > 0) {
        SPAWN(chain, n + 1, d - 1);
#ifdef SHARE
        LACE_MAKE_ALL_SHARED();
#endif
        r = SYNC(chain); t_synced(n + 1, r, 10 * d + n, me);
    }
    t_end(n, me);
    return 10 * (d + 1) + n - 1;
}
/* a worker with an outstanding task steals another one: what its victim then leapfrogs is unrelated to the stolen task */
int vp_in;
TASK_0(int, hold)
{
    SPAWN(chain, 0, 1);
    LACE_MAKE_ALL_SHARED();
    vp_in = 1;
    STEAL_RANDOM();
    STEAL_RANDOM();
    int r = SYNC(chain); t_synced(0, r, 19, LACE_WORKER_ID);
    return 77;
}
TASK_1(int, root, int, x)
{
    int me = LACE_WORKER_ID, r;
#if PRE >= 1                       /* PRE shared tasks were all stolen and synced before */
    for (int i = 0; i < PRE; i++) SPAWN(dummy, i);
    LACE_MAKE_ALL_SHARED();
    for (int i = 0; i < 24 * PRE; i++) vp_point();
    for (int i = PRE - 1; i >= 0; i--) { r = SYNC(dummy); vp_assert(r == 50 + i && vp_pre[i] == 1, "C01,C02: a task of an earlier phase gives its result"); }
#endif
    vp_symbolic();
#if PROG == 1
    for (int i = 0; i < N; i++) SPAWN(leaf, i);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    for (int i = N-1; i >= 0; i--) { r = SYNC(leaf); t_synced(i, r, 100 + i, me); }
#elif PROG == 2
    SPAWN(leaf, 0); SPAWN(leaf, 1);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    r = SYNC(leaf); t_synced(1, r, 101, me);
    SPAWN(leaf, 2);
    r = SYNC(leaf); t_synced(2, r, 102, me);
    r = SYNC(leaf); t_synced(0, r, 100, me);
#elif PROG == 3
    SPAWN(node, 0);
#if N > 1
    SPAWN(leaf, 2);
#endif
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
#if N > 1
    r = SYNC(leaf); t_synced(2, r, 102, me);
#endif
    r = SYNC(node); t_synced(0, r, 200, me);
#elif PROG == 4                    /* CALL with spawns in between */
    SPAWN(leaf, 0);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    r = CALL(node, 1); vp_assert(r == 201, "C02,C06: CALL returns the result of the task");
    r = SYNC(leaf); t_synced(0, r, 100, me);
#elif PROG == 5                    /* share part by part */
    SPAWN(leaf, 0);
    LACE_MAKE_ALL_SHARED();
    SPAWN(leaf, 1);
    SPAWN(leaf, 2);
    r = SYNC(leaf); t_synced(2, r, 102, me);
    r = SYNC(leaf); t_synced(1, r, 101, me);
    r = SYNC(leaf); t_synced(0, r, 100, me);
#elif PROG == 6
    for (int i = 0; i < N; i++) {
        SPAWN(chain, 4 * i, 2);
#ifdef SHARE
        LACE_MAKE_ALL_SHARED();
#endif
        r = SYNC(chain); t_synced(4 * i, r, 29 + 4 * i, me);
        if (vp_by[4 * i] != me && vp_by[4 * i + 1] == me) vp_reach("leap");
        if (vp_by[4 * i] != me && vp_by[4 * i + 1] == me && vp_by[4 * i + 2] == me) vp_reach("leapspawn");
    }
    SPAWN(leaf, 7); r = SYNC(leaf); t_synced(7, r, 107, me);
#elif PROG == 7
    SPAWN(hold);
    LACE_MAKE_ALL_SHARED();
    while (!vp_in) vp_point();
    vp_symbolic();
    SPAWN(leaf, 5);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    r = SYNC(leaf); t_synced(5, r, 105, me);
    if (vp_by[5] != me && vp_started[0] && vp_by[0] == me) vp_reach("leap");
    SPAWN(leaf, 6);
    r = SYNC(leaf); t_synced(6, r, 106, me);
    r = SYNC(hold); vp_assert(r == 77, "C02: SYNC returns the result of its own task");
#endif
    return x + 1;
}
int main(void)
{
    lace_start(W, DQ);
    vp_settle();
    int r = RUN(root, 41);
    vp_assert(r == 42, "C02,C11: RUN returns the result");
    vp_reach("end");
    return 0;
}
