/* What TASK_IS_STOLEN, TASK_IS_COMPLETED and TASK_RESULT say about outstanding tasks, against what happened to them.
   PROG 1 N tasks, asked about P times and again before every SYNC; 2 two tasks, a SYNC of the last in between (which may take the
   first back); 3 asked in a task about the task its parent spawned before it; 4 the last task is dropped, its slot used again
   PRE: the same slots held stolen tasks before. HB: what the task wrote, by the C11 memory orders.
   WEAK: without the claim that one worker's stores are seen at once */
#include "vp_env.h"
#include <stdint.h>
#include LACE_C
#ifndef N
#define N 2
#endif
#ifndef P
#define P 2
#endif
#ifndef W
#define W 2
#endif
int vp_st[8], vp_by[8], vp_pre[4], vp_seen_s[8], vp_seen_c[8];
TASK_1(long, leaf, int, k)
{
    vp_assert(k >= 0 && k < 8 && vp_st[k] == 0, "C01,C23: each task runs once");
    vp_by[k] = LACE_WORKER_ID; vp_st[k] = 1;
#ifdef HB
    vp_hb_read(0, "C03: data written before SPAWN is visible in the task"); vp_hb_write(1 + k);
#endif
    vp_point();
    vp_st[k] = 2;
    return 0x1234567800L + k;
}
TASK_1(long, dummy, int, i)
{
    vp_assert(i >= 0 && i < 4 && vp_pre[i] == 0, "C01: a task of an earlier phase is executed once");
    vp_pre[i]++;
    return 50 + i;
}
/* asked by worker me about its own outstanding task t, which is leaf k */
static void ask(Task *t, int k)
{
    int b = vp_st[k];
    int s1 = !!TASK_IS_STOLEN(t);
    int c = !!TASK_IS_COMPLETED(t);
    int s2 = !!TASK_IS_STOLEN(t);
    int a = vp_st[k];
#ifndef WEAK
    vp_assert(!b || s1, "C23: a task that another worker executes is stolen");
#else
    (void)b;
#endif
    vp_assert(!s1 || s2, "C23: a stolen task stays stolen");
    vp_assert(!c || s2, "C23: a completed task is stolen");
    vp_assert(!c || a == 2, "C23: a completed task has finished");
    vp_assert(!vp_seen_s[k] || s1, "C23: a stolen task stays stolen");
    vp_assert(!vp_seen_c[k] || c, "C23: a completed task stays completed");
    if (c) vp_assert(*(long *)TASK_RESULT(t) == 0x1234567800L + k, "C23: the result of a completed task");
    if (s2) { vp_seen_s[k] = 1; vp_reach("stolen"); }
#ifdef HB
    if (c) vp_hb_read(1 + k, "C23: what a completed task wrote is visible");
#endif
    if (c) { vp_seen_c[k] = 1; vp_reach("completed"); }
}
static void synced(int k, long r, int me)
{
    vp_assert(r == 0x1234567800L + k && vp_st[k] == 2, "C02,C23: SYNC gives the result of the task");
    vp_assert(!vp_seen_s[k] || vp_by[k] != me, "C23: a task is stolen only if another worker executes it");
}
TASK_2(int, peek, Task *, t, int, owner)
{
    if (LACE_WORKER_ID == owner) ask(t, 0);
    return 7;
}
TASK_1(int, root, int, x)
{
    int me = LACE_WORKER_ID; long r; Task *t0;
#if PRE >= 1
    for (int i = 0; i < PRE; i++) SPAWN(dummy, i);
    LACE_MAKE_ALL_SHARED();
    for (int i = 0; i < 24 * PRE; i++) vp_point();
    for (int i = PRE - 1; i >= 0; i--) { r = SYNC(dummy); vp_assert(r == 50 + i && vp_pre[i] == 1, "C01,C02: a task of an earlier phase gives its result"); }
#endif
    t0 = __lace_dq_head;
    vp_symbolic();
#ifdef HB
    vp_hb_write(0);
#endif
#if PROG == 1
    for (int i = 0; i < N; i++) { SPAWN(leaf, i); ask(t0 + i, i); }
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    for (int p = 0; p < P; p++) for (int i = 0; i < N; i++) ask(t0 + i, i);
    for (int i = N - 1; i >= 0; i--) { ask(t0 + i, i); r = SYNC(leaf); synced(i, r, me); }
#elif PROG == 2
    SPAWN(leaf, 0); SPAWN(leaf, 1);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    ask(t0, 0);
    r = SYNC(leaf); synced(1, r, me);
    ask(t0, 0);
    SPAWN(leaf, 2); ask(t0 + 1, 2); ask(t0, 0);
    r = SYNC(leaf); synced(2, r, me);
    ask(t0, 0);
    r = SYNC(leaf); synced(0, r, me);
#elif PROG == 3
    SPAWN(leaf, 0); SPAWN(peek, t0, me);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    int q = SYNC(peek); vp_assert(q == 7, "C02: SYNC gives the result of the task");
    ask(t0, 0);
    r = SYNC(leaf); synced(0, r, me);
#elif PROG == 4
    SPAWN(leaf, 0); SPAWN(leaf, 1);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    ask(t0 + 1, 1);
    DROP();
    vp_assert(!vp_seen_s[1] || vp_st[1] == 2 && vp_by[1] != me, "C23: a task is stolen only if another worker executes it");
    SPAWN(leaf, 2); ask(t0 + 1, 2);
    r = SYNC(leaf); synced(2, r, me);
    r = SYNC(leaf); synced(0, r, me);
#endif
    return x + 1;
}
int main(void)
{
    lace_start(W, 6);
    vp_settle();
    int r = RUN(root, 41);
    vp_assert(r == 42, "C02,C11: RUN returns the result");
    vp_reach("end");
    return 0;
}
