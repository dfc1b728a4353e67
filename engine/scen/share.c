/* Work is shared on demand. Worker 2 looks for work with STEAL_RANDOM, worker 1 owns tasks.
   PRE: what the owner does while the thief may be trying already (symbolic schedule):
     K tasks are spawned (SH of them made shared), some of them may be stolen
   then the thief tries once more; if it found nothing, and then the owner does one more operation (NEXT 0 SPAWN,
   1 SYNC of the newest task, with older unstolen tasks, 2 LACE_MAKE_ALL_SHARED), the thief finds a task
   (2: every task) even though the owner does nothing else. */
#include "vp_env.h"
#include LACE_C
#ifndef K
#define K 2
#endif
#ifndef SH
#define SH 1
#endif
#ifndef NEXT
#define NEXT 0
#endif
#ifndef TRIES
#define TRIES 0        /* attempts of the thief while the owner prepares */
#endif
int vp_st[8], vp_n, vp_in, vp_go, vp_ready, vp_miss, vp_tried, vp_asked, vp_after, vp_end, vp_owner;
TASK_1(int, leaf, int, n)
{
    vp_assert(n >= 0 && n < 8 && vp_st[n] == 0, "C19,C01: a task runs once");
    vp_st[n]++;
    if (LACE_WORKER_ID != vp_owner && n < 7) vp_n++;
    return 100 + n;
}
VOID_TASK_0(nop) { vp_asked++; }
TASK_0(int, driver)
{
    vp_in = 1;
    while (!vp_go) vp_point();
    for (int i = 0; i < TRIES; i++) STEAL_RANDOM();
    while (!vp_ready) vp_point();
    int before = vp_n;
    STEAL_RANDOM();
    vp_miss = vp_n == before;
    vp_tried = 1;
    while (!vp_after) vp_point();
    before = vp_n;
    for (int i = 0; i < (NEXT == 2 ? K : 1); i++) STEAL_RANDOM();
#if NEXT == 2
    vp_assert(vp_n == K, "C19: after LACE_MAKE_ALL_SHARED every outstanding task can be stolen");
    vp_reach("served");
#else
    if (vp_miss) { vp_assert(vp_n == before + 1, "C19: a thief that found nothing is served by the next operation of its victim"); vp_reach("served"); }
#endif
    vp_end = 1;
    return 1;
}
TASK_0(int, root)
{
    int n = 0, r;
    vp_owner = LACE_WORKER_ID;
#ifdef EMPTY                            /* earlier tasks were spawned and synced by the owner itself */
    SPAWN(leaf, 7); r = SYNC(leaf);
#endif
#ifdef FRAME                            /* a frame interrupts while the tasks so far were all stolen (1) or synced (2) or one is outstanding (3) */
#if FRAME == 3
    SPAWN(leaf, 7);
#elif FRAME == 1
    SPAWN(leaf, 7);
    LACE_MAKE_ALL_SHARED();
    while (!vp_st[7]) vp_point();
    r = SYNC(leaf);
#endif
#ifdef TOG
    TOGETHER(nop);
#else
    NEWFRAME(nop);
#endif
#if FRAME == 3
    r = SYNC(leaf);
#endif
#endif
#ifndef FRAME
    SPAWN(driver);
    LACE_MAKE_ALL_SHARED();
    while (!vp_in) vp_point();
#else                                   /* the next task is shared without being asked, or on request */
    vp_symbolic();
    SPAWN(driver);
    LACE_MAKE_ALL_SHARED();
    while (!vp_in) vp_point();
#endif
    vp_go = 1;
#ifndef FRAME
    vp_symbolic();
#endif
    for (int i = 0; i < K; i++) { SPAWN(leaf, n); n++; if (i + 1 == SH) LACE_MAKE_ALL_SHARED(); }
    vp_ready = 1;
    while (!vp_tried) vp_point();
#if NEXT == 0
    SPAWN(leaf, n); n++;
#elif NEXT == 1
    if (vp_n < K - 1) { n--; r = SYNC(leaf); vp_assert(r == 100 + n, "C19,C02: SYNC"); } else vp_miss = 0;
#else
    LACE_MAKE_ALL_SHARED();
#endif
    vp_after = 1;
    while (!vp_end) vp_point();
    while (n > 0) { n--; r = SYNC(leaf); vp_assert(r == 100 + n && vp_st[n] == 1, "C19,C01,C02: every task once, with its result"); }
    SYNC(driver);
    return 1;
}
int main(void)
{
    lace_start(2, 8);
    vp_settle();
    int r = RUN(root);
    vp_assert(r == 1, "C19,C11: RUN returns the result");
    vp_reach("end");
    return 0;
}
