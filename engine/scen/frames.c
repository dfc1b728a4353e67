/* TOGETHER and NEWFRAME, from inside (with outstanding tasks) or outside.
   PROG 1: TOGETHER from outside      2: TOGETHER inside a task with outstanding tasks
        3: NEWFRAME inside             4: NEWFRAME from outside
        6: NOLD outstanding tasks and a last spawned task that requests a frame (REQ1), so that a thief requests it
        5: a task and its spawned task both request a frame (REQ1, REQ2: 1 TOGETHER, 2 NEWFRAME)
        7: the other worker looks for work with STEAL_RANDOM inside a task until the frame (REQ1) is over
           (YIELD: it only looks for a new frame, with YIELD_NEWFRAME)
   The tasks of the new frame spawn SUB tasks themselves. */
#include "vp_env.h"
#include LACE_C
#ifndef W
#define W 2
#endif
#ifndef DQ
#define DQ 10
#endif
#ifndef PROG
#define PROG 1
#endif
#ifndef SUB
#define SUB 1
#endif
#ifndef NOLD
#define NOLD 1
#endif
#ifndef REQ1
#define REQ1 1
#endif
#ifndef REQ2
#define REQ2 1
#endif
int vp_inframe;               /* frame tasks being executed now */
int vp_old_active[W];         /* old-frame leaf tasks being executed now, per worker */
int vp_runs[2][W], vp_done[2][W], vp_sub[2][W], vp_nf[2], vp_open[2], vp_old[4];
static void old_idle(const char *m) { for (int i = 0; i < W; i++) vp_assert(vp_old_active[i] == 0, m); }
TASK_2(int, sub, int, q, int, w)
{
    vp_assert(vp_open[q] == 1, "C09,C10: a task of the new frame runs only while the frame exists");
    vp_sub[q][w]++;
    return 7 * q + w;
}
/* TOGETHER task: with a result (its storage overlays the arguments) */
TASK_3(long, tg, int, q, long, a, int, b)
{
    int me = LACE_WORKER_ID;
    vp_assert(a == 0x1111222233334444L && b == 55 && q >= 0 && q < 2, "C09,C06: every copy of a TOGETHER task receives the given arguments");
    old_idle("C09: no copy of a TOGETHER task starts before all workers stopped their previous work");
    vp_assert(vp_open[q] == 1, "C09: copies run only during the TOGETHER");
    vp_assert(vp_runs[q][me] == 0, "C09: TOGETHER executes the task once per worker");
    vp_runs[q][me]++; vp_inframe++;
#if SUB
    SPAWN(sub, q, me);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    int r = SYNC(sub);
    vp_assert(r == 7 * q + me, "C02,C09: a task spawned inside TOGETHER gives its result");
#endif
    vp_inframe--; vp_done[q][me]++;
    return 0x5555666677778888L;
}
TASK_2(long, nf, int, q, long, a)
{
    int me = LACE_WORKER_ID;
    vp_assert(a == 0x1111222233334444L && q >= 0 && q < 2, "C10,C06: the NEWFRAME task receives its arguments");
    old_idle("C10: the NEWFRAME task starts when all workers stopped their previous work");
    vp_assert(vp_open[q] == 1 && vp_nf[q] == 0, "C10: the NEWFRAME task is executed once");
    vp_nf[q]++; vp_inframe++;
#if SUB
    SPAWN(sub, q, me);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    int r = SYNC(sub);
    vp_assert(r == 7 * q + me, "C02,C10: a task spawned inside NEWFRAME gives its result");
#endif
    vp_inframe--; vp_done[q][me]++;
    return 0x5555666677778888L;
}
static void req(int q, int kind)
{
    vp_open[q] = 1;
    if (kind == 1) {
        TOGETHER(tg, q, 0x1111222233334444L, 55);
        for (int i = 0; i < W; i++) {
            vp_assert(vp_runs[q][i] == 1, "C09: TOGETHER ran on every worker");
            vp_assert(vp_done[q][i] == 1, "C09: TOGETHER returns after all copies finished");
#if SUB
            vp_assert(vp_sub[q][i] == 1, "C09: TOGETHER returns after all spawned tasks finished");
#endif
        }
    } else {
        long r = NEWFRAME(nf, q, 0x1111222233334444L);
        vp_assert(r == 0x5555666677778888L, "C10,C06: NEWFRAME returns the result of its task");
        vp_assert(vp_nf[q] == 1, "C10: NEWFRAME ran the task once");
    }
    vp_open[q] = 2;
    vp_reach("frame");
}
TASK_1(int, old, int, n)
{
    int me = LACE_WORKER_ID;
    vp_assert(n >= 0 && n < 4, "C09,C10,C06: an interrupted task keeps its arguments");
    vp_assert(vp_old[n] == 0, "C01,C10: an outstanding task is executed once");
    vp_old[n]++;
    vp_assert(vp_inframe == 0, "C09,C10: no task of the interrupted computation runs during the new frame");
    vp_old_active[me]++;
#ifdef POINT
    vp_point();
#endif
    vp_old_active[me]--;
    if (me) vp_reach("stolen");
    return 30 + n;
}
TASK_1(int, asker, int, q)
{
    vp_assert(vp_inframe == 0, "C09,C10: no task of the interrupted computation runs during the new frame");
    req(q, q ? REQ2 : REQ1);
    return 60 + q;
}
int vp_spin, vp_go;
TASK_0(int, spin)
{
    vp_spin = 1;
#ifdef YIELD
    while (!vp_go) YIELD_NEWFRAME();
#else
    while (!vp_go) STEAL_RANDOM();
#endif
    return 80;
}
TASK_1(int, root, int, x)
{
    int r;
#if PROG == 7
    SPAWN(spin);
    LACE_MAKE_ALL_SHARED();
    while (!vp_spin) vp_point();
    vp_symbolic();
    SPAWN(old, 0);
    req(0, REQ1);
    r = SYNC(old); vp_assert(r == 30 && vp_old[0] == 1, "C02,C10: outstanding tasks of the interrupted computation keep their results");
    vp_go = 1;
    r = SYNC(spin); vp_assert(r == 80, "C02,C10: an interrupted task keeps its result");
#endif
#if PROG == 2 || PROG == 3
    vp_symbolic();
    for (int i = 0; i < NOLD; i++) SPAWN(old, i);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    req(0, PROG == 2 ? 1 : 2);
    for (int i = NOLD - 1; i >= 0; i--) { r = SYNC(old); vp_assert(r == 30 + i && vp_old[i] == 1, "C02,C10: outstanding tasks of the interrupted computation keep their results"); }
#ifdef AFTER
    SPAWN(old, 3); r = SYNC(old); vp_assert(r == 33, "C02,C10: tasks after a frame run normally");
#endif
#elif PROG == 6
    vp_symbolic();
    for (int i = 0; i < NOLD; i++) SPAWN(old, i);
    SPAWN(asker, 0);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    r = SYNC(asker);
    vp_assert(r == 60, "C10: result of the spawned task that requested the frame");
    for (int i = NOLD - 1; i >= 0; i--) { r = SYNC(old); vp_assert(r == 30 + i && vp_old[i] == 1, "C02,C10: outstanding tasks of the interrupted computation keep their results"); }
#ifdef AFTER
    SPAWN(old, 3); r = SYNC(old); vp_assert(r == 33, "C02,C10: tasks after a frame run normally");
#endif
#elif PROG == 5
#ifdef HALF                         /* the first task was already stolen when schedules become symbolic */
    SPAWN(asker, 0);
    LACE_MAKE_ALL_SHARED();
    vp_symbolic();
#else
    vp_symbolic();
    SPAWN(asker, 0);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
#endif
    r = CALL(asker, 1);
    vp_assert(r == 61, "C10: result of the calling task");
    r = SYNC(asker);
    vp_assert(r == 60, "C10: result of the spawned task");
#endif
    return x + 1;
}
int main(void)
{
    lace_start(W, DQ);
    vp_settle();
#if PROG == 1
    vp_symbolic(); req(0, 1);
#elif PROG == 4
    vp_symbolic(); req(0, 2);
#else
    int r = RUN(root, 41);
    vp_assert(r == 42, "C02,C11: RUN returns the result");
#endif
    vp_reach("end");
    return 0;
}
