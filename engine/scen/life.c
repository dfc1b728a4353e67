/* start, suspend, resume, RUN, stop. PROG selects the history of the main thread,
   OTHER that of a second outside thread (0 none, 1 resume;suspend, 2 RUN, 3 suspend;resume). */
#include "vp_env.h"
#include LACE_C
#ifndef W
#define W 2
#endif
#ifndef W2
#define W2 1
#endif
#ifndef DQ
#define DQ 2
#endif
#ifndef DQ2
#define DQ2 3
#endif
#ifndef OTHER
#define OTHER 0
#endif
#ifndef PROG
#define PROG 1
#endif
int vp_runs[8], vp_did, vp_first = 1, vp_n, vp_asleep, vp_seen[4];
TASK_1(int, leaf, int, id)
{
    vp_assert(vp_runs[id] == 0, "C11: an external task is executed once");
    vp_assert(!vp_asleep, "C13: no task runs while Lace is suspended");
    vp_assert(LACE_WORKER_ID >= 0 && LACE_WORKER_ID < lace_workers(), "C22: the id of a worker is below lace_workers()");
    vp_assert(lace_is_worker() == 1, "C22: a task runs in a worker thread");
    vp_runs[id]++;
    return 70 + id;
}
TASK_1(int, one, int, id) { SPAWN(leaf, id); return SYNC(leaf); }
static void run(int id)
{
    int r = RUN(one, id);
    vp_assert(r == 70 + id && vp_runs[id] == 1, "C11,C14: RUN gives the result of its task");
}
static void all_asleep(void)      /* every worker is waiting, and stays so */
{
    for (int i = 0; i < vp_n; i++) while (!vp_inwait[vp_first + i]) vp_point();
    for (int i = 0; i < vp_n; i++) vp_assert(vp_inwait[vp_first + i], "C13: suspended workers stay suspended");
    vp_reach("asleep");
}
static void all_awake(void)
{
    for (int i = 0; i < vp_n; i++) while (vp_inwait[vp_first + i]) vp_point();
    vp_reach("awake");
}
static void stopped(void)
{
    vp_assert(vp_heaplive() == 0, "C14: lace_stop gives back all memory");
    vp_assert(vp_sems == 0, "C14: lace_stop gives back all semaphores");
    for (int i = 0; i < vp_n; i++) {
        vp_assert(vp_thr_state[vp_first + i] != 1, "C14: the threads are joined or detached");
        while (!vp_finished(vp_first + i)) vp_point();
    }
    vp_first += vp_n;
}
static void *other(void *a)
{
#if OTHER == 1
    lace_resume(); lace_suspend();
#elif OTHER == 2
    run(7);
#elif OTHER == 3
    lace_suspend(); lace_resume();
#endif
    vp_did = 1; return 0;
}
static void wait_other(void) { while (OTHER && !vp_did) vp_point(); }
static void start(int w, int d)
{
    lace_start(w, d);
    vp_n = w ? w : VP_NCPU;
    vp_assert(lace_workers() == vp_n, "C22: lace_workers() is the number given to lace_start");
    vp_assert(lace_is_worker() == 0, "C22: the starting thread is not a worker");
}
#if PROG == 8
int vp_bent, vp_bret;
VOID_TASK_0(bar)
{
    if (LACE_WORKER_ID == 0) vp_symbolic();
    vp_bent++;
#ifdef USERBAR
    lace_barrier();
    vp_assert(vp_bent == W, "C08: nobody leaves a barrier before everybody entered it");
#endif
    vp_bret++;
}
#endif
int main(void)
{
#if PROG == 1                     /* start, RUN, stop, start again, RUN, stop */
    vp_symbolic();
    start(W, DQ);
#ifdef DORUN
    run(0);
#endif
    lace_stop(); stopped();
    start(W2, DQ2);
    run(1);
    lace_stop(); stopped();
#elif PROG == 2                   /* stop while suspended */
    start(W, DQ); vp_settle();
    vp_symbolic();
    lace_suspend();
#ifdef ASLEEP
    all_asleep();
#endif
    lace_stop(); stopped();
#elif PROG == 3                   /* suspend, RUN (which wakes and suspends), resume, RUN */
    start(W, DQ); vp_settle();
    vp_symbolic();
    lace_suspend(); all_asleep();
    run(0); all_asleep();
    lace_resume(); all_awake();
    run(1);
    lace_stop(); stopped();
#elif PROG == 4                   /* nested resumes */
    start(W, DQ); vp_settle();
    vp_symbolic();
    lace_resume(); lace_suspend(); run(0);
    vp_assert(!vp_inwait[vp_first], "C13: a suspend that leaves another request open stops nobody");
    lace_suspend(); all_asleep();
    lace_resume(); all_awake();
#elif PROG == 5                   /* two outside threads */
    start(W, DQ); vp_settle();
    vp_thread_start(W + 1, other, 0);
    vp_symbolic();
    lace_suspend();
#ifdef DORUN
    run(0);
#endif
    lace_resume();
    wait_other();
    all_awake();
    lace_suspend(); all_asleep();
#elif PROG == 6                   /* suspend right after start */
    vp_symbolic();
    start(W, DQ);
    lace_suspend(); all_asleep();
    lace_stop(); stopped();
#elif PROG == 7                   /* suspend/resume twice in a row */
    start(W, DQ); vp_settle();
    vp_symbolic();
    lace_suspend(); lace_resume(); lace_suspend(); all_asleep(); lace_resume(); all_awake();
#elif PROG == 8                   /* stop right after a barrier */
    start(W, DQ); vp_settle();
    TOGETHER(bar);
    vp_assert(vp_bret == W, "C08,C09: everybody returns from the barrier");
    lace_stop(); stopped();
#endif
    vp_reach("end");
    return 0;
}
