/* Tasks from outside Lace threads: RUN and RUNEX, concurrently, while suspended.
   CALL0: what the main thread does, CALL1/CALL2: what further threads do
   (0 nothing, 1 RUN, 2 RUNEX, 3 suspend then resume, 4 resume then suspend, 5 RUN twice, 6 RUN of a task that waits for the task of thread 1 while looking for work)
   SUSP: workers are suspended before. Threads: 0 main, 1..W workers, W+1.. further callers. */
#include "vp_env.h"
#include LACE_C
#ifndef W
#define W 1
#endif
#ifndef CALL0
#define CALL0 1
#endif
#ifndef CALL1
#define CALL1 1
#endif
#ifndef CALL2
#define CALL2 0
#endif
int vp_runs[8], vp_fin[8], vp_act, vp_exact, vp_did[3];
static int body(int id, int ex)
{
    vp_assert(id >= 0 && id < 8, "C11,C06: the task receives its argument");
    vp_assert(vp_runs[id] == 0, "C11: an external task is executed once");
    vp_runs[id]++;
    vp_assert(vp_exact == 0, "C12: nothing runs besides an exclusive task");
    if (ex) vp_assert(vp_act == 0, "C12: an exclusive task is alone");
    vp_act++; vp_exact += ex;
    vp_point();
    vp_act--; vp_exact -= ex;
    vp_fin[id]++;
    return 70 + id;
}
TASK_1(int, leaf, int, x) { return x + 5; }
#ifdef SUB
TASK_1(int, plain, int, id)
{
    SPAWN(leaf, 40 + id); SPAWN(leaf, 60 + id);
    int r = body(id, 0);
    vp_assert(SYNC(leaf) == 65 + id, "C11,C02: a task spawned by an external task");
    vp_assert(SYNC(leaf) == 45 + id, "C11,C02: a task spawned by an external task");
    return r;
}
#else
TASK_1(int, plain, int, id) { return body(id, 0); }
#endif
/* a worker with tasks outstanding takes up external tasks while it looks for work */
TASK_1(int, holder, int, id)
{
    SPAWN(leaf, 10);
#ifdef HSHARE
    LACE_MAKE_ALL_SHARED();
#endif
    SPAWN(leaf, 20);
    while (vp_fin[2] == 0) STEAL_RANDOM();
    int b = SYNC(leaf), a = SYNC(leaf);
    vp_assert(a == 15 && b == 25, "C11,C01,C02: taking up an external task leaves the waiting tasks alone");
    vp_fin[id]++; vp_runs[id]++;
    return 70 + id;
}
TASK_1(int, excl, int, id) { return body(id, 1); }
#ifdef INNER
/* INNER 2, 3: RUN, RUNEX of a task that spawns, while tasks are outstanding */
TASK_1(int, wrap, int, id)
{
#if INNER >= 2
    SPAWN(leaf, 10);
    SPAWN(leaf, 20);
#ifdef HSHARE
    LACE_MAKE_ALL_SHARED();
#endif
#endif
    vp_assert(lace_is_worker() == 1, "C22: a task runs on a worker");
#if INNER == 3
    int r = RUNEX(plain, id);
#else
    int r = RUN(plain, id);       /* RUN inside a worker: at once */
#endif
    vp_assert(vp_fin[id] == 1, "C11: RUN inside a worker executes the task at once");
#if INNER >= 2
    int b = SYNC(leaf), a = SYNC(leaf);
    vp_assert(a == 15 && b == 25, "C11,C07: RUN inside a worker leaves its outstanding tasks alone");
#endif
    return r;
}
#define plain_R(id) RUN(wrap, id)
#else
#define plain_R(id) RUN(plain, id)
#endif
static void one(int id, int ex)
{
    int r = ex ? RUNEX(excl, id) : plain_R(id);
    vp_assert(vp_runs[id] == 1 && vp_fin[id] == 1, "C11: RUN returns after its task was executed");
    vp_assert(r == 70 + id, "C11: RUN returns the result of its task");
}
static void act(int k, int what)
{
    if (what == 1) one(2 * k, 0);
    if (what == 2) one(2 * k, 1);
    if (what == 3) { lace_suspend(); lace_resume(); }
    if (what == 4) { lace_resume(); lace_suspend(); }
    if (what == 6) { int r = RUN(holder, 2 * k); vp_assert(r == 70 + 2 * k, "C11: RUN returns the result of its task"); }
    if (what == 5) { one(2 * k, 0); one(2 * k + 1, 0); }
    vp_did[k] = 1;
}
static void *caller1(void *a) { act(1, CALL1); return 0; }
static void *caller2(void *a) { act(2, CALL2); return 0; }
int main(void)
{
    lace_start(W, 4);
    vp_settle();
#ifdef SUSP
    lace_suspend();
#endif
    if (CALL1) vp_thread_start(W + 1, caller1, 0);
    if (CALL2) vp_thread_start(W + 2, caller2, 0);
    vp_symbolic();
    act(0, CALL0);
    while ((CALL1 && !vp_did[1]) || (CALL2 && !vp_did[2])) vp_point();
    vp_reach("end");
    return 0;
}
