/* Time accounting in running programs. Every thread has its own clock, which advances by one per reading and by WORK
   for each unit of application work. For every worker at every moment: the time since an earlier moment has been added
   to exactly one slice; application work is in the slice of application code (own level), the rest is small;
   the nesting level is back where it was after each SYNC.
   PROG 1 two leaves, 2 nested with leapfrogging, 3 NEWFRAME, 4 suspend and resume */
#include "vp_env.h"
#include <stdint.h>
#define VP_S 4
#ifndef W
#define W 2
#endif
#ifndef DQ
#define DQ 6
#endif
#ifndef N
#define N 2
#endif
#define WORK 4096
uint64_t vp_clk[VP_MAXTHR], vp_gap[VP_S], vp_wapp[VP_S], vp_lapp[VP_S]; int vp_known[VP_S], vp_lvl[VP_S], vp_insync[VP_S], vp_st[8], vp_hi, vp_err;
uint64_t __attribute__((used)) vp_rdtsc(void) { return ++vp_clk[vp_self()]; }
#define clock_gettime(k, t) ((t)->tv_sec = 1, (t)->tv_nsec = 0, 0)
#undef fprintf
/* the report of lace_stop is no error; other lines are */
static int vp_is_err(const char *f) { return f[0] == 'T' && f[1] == 'h'; }
#define FMT1(f, ...) f
#define fprintf(file, ...) (vp_err |= (!vp_stop || vp_is_err(FMT1(__VA_ARGS__, 0))))
int vp_stop; static void at_end(void);
static int vp_pie_destroy(sem_t *s) { at_end(); return vp_sem_destroy(s); }
#undef sem_destroy
#define sem_destroy(s) vp_pie_destroy(s)
#include LACE_C
WorkerP *vp_w[VP_S]; int vp_did_sync[VP_S];
static void check(void)
{
    WorkerP *w = lace_get_worker(); int i = w->worker;
    uint64_t *c = w->ctr;
    vp_w[i] = w;
    vp_assert(!vp_err, "C21: accounting prints no error");
    uint64_t g = w->time - c[CTR_init] - c[CTR_close] - c[CTR_wapp] - c[CTR_lapp] - c[CTR_wsteal] - c[CTR_lsteal];
    if (vp_known[i]) vp_assert(g == vp_gap[i], "C21: the time between two events is added to exactly one slice");
    vp_known[i] = 1; vp_gap[i] = g;
    vp_assert(c[CTR_wsteal] >= c[CTR_wstealsucc] + c[CTR_wsignal] && c[CTR_lsteal] >= c[CTR_lstealsucc] + c[CTR_lsignal], "C21: overheads are part of the steal and leap time");
    vp_assert(c[CTR_init] < WORK && c[CTR_close] < WORK && c[CTR_wsteal] < WORK && c[CTR_lsteal] < WORK, "C21: application work is not counted as overhead");
}
/* all workers have ended */
static void at_end(void)
{
    if (vp_stop != 1) return;
    vp_stop = 2;
    for (int i = 0; i < W; i++) {
        WorkerP *w = vp_w[i]; if (!w) continue;
        uint64_t *c = w->ctr, g = w->time - c[CTR_init] - c[CTR_close] - c[CTR_wapp] - c[CTR_lapp] - c[CTR_wsteal] - c[CTR_lsteal];
        vp_assert(!vp_err, "C21: accounting prints no error");
        if (vp_known[i]) vp_assert(g == vp_gap[i], "C21: the time until the end of a worker is added to exactly one slice");
        vp_assert(c[CTR_init] < WORK && c[CTR_close] < WORK && c[CTR_wsteal] < WORK && c[CTR_lsteal] < WORK, "C21: application work is not counted as overhead");
        vp_assert(c[CTR_wapp] / WORK == vp_wapp[i] / WORK && c[CTR_lapp] / WORK == vp_lapp[i] / WORK, "C21: in the end all application work has been counted as such");
        vp_assert(c[CTR_close] > 0, "C21: the time at the end of a worker is exit time");
        if (!vp_did_sync[i]) vp_assert(c[CTR_lsteal] == 0 && c[CTR_lapp] == 0, "C21: a worker that waited for no stolen task has no leap time");
        vp_reach("exit");
    }
}
/* application work on the current worker; pend is work of this worker since the last event */
static void work(void)
{
    int i = lace_get_worker()->worker;
    vp_clk[vp_self()] += WORK;
    if (vp_lvl[i] >= 2) vp_lapp[i] += WORK; else vp_wapp[i] += WORK;
}
static int enter(int owner)        /* a task starts; returns the previous level of this worker */
{
    WorkerP *w = lace_get_worker(); int i = w->worker, old = vp_lvl[i];
    if (i != owner) { vp_lvl[i] = vp_insync[i] ? 2 : 1; if (vp_insync[i]) vp_reach("leap"); else vp_reach("steal"); }
    vp_assert(w->level == 1 || vp_insync[i], "C21: the level in a task taken outside of any SYNC is 1");
    if (i != owner && vp_insync[i]) vp_assert(w->level == 1 + vp_insync[i], "C21: the level is one more for each SYNC that waits");
    return old;
}
static void leave(int old) { vp_lvl[lace_get_worker()->worker] = old; }
static int settled(WorkerP *w, int k) /* what the slices of application code hold: all but at most the last K units, not yet attributed */
{
    int i = w->worker; uint64_t *c = w->ctr;
    return c[CTR_wapp] / WORK <= vp_wapp[i] / WORK && c[CTR_lapp] / WORK <= vp_lapp[i] / WORK && (c[CTR_wapp] / WORK + c[CTR_lapp] / WORK + k >= vp_wapp[i] / WORK + vp_lapp[i] / WORK);
}
TASK_2(int, leaf, int, k, int, owner)
{
    vp_assert(k >= 0 && k < 8 && vp_st[k] == 0, "C21,C01: each task runs once");
    vp_st[k] = 1;
    int o = enter(owner), l = lace_get_worker()->level, i = LACE_WORKER_ID;
    if (i != owner) {                  /* all earlier work of this worker has been attributed when it entered this task */
        vp_assert(lace_get_worker()->ctr[CTR_wapp] / WORK == vp_wapp[i] / WORK && lace_get_worker()->ctr[CTR_lapp] / WORK == vp_lapp[i] / WORK, "C21: application work is in the slice of the level at which it was done");
        check();
    }
    work();
    vp_assert(lace_get_worker()->level == l, "C21: the level does not change inside a task");
    leave(o);
    return 100 + k;
}
#define SYNCL(r, f) do { WorkerP *w_ = lace_get_worker(); int l_ = w_->level; vp_insync[w_->worker]++; vp_did_sync[w_->worker] = 1; r = SYNC(f); vp_insync[w_->worker]--; \
    vp_assert(w_->level == l_, "C21: after SYNC the level is what it was before"); check(); } while (0)
TASK_2(int, node, int, k, int, owner)
{
    int o = enter(owner), r, i = LACE_WORKER_ID;
    work();
    int in = vp_insync[i]; (void)in;
    SPAWN(leaf, k + 1, i);
#ifdef SHARE2
    LACE_MAKE_ALL_SHARED();
#endif
    SYNCL(r, leaf);
    vp_assert(r == 101 + k, "C21,C02: results do not change");
    leave(o);
    return 200 + k;
}
#if PROG == 3
VOID_TASK_0(each)                      /* in the new frame; its task is stolen by the other worker */
{
    int r;
    vp_hi++;
    SPAWN(leaf, 7, LACE_WORKER_ID);
    LACE_MAKE_ALL_SHARED();
    while (!vp_st[7]) vp_point();
    SYNCL(r, leaf); vp_assert(r == 107, "C21,C02: results do not change");
}
#endif
#if PROG == 5
int vp_boss, vp_cop;
VOID_TASK_0(copy)                      /* the copy of the worker that did not ask for TOGETHER has a task stolen */
{
    int r, i = LACE_WORKER_ID;
    vp_cop++;
    vp_lvl[i] = 1; vp_insync[i] = 0;
    vp_assert(lace_get_worker()->level == 1, "C21: the level in a copy of TOGETHER is 1");
    check();
    work();
    if (i != vp_boss) {
        SPAWN(leaf, 7, i);
        LACE_MAKE_ALL_SHARED();
        while (!vp_st[7]) vp_point();
        SYNCL(r, leaf); vp_assert(r == 107, "C21,C02: results do not change");
    }
}
#endif
TASK_1(int, root, int, base)
{
    int r, me = LACE_WORKER_ID; (void)me;
    vp_lvl[me] = 1; vp_insync[me] = 0;
    vp_assert(lace_get_worker()->level == 1, "C21: the level of a task from outside is 1");
    check();
#if PROG == 3                          /* the other worker steals a task before */
    SPAWN(leaf, 6, LACE_WORKER_ID);
    LACE_MAKE_ALL_SHARED();
    while (!vp_st[6]) vp_point();
    SYNCL(r, leaf);
#endif
#ifndef NOSYM
    vp_symbolic();
#endif
#if PROG == 3
    NEWFRAME(each); (void)base;
    vp_assert(vp_hi == 1, "C21,C10: the task of NEWFRAME runs once");
    check();
#elif PROG == 5
    vp_boss = me; (void)base; (void)r;
    work();
    TOGETHER(copy);
    vp_assert(vp_cop == 2, "C21,C09: a copy on each worker");
    check();
    vp_assert(lace_get_worker()->ctr[CTR_wapp] / WORK == vp_wapp[me] / WORK, "C21: application work before TOGETHER and in it is counted as such");
#elif PROG == 2
    work();
    SPAWN(node, 0, me);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    work();
    SYNCL(r, node); vp_assert(r == 200, "C21,C02: results do not change");
#else
    for (int i = 0; i < N; i++) SPAWN(leaf, base + i, me);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    for (int i = N - 1; i >= 0; i--) { SYNCL(r, leaf); vp_assert(r == 100 + base + i, "C21,C02: results do not change"); }
#endif
    return 1;
}
int main(void)
{
    lace_start(W, DQ);
    vp_settle();
    vp_assert(RUN(root, 0) == 1, "C21,C11: results do not change");
#if PROG == 4
    lace_suspend(); lace_resume();
    vp_assert(RUN(root, N) == 1, "C21,C11: results do not change");
#endif
#ifdef STOP
    vp_stop = 1;
    lace_stop();
    vp_assert(vp_stop == 2, "C21: lace_stop ends the workers");
#endif
    vp_reach("end");
    return 0;
}
