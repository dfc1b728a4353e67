/* Statistics: what the report says against what happened.
   PROG 1 two workers, N leaves; 2 nested (leapfrogging); 3 DROP; 4 two rounds with a reset in between, taken while suspended;
   5 stop and start again; 6 RUN, NEWFRAME and TOGETHER are not tasks of SPAWN, 7 reset and report at once,
   8 the other worker steals with STEAL_RANDOM inside a task; tasks are spawned after all earlier ones were stolen */
#include "vp_env.h"
#include <stdint.h>
#define VP_S 8
int vp_spawns[VP_S], vp_stolen[VP_S], vp_st[8], vp_rep_tasks, vp_rep_steals, vp_sum_tasks, vp_sum_steals, vp_rep_n, vp_zero, vp_on, vp_out, vp_early, vp_shr[VP_S], vp_gr[VP_S], vp_was_reset; uint64_t vp_tries;
#define FMT_ON vp_on
#define VP_EXACT (PROG != 2)
#include "fmt.h"
static void vp_text(void)
{
    int k; uint64_t *a = vp_num; int i = (int)a[0];
    if ((k = vp_is("Tasks ("))) {
        if (k == 1) {
            vp_rep_tasks++;
            vp_assert(i >= 0 && i < VP_S, "C20: the report is about existing workers");
            vp_assert(a[1] == (uint64_t)vp_spawns[i], "C20: the number of tasks of a worker is the number of its SPAWNs");
            vp_sum_tasks += vp_spawns[i];
        } else {
            vp_rep_tasks += 100;
            vp_assert(a[0] == (uint64_t)vp_sum_tasks, "C20: the number of tasks is the number of SPAWNs");
        }
    } else if ((k = vp_is("Steals ("))) {
        if (k == 1) {
            vp_rep_steals++; a++;
            vp_assert(i >= 0 && i < VP_S, "C20: the report is about existing workers");
            vp_assert(a[0] + a[3] == (uint64_t)vp_stolen[i], "C20: steals plus leaps of a worker are the tasks it executed for others");
            vp_sum_steals += vp_stolen[i];
            if (a[3]) vp_reach("leap");
            if (a[0]) vp_reach("steal");
            if (a[1] || a[4]) vp_reach("busy");
        } else {
            vp_rep_steals += 100; vp_tries = a[2] + a[5];
            vp_assert(a[0] + a[3] == (uint64_t)vp_sum_steals, "C20: steals plus leaps are the tasks executed by others than their owners");
        }
        if (!vp_early) vp_assert(a[2] >= a[0] + a[1] && a[5] >= a[3] + a[4], "C20: tries are never fewer than successes plus busies");
        if (vp_zero) vp_assert(a[1] == 0 && a[2] == 0 && a[4] == 0 && a[5] == 0, "C20: resetting sets every counter to zero");
    } else if ((k = vp_is("Splits ("))) {
        if (k == 1) {
            a++;
            vp_assert(i >= 0 && i < VP_S, "C20: the report is about existing workers");
            if (i >= 0 && i < VP_S && vp_on) {
                if (VP_EXACT) vp_assert(a[0] == (uint64_t)vp_shr[i], "C20: split shrinks of a worker are the times it took shared tasks back");
                if (VP_EXACT) vp_assert(a[1] >= (uint64_t)vp_gr[i], "C20: split grows of a worker are the times it shared more on request");
                if (a[0]) vp_reach("shrink");
                if (a[1]) vp_reach("grow");
            }
        } else if (!vp_was_reset && !vp_early) {
            vp_assert(a[1] <= a[2], "C20: split grows are never more than the requests");
            vp_assert(a[2] <= vp_tries, "C20: split requests are never more than the tries to steal");
        }
        if (vp_zero) vp_assert(a[0] == 0 && a[1] == 0 && a[2] == 0, "C20: resetting sets every split counter to zero");
    }
}
#include LACE_C
#ifndef W
#define W 2
#endif
#ifndef N
#define N 2
#endif
#ifndef DQ
#define DQ 6
#endif
static void expect_begin(int n, int zero) { (void)n; vp_on = 1; vp_zero = zero; vp_rep_tasks = vp_rep_steals = vp_sum_tasks = vp_sum_steals = 0; if (zero) for (int i = 0; i < VP_S; i++) vp_spawns[i] = vp_stolen[i] = vp_shr[i] = vp_gr[i] = 0; }
static void expect_end(int n) { vp_on = 0; vp_assert(vp_rep_tasks == 100 + n && vp_rep_steals == 100 + n, "C20: the report has one line per worker and the sum"); }
#define SP(...) do { Task *vs_ = __lace_worker->split; int va_ = __lace_worker->allstolen; vp_spawns[LACE_WORKER_ID]++; SPAWN(__VA_ARGS__); vp_gr[LACE_WORKER_ID] += !va_ && __lace_worker->split > vs_; } while (0)
/* a SYNC or DROP that finds its task shared and not stolen has taken shared tasks back */
#define TAKE(...) do { Task *vs_ = __lace_worker->split, *vt_ = __lace_dq_head - 1; int va_ = __lace_worker->allstolen; __VA_ARGS__; va_ |= __lace_worker->allstolen; \
    vp_shr[LACE_WORKER_ID] += !va_ && vs_ > vt_; vp_gr[LACE_WORKER_ID] += !va_ && __lace_worker->split > vs_; } while (0)
TASK_2(int, leaf, int, k, int, owner)
{
    vp_assert(k >= 0 && k < 8 && vp_st[k] == 0, "C20,C01: each task runs once");
    vp_st[k] = 1;
    if (LACE_WORKER_ID != owner) vp_reach("leafsteal");
    if (LACE_WORKER_ID != owner) vp_stolen[LACE_WORKER_ID]++;
    return 100 + k;
}
TASK_2(int, node, int, k, int, owner)
{
    if (LACE_WORKER_ID != owner) vp_stolen[LACE_WORKER_ID]++;
    SP(leaf, k + 1, LACE_WORKER_ID);
#ifdef SHARE2
    LACE_MAKE_ALL_SHARED();
#endif
    int r = SYNC(leaf);
    vp_assert(r == 101 + k, "C20,C02: results do not change");
    return 200 + k;
}
VOID_TASK_0(each) { vp_out++; }
TASK_0(int, inner) { SP(leaf, 7, LACE_WORKER_ID); int r = SYNC(leaf); return r; }
#if PROG == 8
int vp_in, vp_go;
TASK_1(int, driver, int, owner)
{
    if (LACE_WORKER_ID != owner) vp_stolen[LACE_WORKER_ID]++;
    vp_in = 1;
    while (!vp_go) vp_point();
    STEAL_RANDOM();
    STEAL_RANDOM();
    while (vp_go != 2) vp_point();
    return 77;
}
#endif
TASK_1(int, root, int, base)
{
    int me = LACE_WORKER_ID, r;
#if PROG == 8
    SP(driver, me);
    LACE_MAKE_ALL_SHARED();
    while (!vp_in) vp_point();
    vp_go = 1;
#endif
#ifndef NOSYM
    vp_symbolic();
#endif
#if PROG == 8
    for (int i = 0; i < N; i++) {
        SP(leaf, base + i, me);
#ifdef SHARE
        LACE_MAKE_ALL_SHARED();
#endif
#ifdef POLL
        for (int k = 0; k < POLL; k++) vp_point();
#endif
        TAKE(r = SYNC(leaf)); vp_assert(r == 100 + base + i, "C20,C02: results do not change");
    }
    vp_go = 2;
    r = SYNC(driver); vp_assert(r == 77, "C20,C02: results do not change");
#elif PROG == 2
    SP(node, 0, me);
#ifdef TWO
    SP(leaf, 2, me);
#endif
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
#ifdef TWO
    r = SYNC(leaf); vp_assert(r == 102, "C20,C02: results do not change");
#endif
    r = SYNC(node); vp_assert(r == 200, "C20,C02: results do not change");
#else
    for (int i = 0; i < N; i++) SP(leaf, base + i, me);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
#if PROG == 6
    NEWFRAME(each);
#ifdef TOG
    TOGETHER(each);
#endif
#endif
    for (int i = N - 1; i >= 0; i--) {
#if PROG == 3
        if (i & 1) TAKE(DROP());
        else
#endif
        { TAKE(r = SYNC(leaf)); vp_assert(r == 100 + base + i, "C20,C02: results do not change"); }
    }
#endif
    (void)me;
    return 1;
}
int main(void)
{
#if PROG == 7
    vp_symbolic();
#endif
    lace_start(W, DQ);
#if PROG == 7                          /* reset and report before the workers run */
    expect_begin(W, 1); vp_zero = 0; vp_early = 1;
    lace_count_reset();
    lace_count_report_file(stdout);
    expect_end(W);                     /* tries, busies: the reset may come in the middle of an attempt */
#else
    vp_settle();
#endif
    vp_assert(RUN(root, 0) == 1, "C20,C11: results do not change");
#if PROG == 4
    lace_suspend();
    vp_reach("asleep");
    expect_begin(W, 0); lace_count_report_file(stdout); expect_end(W);
    lace_count_reset(); vp_was_reset = 1;
    expect_begin(W, 1); lace_count_report_file(stdout); expect_end(W);
    vp_zero = 0;
    lace_resume();
    vp_assert(RUN(root, N) == 1, "C20,C11: results do not change");
#endif
    expect_begin(W, 0);
    lace_stop();
    expect_end(W);
#if PROG == 5
    for (int i = 0; i < VP_S; i++) { vp_spawns[i] = vp_stolen[i] = vp_shr[i] = vp_gr[i] = 0; }
    lace_start(W2, DQ);
    vp_assert(RUN(root, N) == 1, "C20,C11: results do not change");
    expect_begin(W2, 0);
    lace_stop();
    expect_end(W2);
#endif
    vp_reach("end");
    return 0;
}
