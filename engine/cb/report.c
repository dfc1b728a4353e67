/* The report and the reset of the statistics, for any contents of the counters and any readings of the clocks.
   NW workers; fprintf is captured. MODE 1: report (values, totals, no crash), 2: reset then report, 3: one accounting event,
   4: the times of the report (one tick per ms and whole numbers for
   double, so that everything stays exact) */
#define _GNU_SOURCE
#include <stdio.h>
#include <time.h>
#include <string.h>
#include <errno.h>
#include <sched.h>
#include <stdlib.h>
#include <pthread.h>
#include <stdatomic.h>
#include <semaphore.h>
#include <assert.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include "cb.h"
static uint64_t clk[4]; static int nclk;
#define clock_gettime(k, t) ((t)->tv_sec = (time_t)(clk[nclk & 1]), (t)->tv_nsec = (long)(clk[2 + (nclk & 1)]), nclk++, 0)
static int errs;
#if MODE == 4
#define FMT_INT
#elif PIE
#define FMT_DOUBLE
#endif
#include "fmt.h"
/* lace_start runs for real, except that starting a thread only initialises its worker, and blocks come from an arena */
static uint64_t wblk[NW][160]; static void *pblk[4][NW + 8]; static int narena, inwork;
static void *give(size_t n) { if (inwork) { ASSERT(n <= sizeof wblk[0], "C15: small blocks"); return wblk[inwork - 1]; } ASSERT(narena < 4 && n <= sizeof pblk[0], "C15: small blocks"); return pblk[narena++]; }
#define aligned_alloc(a, n) give(n)
static int running;      /* blocks are zero when lace_start takes them */
static void *my_memset(void *p, int c, size_t n)
{
    if (!running) return p;
    if (((size_t)p & 7) == 0 && n % 8 == 0) for (size_t k = 0; k < n / 8; k++) ((uint64_t *)p)[k] = 0x0101010101010101ull * (unsigned char)c;
    else for (size_t k = 0; k < n; k++) ((char *)p)[k] = (char)c;
    return p;
}
#define memset(p, c, n) my_memset(p, c, n)
#define pthread_create(t, a, f, x) start_worker((size_t)(x))
#define pthread_attr_init(a) 0
#define pthread_attr_setstacksize(a, n) 0
#define pthread_attr_setdetachstate(a, s) 0
#define pthread_attr_destroy(a) 0
#define sem_init(a, b, c) 0
#define sem_post(a) 0
#define sem_wait(a) 0
#define sem_destroy(a) 0
static int my_getrlimit(int k, struct rlimit *l) { l->rlim_cur = l->rlim_max = 1 << 20; return 0; }
#define getrlimit my_getrlimit
#define sysconf(n) 2
static int start_worker(size_t i);
#if MODE == 4
#include LACE_H
static uint64_t ticks;
#define gethrtime() ticks
#define double uint64_t
#endif
#include LACE_C
#undef double
static WorkerP priv[NW];
static int start_worker(size_t i) { inwork = 1 + (int)i; lace_init_worker((unsigned)i); inwork = 0; return 0; }
static int row[4][NW + 1], zero;
static uint64_t sum(int k) { uint64_t s = 0; for (int i = 0; i < NW; i++) s += priv[i].ctr[k]; return s; }
#define C(i, k) ((i) < 0 ? sum(k) : priv[i].ctr[k])
/* a line is about worker i or about the sum */
#if MODE == 4
/* the eight slices of a worker or of the sum are disjoint, cover the time that was attributed, and make up the total */
#define CMAX (NW > 1 ? 1024 : 65536)
static uint64_t slice[NW + 1][8], total = -1; static int lines;
#define T(i, k) C(i, k)
static void vp_text(void)
{
    static const char *const names[8] = {"Startup time (", "Steal work (", "Leap work (", "Steal overhead (", "Leap overhead (", "Steal search (", "Leap search (", "Exit time ("};
    int i = -1, kind = -1, k = 0; const VP_T *a = vp_num;
    if (vp_is("Aggregated time per pie slice, total time: ")) { total = a[0]; return; }
    for (int j = 0; j < 8 && kind < 0; j++) if ((k = vp_is(names[j]))) kind = j;
    if (kind < 0) return;
    if (k == 1) { ASSERT(a[0] < NW, "C21: the report is about existing workers"); if (!(a[0] < NW)) return; i = (int)a[0]; a++; }
    lines++;
    slice[i < 0 ? NW : i][kind] = a[0];
}
#else
static void vp_text(void)
{
    static const char *const names[4] = {"Tasks (", "Steals (", "Splits (", "Tasks per steal ("};
    int i = -1, kind = -1, k = 0; const VP_T *a = vp_num;
    errs++;
    for (int j = 0; j < 4 && kind < 0; j++) if ((k = vp_is(names[j]))) kind = j;
    if (kind < 0) return;
    if (k == 1) { ASSERT(a[0] < NW, "C20: the report is about existing workers"); if (!(a[0] < NW)) return; i = (int)a[0]; a++; }
    row[kind][i < 0 ? NW : i]++;
    if (kind == 0) ASSERT(a[0] == C(i, CTR_tasks), "C20: tasks: as counted");
    if (kind == 1) {
        ASSERT(a[0] == C(i, CTR_steals) && a[1] == C(i, CTR_steal_busy) && a[2] == C(i, CTR_steal_tries), "C20: steals: as counted");
        ASSERT(a[3] == C(i, CTR_leaps) && a[4] == C(i, CTR_leap_busy) && a[5] == C(i, CTR_leap_tries), "C20: leaps: as counted");
    }
    if (kind == 2) ASSERT(a[0] == C(i, CTR_split_shrink) && a[1] == C(i, CTR_split_grow) && a[2] == C(i, CTR_split_req), "C20: splits: as counted");
    if (zero && kind < 3) for (int j = 0; j < (kind == 0 ? 1 : kind == 1 ? 6 : 3); j++) ASSERT(a[j] == 0, "C20: after a reset every number is zero");
}
#endif
void harness(void)
{
#if MODE == 4
    clk[0] = clk[1] = 0; clk[2] = 0; clk[3] = 1000000;
#else
    clk[0] = IN(0); clk[1] = IN(1); clk[2] = IN(2); clk[3] = IN(3);
    ASSUME(clk[0] <= clk[1] && clk[1] < ((uint64_t)1 << 40) && clk[2] < 1000000000u && clk[3] < 1000000000u && (clk[0] < clk[1] || clk[2] <= clk[3]));
#endif
    lace_start(NW, 1);
    running = 1;
    for (int i = 0; i < NW; i++) { workers_p[i] = &priv[i]; priv[i].worker = i; }
    for (int i = 0; i < NW; i++) for (int k = 0; k < CTR_MAX; k++) priv[i].ctr[k] = IN(8 + i * CTR_MAX + k);
#if MODE == 4
    for (int i = 0; i < NW; i++) {
        for (int k = 0; k < CTR_MAX; k++) ASSUME(priv[i].ctr[k] < CMAX);
        ASSUME(priv[i].ctr[CTR_wsteal] >= priv[i].ctr[CTR_wstealsucc] + priv[i].ctr[CTR_wsignal]);
        ASSUME(priv[i].ctr[CTR_lsteal] >= priv[i].ctr[CTR_lstealsucc] + priv[i].ctr[CTR_lsignal]);
    }
    ticks = 1;
    lace_count_report_file(0);
    ASSERT(lines == 8 * (NW + 1), "C21: eight slices for every worker and for the sum");
    uint64_t all = 0;
    for (int i = 0; i <= NW; i++) {
        uint64_t s = 0; int j = i < NW ? i : -1;
        for (int k = 0; k < 8; k++) { ASSERT(slice[i][k] < CMAX * NW, "C21: no slice is negative"); s += slice[i][k]; }
        ASSERT(slice[i][0] == T(j, CTR_init) && slice[i][1] == T(j, CTR_wapp) && slice[i][2] == T(j, CTR_lapp) && slice[i][7] == T(j, CTR_close), "C21: the time of work, start and exit is as accounted");
        ASSERT(slice[i][3] + slice[i][5] == T(j, CTR_wsteal) && slice[i][4] + slice[i][6] == T(j, CTR_lsteal), "C21: search and overhead make up the time of stealing and of leapfrogging");
        all = s;
    }
    ASSERT(total == all / 1000, "C21: the total is the sum of the slices");
    REACH("end");
#elif MODE == 3
    WorkerP *w = &priv[0]; uint64_t ev = IN(4), old[CTR_MAX], pre = IN(5);
    int lev = (int)(IN(6) & 0xffff);
    ASSUME(ev >= 1 && ev <= 9 && ev != 5 && ev != 6);
    ASSUME(!(lev == 0 && (ev == 2 || ev == 3 || ev == 4 || ev == 8)));   /* inside application code the level is at least 1 */
    ASSUME(!(lev == 1 && ev == 4));                                       /* inside a waiting SYNC at least 2 */
    w->time = pre; w->level = lev;
    for (int k = 0; k < CTR_MAX; k++) old[k] = w->ctr[k];
    lace_time_event(w, (int)ev);
    uint64_t d = w->time - pre;
    int slice = lev == 0 ? CTR_init : ev == 9 ? CTR_close : ev == 2 || ev == 3 ? (lev == 1 ? CTR_wapp : CTR_lapp) : lev == 1 ? CTR_wsteal : CTR_lsteal;
    int part = lev == 0 ? -1 : ev == 1 ? (lev == 1 ? CTR_wstealsucc : CTR_lstealsucc) : ev == 8 ? (lev == 1 ? CTR_wsignal : CTR_lsignal) : -1;
    for (int k = 0; k < CTR_MAX; k++) ASSERT(w->ctr[k] - old[k] == (k == slice || k == part ? d : 0), "C21: the time since the previous event goes to the slice of the activity that ended");
    ASSERT(w->level == (ev == 3 ? lev + 1 : ev == 4 ? lev - 1 : ev == 1 && lev == 0 ? 1 : lev), "C21: the level counts the SYNCs that wait");
    ASSERT(errs == 0, "C21: no error is reported");
    REACH("end");
#else
#if MODE == 2
    for (int i = 0; i < NW; i++) priv[i].level = 3;
#if PIE
    nclk = 0;
#endif
    lace_count_reset();
    for (int i = 0; i < NW; i++) for (int k = 0; k < CTR_MAX; k++) ASSERT(priv[i].ctr[k] == 0, "C20: resetting sets every counter of every worker to zero");
    zero = 1;
#endif
    lace_count_report_file(0);
#if !PIE
    for (int k = 0; k < 3; k++) {
        if (k == 0 && !LACE_COUNT_TASKS || k == 1 && !LACE_COUNT_STEALS || k == 2 && !LACE_COUNT_SPLITS) continue;
        for (int i = 0; i <= NW; i++) ASSERT(row[k][i] == 1, "C20: one line per worker and one for the sum");
    }
#endif
    REACH("end");
#endif
}
#ifdef VP_REPLAY
int main(void) { harness(); return 0; }
#endif
