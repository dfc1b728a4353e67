/* DROP of tasks that may or may not have been stolen */
#include "vp_env.h"
#include LACE_C
#include "tasks.h"
#ifndef W
#define W 2
#endif
#ifndef PROG
#define PROG 1
#endif
TASK_1(int, leaf, int, n)
{
    t_begin(n); t_end(n, LACE_WORKER_ID);
    return 100 + n;
}
int vp_pre[4];
TASK_1(int, dummy, int, i)
{
    vp_assert(i >= 0 && i < 4 && vp_pre[i] == 0, "C01: a task of an earlier phase is executed once");
    vp_pre[i]++;
    return 50 + i;
}
int vp_headok;
TASK_2(int, inner, Task*, expect, int, id)
{
    vp_assert(lace_get_head(lace_get_worker()) == expect, "C04,C07: after DROP the recovered position is the real one");
    (void)id;
    SPAWN(leaf, 4);
    LACE_MAKE_ALL_SHARED();
    int r = SYNC(leaf); t_synced(4, r, 104, LACE_WORKER_ID);
    return 7;
}
TASK_1(int, root, int, x)
{
    int me = LACE_WORKER_ID, r;
#if PRE >= 1                       /* PRE shared tasks were all stolen and synced before */
    for (int i = 0; i < PRE; i++) SPAWN(dummy, i);
    LACE_MAKE_ALL_SHARED();
    for (int i = 0; i < 24 * PRE; i++) vp_point();
    for (int i = PRE - 1; i >= 0; i--) { r = SYNC(dummy); vp_assert(r == 50 + i && vp_pre[i] == 1, "C01,C02: a task of an earlier phase gives its result"); }
#endif
    vp_symbolic();
    SPAWN(leaf, 0); SPAWN(leaf, 1);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
#if PROG == 1
    DROP(); t_dropped(1, me);
    r = SYNC(leaf); t_synced(0, r, 100, me);
#elif PROG == 2
    r = SYNC(leaf); t_synced(1, r, 101, me);
    DROP(); t_dropped(0, me);
#elif PROG == 3
    DROP(); t_dropped(1, me);
    DROP(); t_dropped(0, me);
    SPAWN(leaf, 2);
    r = SYNC(leaf); t_synced(2, r, 102, me);
#elif PROG == 4
    DROP(); t_dropped(1, me);
    r = RUN(inner, __lace_dq_head, 0);
    vp_assert(r == 7, "C04: nested RUN after DROP");
    r = SYNC(leaf); t_synced(0, r, 100, me);
#elif PROG == 5                     /* outstanding task below, dropped slot reused */
    DROP(); t_dropped(1, me);
    SPAWN(leaf, 2);
    r = SYNC(leaf); t_synced(2, r, 102, me);
    DROP(); t_dropped(0, me);
    r = RUN(inner, __lace_dq_head, 0);
#endif
    return x + 1;
}
int main(void)
{
    lace_start(W, 6);
    vp_settle();
    int r = RUN(root, 41);
    vp_assert(r == 42, "C04: RUN returns the result");
    vp_reach("end");
    return 0;
}
