/* happens-before of user data across RUN (PROG 1 RUN, 2 RUNEX, 3 two outside threads), TOGETHER (4), NEWFRAME with a stolen
   sub task (5), DROP of a stolen task (6), a task stolen back by its owner's leapfrogging (7), suspend and resume (8) */
#include "vp_env.h"
#include LACE_C
#ifndef W
#define W 2
#endif
#define SEE(i, m) vp_hb_read(i, "C03: " m)
int vp_n, vp_ok;
TASK_1(int, ext, int, i)
{
    SEE(2 * i, "data written before RUN is visible in the task");
    vp_hb_write(2 * i + 1);
    return 5 + i;
}
static void *other(void *a)
{
    vp_hb_write(2);
    int r = RUN(ext, 1); vp_assert(r == 6, "C03,C11: RUN returns the result");
    SEE(3, "what the task wrote is visible after RUN");
    vp_ok = 1;
    return a;
}
TASK_1(int, leaf, int, n)
{
    if (n == 1) { SEE(0, "data written before SPAWN is visible in the task"); vp_hb_write(1); if (LACE_WORKER_ID != 0) vp_reach("stolen"); }
    vp_n++;
    return 100 + n;
}
VOID_TASK_0(copy)
{
    SEE(0, "data written before TOGETHER is visible in every copy");
    if (LACE_WORKER_ID == 0) vp_hb_write(1); else vp_hb_write(2);
}
TASK_1(int, sub, int, k)
{
    SEE(0, "data written before NEWFRAME is visible in the tasks of the new frame");
    vp_hb_write(1);
    return 200 + k;
}
TASK_1(int, nf, int, k)
{
    SPAWN(sub, k);
    LACE_MAKE_ALL_SHARED();
    int r = SYNC(sub);
    SEE(1, "what the task wrote is visible after SYNC");
    vp_hb_write(2);
    return r;
}
TASK_1(int, inner, int, k)
{
    SEE(1, "data written before SPAWN is visible in the task (nested)");
    vp_hb_write(2);
    if (k != LACE_WORKER_ID) vp_reach("back");
    return 300;
}
TASK_1(int, node, int, k)
{
    SEE(0, "data written before SPAWN is visible in the task");
    vp_hb_write(1);
    SPAWN(inner, LACE_WORKER_ID);
    LACE_MAKE_ALL_SHARED();
    int r = SYNC(inner);
    SEE(2, "what the task wrote is visible after SYNC (nested)");
    vp_hb_write(3);
    return r + k;
}
TASK_1(int, root, int, x)
{
    int r; (void)r;
#if PROG != 8
    vp_symbolic();
#endif
    vp_hb_write(0);
#if PROG == 4
    TOGETHER(copy);
    SEE(1, "what the copies wrote is visible after TOGETHER");
    SEE(2, "what the copies wrote is visible after TOGETHER");
#elif PROG == 5
    r = NEWFRAME(nf, 1); vp_assert(r == 201, "C03,C10: NEWFRAME returns the result");
    SEE(2, "what the task wrote is visible after NEWFRAME");
    SEE(1, "what the task wrote is visible after NEWFRAME");
#elif PROG == 6
    SPAWN(leaf, 1);
    LACE_MAKE_ALL_SHARED();
    int before = vp_n;
    DROP();
    if (vp_n != before) SEE(1, "what a stolen task wrote is visible after DROP");
#elif PROG == 7
    SPAWN(node, 1);
    LACE_MAKE_ALL_SHARED();
    r = SYNC(node); vp_assert(r == 301, "C03,C02: SYNC returns the result");
    SEE(3, "what the task wrote is visible after SYNC");
    SEE(2, "what the tasks of the task wrote is visible after SYNC");
#endif
    return x + 1;
}
int main(void)
{
    lace_start(W, 4);
    vp_settle();
#if PROG <= 3
#if PROG == 3
    vp_thread_start(W + 1, other, 0);
#endif
    vp_symbolic();
    vp_hb_write(0);
#if PROG == 2
    int r = RUNEX(ext, 0);
#else
    int r = RUN(ext, 0);
#endif
    vp_assert(r == 5, "C03,C11: RUN returns the result");
    SEE(1, "what the task wrote is visible after RUN");
#if PROG == 3
    while (!vp_ok) vp_point();
#endif
#else
    RUN(root, 41);
#endif
    vp_reach("end");
    return 0;
}
