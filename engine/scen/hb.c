/* happens-before of user data: written before SPAWN, read in the task;
   written in the task, read after SYNC */
#include "vp_env.h"
#include LACE_C
int vp_pre, vp_owner;
TASK_1(int, leaf, int, n)
{
    if (n == 8) vp_pre = 1;
    if (n == 1) {
    vp_hb_read(0, "C03: data written before SPAWN is visible in the task");
    vp_hb_write(1);
    }
    if (n == 1 && LACE_WORKER_ID != vp_owner) vp_reach("stolen");
    return 100 + n;
}
TASK_1(int, root, int, x)
{
    vp_owner = LACE_WORKER_ID;
#ifdef PRE                              /* an earlier task was stolen and is finished */
    SPAWN(leaf, 8);
    LACE_MAKE_ALL_SHARED();
    while (!vp_pre) vp_point();
    SYNC(leaf);
#endif
    vp_symbolic();
#if NX
    SPAWN(leaf, 7);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
#endif
    vp_hb_write(0);
    SPAWN(leaf, 1);
#ifdef SHARE2
    LACE_MAKE_ALL_SHARED();
#endif
#ifdef LAST
    SPAWN(leaf, 9);
    SYNC(leaf);
#endif
    int r = SYNC(leaf);
    vp_hb_read(1, "C03: what the task wrote is visible after SYNC");
#if NX
    SYNC(leaf);
#endif
    return x + 1;
}
int main(void)
{
    lace_start(2, 4);
    vp_settle();
    RUN(root, 41);
    vp_reach("end");
    return 0;
}
