/* worker identity: ids, uniqueness, is_worker, across a restart */
#include "vp_env.h"
#include LACE_C
#ifndef W
#define W 2
#endif
#ifndef W2
#define W2 1
#endif
int vp_cnt[8], vp_n, vp_w[3]; WorkerP *vp_wp[8]; Task *vp_dq[8]; int vp_thr[8];
static void who(WorkerP *w)
{
    int id = w->worker;
    vp_assert(id >= 0 && id < vp_n, "C22: worker ids are below the number of workers");
    vp_assert(lace_is_worker() == 1, "C22: lace_is_worker() is 1 in a task");
    vp_assert(lace_get_worker() == w, "C22: a task runs on the worker of its thread");
    vp_assert(lace_workers() == vp_n, "C22: lace_workers() is the number of workers");
    if (vp_cnt[id]++) {
        vp_assert(vp_thr[id] == vp_self(), "C22: no two threads share a worker id");
        vp_assert(vp_dq[id] == w->dq, "C22: the deque of a worker does not change");
    } else {
        vp_thr[id] = vp_self(); vp_dq[id] = w->dq;
        for (int i = 0; i < 8; i++) if (i != id && vp_cnt[i]) {
            vp_assert(vp_dq[i] != w->dq, "C22: no two workers share a deque");
            vp_assert(vp_thr[i] != vp_self(), "C22: a thread has one worker id");
        }
    }
}
VOID_TASK_0(leaf) { who(__lace_worker); vp_reach("leaf"); }
VOID_TASK_0(all) { who(__lace_worker); }
VOID_TASK_0(root)
{
    who(__lace_worker);
    SPAWN(leaf);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    CALL(leaf);
    SYNC(leaf);
#ifdef TOG
    TOGETHER(all);
#endif
}
static void once(int w)
{
    vp_n = w ? w : VP_NCPU;
    for (int i = 0; i < 8; i++) { vp_cnt[i] = 0; }
    vp_assert(lace_is_worker() == 0, "C22: a thread that is not a worker is not one");
    lace_start(w, 4);
    vp_assert(lace_workers() == vp_n, "C22: lace_workers() is the number given to lace_start, or of processors");
    RUN(root);
#ifdef TOG
    TOGETHER(all);
    for (int i = 0; i < vp_n; i++) vp_assert(vp_cnt[i] > 0, "C22: every id below the number of workers is a worker");
#endif
    vp_assert(lace_is_worker() == 0, "C22: a thread that is not a worker is not one");
}
int main(void)
{
    vp_symbolic();
    once(W);
#ifdef AGAIN
    lace_stop();
    once(W2);
#endif
    vp_reach("end");
    return 0;
}
