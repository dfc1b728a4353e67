/* W workers use lace_barrier K times in a row. The worker threads that
   lace_start creates run bar_user instead of the steal loop. */
static void *bar_user(void *);
#define VP_THREAD_FN bar_user
#include "vp_env.h"
#include LACE_C
#ifndef W
#define W 2
#endif
#ifndef K
#define K 2
#endif
int vp_entered[K], vp_left[K], vp_n;
static void *bar_user(void *a)
{
    int me = (int)(size_t)a;
    if (me == 0) vp_symbolic();
    for (int k = 0; k < K; k++) {
        vp_entered[k]++;
        if (k == HBK_) vp_hb_write(me & 1);
        lace_barrier();
        vp_assert(vp_entered[k] == W, "C08: nobody leaves a barrier before everybody entered it");
        if (k == HBK_) { for (int i = 0; i < 2; i++) vp_hb_read(i, "C03,C08: writes before a barrier are visible after it"); }
        vp_left[k]++;
    }
    return 0;
}
int main(void)
{
    lace_start(W, 2);
    for (int i = 1; i <= W; i++) while (!vp_finished(i)) vp_point();
    for (int k = 0; k < K; k++) vp_assert(vp_left[k] == W, "C08: everybody left");
    vp_reach("end");
    return 0;
}
