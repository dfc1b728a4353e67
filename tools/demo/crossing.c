/* SYNC takes half of the shared tasks back while the thief goes past that half. */
#include "hook.h"
#include "lace.c"
static atomic_int runs[4];
TASK_1(int, leaf, int, i)
{
    runs[i]++;
    if (i == 2 && LACE_WORKER_ID != 0) usleep(400000);
    return i;
}
TASK_0(int, root)
{
    for (int i = 0; i < 4; i++) SPAWN(leaf, i);
    LACE_MAKE_ALL_SHARED();
    before = 100000; int r = SYNC(leaf); before = 0;
    for (int i = 2; i >= 0; i--) r += SYNC(leaf);
    return r;
}
int main(void)
{
    limit(60); lace_start(2, 100);
    for (int k = 0; k < 3; k++) {
        memset(runs, 0, sizeof runs);
        if (RUN(root) != 6) fail("result");
        for (int i = 0; i < 4; i++) if (runs[i] != 1) fail("a task did not run exactly once");
    }
    lace_stop(); return 0;
}
