/* Lace runs with as many workers as asked for. */
#include "base.h"
#include "lace.c"
static atomic_int seen[256];
VOID_TASK_0(all) { seen[LACE_WORKER_ID]++; if (!lace_is_worker()) fail("not a worker"); }
int main(void)
{
    limit(100);
    int c = (int)sysconf(_SC_NPROCESSORS_ONLN);
    int ns[] = {1, 2, c, c + 1, c + 3};
    for (int k = 0; k < 5; k++) {
        for (int i = 0; i < 256; i++) seen[i] = 0;
        lace_start(ns[k], 100);
        if ((int)lace_workers() != ns[k]) fail("lace_workers");
        TOGETHER(all);
        for (int i = 0; i < 256; i++) if (seen[i] != (i < ns[k])) fail("every worker once");
        lace_stop();
    }
    return 0;
}
