/* SYNC right after the task was taken, before the thief has left its mark. */
#include "hook.h"
#include "lace.c"
TASK_1(int, leaf, int, i) { usleep(2000); return 3 * i; }
VOID_TASK_0(root)
{
    int me = LACE_WORKER_ID; before = 0;
    for (int i = 0; i < 5; i++) {
        SPAWN(leaf, i); LACE_MAKE_ALL_SHARED();
        volatile Worker *p = workers[me];
        for (;;) { TailSplitNA n; n.v = p->ts.v; if (n.ts.tail == n.ts.split && n.ts.tail != 0) break; }
        if (SYNC(leaf) != 3 * i) fail("result");
    }
    before = 5000;
}
VOID_TASK_0(slow) { before = 5000; }
int main(void) { limit(120); lace_start(2, 100); TOGETHER(slow); for (int i = 0; i < 2; i++) RUN(root); lace_stop(); return 0; }
