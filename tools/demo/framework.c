/* Work spawned after a new frame that interrupted a worker whose tasks had all been stolen is still given away. */
#include "base.h"
#include "lace.c"
static atomic_int taken[2], go, ran;
VOID_TASK_1(held, int, i) { taken[i] = 1; while (!go) STEAL_RANDOM(); }
VOID_TASK_0(quick) { }
VOID_TASK_0(inner) { }
VOID_TASK_0(leaf) { ran = 1; }
VOID_TASK_0(root)
{
    taken[0] = taken[1] = go = ran = 0;
    SPAWN(held, 0); LACE_MAKE_ALL_SHARED();
    while (!taken[0]) {}
    SPAWN(quick); LACE_MAKE_ALL_SHARED();
    { TailSplitNA n; do n.v = __lace_worker->_public->ts.v; while (n.ts.tail != n.ts.split); }
    SYNC(quick); /* everything is stolen, and this worker knows it */
    NEWFRAME(inner);
    SPAWN(leaf); LACE_MAKE_ALL_SHARED();
    for (int i = 0; i < 5000 && !ran; i++) usleep(1000);
    if (!ran) fail("a shared task is not given away");
    SYNC(leaf);
    go = 1;
    SYNC(held);
}
int main(void) { limit(100); lace_start(2, 100); for (int i = 0; i < 3; i++) RUN(root); lace_stop(); return 0; }
