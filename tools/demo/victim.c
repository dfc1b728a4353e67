/* A worker looking for work with STEAL_RANDOM takes the work of others, never its own. */
#include "base.h"
#include "lace.c"
static atomic_int in, go, ran;
VOID_TASK_0(blocker) { in = 1; while (!go) {} }
VOID_TASK_0(leaf) { ran++; }
VOID_TASK_0(root)
{
    SPAWN(blocker); LACE_MAKE_ALL_SHARED(); while (!in) {}
    for (int i = 0; i < 4; i++) SPAWN(leaf);
    LACE_MAKE_ALL_SHARED();
    for (int i = 0; i < 2000; i++) STEAL_RANDOM();
    if (ran) fail("a worker stole from itself");
    go = 1;
    for (int i = 0; i < 4; i++) SYNC(leaf);
    SYNC(blocker);
    if (ran != 4) fail("count");
}
int main(void) { limit(60); lace_start(2, 100); RUN(root); lace_stop(); return 0; }
