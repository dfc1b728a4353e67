/* A task waits with STEAL_RANDOM for another worker, which asks for a new frame first. */
#include "base.h"
#include "lace.c"
static atomic_int waiting, flag;
VOID_TASK_0(waiter) { waiting = 1; while (!flag) STEAL_RANDOM(); }
VOID_TASK_0(inner) { }
VOID_TASK_0(root)
{
    waiting = flag = 0;
    SPAWN(waiter); LACE_MAKE_ALL_SHARED();
    while (!waiting) {}
    NEWFRAME(inner);
    flag = 1;
    SYNC(waiter);
}
int main(void) { limit(20); lace_start(2, 100); for (int i = 0; i < 3; i++) RUN(root); lace_stop(); return 0; }
