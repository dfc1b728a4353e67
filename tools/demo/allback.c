/* TOGETHER returns only when no other worker is still in it: a thief is held up after its task. */
#include "hook.h"
#include "lace.c"
static atomic_int taken;
VOID_TASK_0(T) { taken = 1; after = 300000; }
VOID_TASK_0(all)
{
    if (LACE_WORKER_ID == 1) { taken = 0; SPAWN(T); LACE_MAKE_ALL_SHARED(); while (!taken) {} SYNC(T); }
}
static void __attribute__((noinline)) scribble(void) { volatile int a[20000]; for (int i = 0; i < 20000; i++) a[i] = 1; }
VOID_TASK_0(root) { TOGETHER(all); for (int i = 0; i < 100; i++) { scribble(); usleep(10000); } }
int main(void) { limit(120); lace_start(3, 100); for (int i = 0; i < 3; i++) RUN(root); lace_stop(); return 0; }
