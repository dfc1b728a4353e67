/* A task that another worker runs is dropped: DROP comes back after that worker is done with it. */
#include "base.h"
#include "lace.c"
static atomic_int started, go, done;
VOID_TASK_0(slow) { started = 1; while (!go) {} usleep(1000); done = 1; }
static void *later(void *x) { while (!started) {} usleep(200000); go = 1; return x; }
VOID_TASK_0(root)
{
    SPAWN(slow);
    LACE_MAKE_ALL_SHARED();
    while (!started) {}
    DROP();
    if (!done) fail("DROP came back while the task was running");
}
int main(void)
{
    limit(60);
    lace_start(2, 100);
    pthread_t p; pthread_create(&p, 0, later, 0);
    RUN(root);
    lace_stop();
    return 0;
}
