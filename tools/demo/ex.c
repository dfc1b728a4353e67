/* An exclusive task does not run while another external task is running. */
#include "base.h"
#include "lace.c"
static atomic_int in, over;
VOID_TASK_0(slow) { in = 1; usleep(400000); over = 1; }
VOID_TASK_0(alone) { if (in && !over) fail("the exclusive task runs together with another task"); }
static void *other(void *x) { RUN(slow); return x; }
int main(void)
{
    limit(60);
    lace_start(3, 100);
    pthread_t p; pthread_create(&p, 0, other, 0);
    while (!in) {}
    RUNEX(alone);
    pthread_join(p, 0);
    lace_stop();
    return 0;
}
