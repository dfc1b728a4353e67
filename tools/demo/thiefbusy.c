/* A thief that asked for work earlier takes the work that appears afterwards. */
#include "base.h"
#include "lace.c"
static atomic_int ran;
VOID_TASK_0(leaf) { ran = 1; }
VOID_TASK_0(root)
{
    ran = 0;
    SPAWN(leaf);
    usleep(20000); /* the other worker has found nothing */
    LACE_MAKE_ALL_SHARED();
    for (int i = 0; i < 5000 && !ran; i++) usleep(1000);
    if (!ran) fail("a shared task is not taken by the idle worker");
    SYNC(leaf);
}
int main(void) { limit(100); lace_start(2, 100); for (int i = 0; i < 3; i++) RUN(root); lace_stop(); return 0; }
