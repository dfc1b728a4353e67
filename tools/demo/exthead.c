/* A worker that has tasks waiting takes up an external task with STEAL_RANDOM: its own tasks are not disturbed. */
#include "base.h"
#include "lace.c"
static atomic_int want, ran;
TASK_1(int, leaf, int, x) { return x * 3; }
TASK_1(int, ext, int, x) { for (int i = 0; i < 4; i++) SPAWN(leaf, 1000 + i); int s = x; for (int i = 0; i < 4; i++) s += SYNC(leaf); ran = 1; return s; }
static void *other(void *x) { while (!want) {} if (RUN(ext, 5) != 5 + 3 * 4006) fail("result of RUN"); return x; }
VOID_TASK_0(root)
{
    for (int i = 0; i < 4; i++) SPAWN(leaf, i);
    want = 1;
    while (!ran) STEAL_RANDOM();
    for (int i = 3; i >= 0; i--) if (SYNC(leaf) != 3 * i) fail("the external task overwrote a waiting task");
}
int main(void)
{
    limit(60);
    lace_start(1, 100);
    pthread_t p; pthread_create(&p, 0, other, 0);
    RUN(root);
    pthread_join(p, 0);
    lace_stop();
    return 0;
}
