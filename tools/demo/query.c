/* what the task queries say about a stolen task, while it runs and after it has finished */
#include "base.h"
#include "lace.c"
static atomic_int go, in, left;
TASK_0(int, leaf) { in = 1 + LACE_WORKER_ID; while (!go) {} left = 1; return 1234; }
TASK_1(int, root, int, x)
{
    int me = LACE_WORKER_ID, bad = 0;
    Task *t = __lace_dq_head;
    SPAWN(leaf);
    LACE_MAKE_ALL_SHARED();
    while (!in) {}
    if (in != 1 + me) {
        if (!TASK_IS_STOLEN(t)) bad |= 2;
        if (TASK_IS_COMPLETED(t)) bad |= 4;
    }
    go = 1;
    for (int i = 0; i < 2000 && !TASK_IS_COMPLETED(t); i++) usleep(1000);
    if (!TASK_IS_COMPLETED(t) || !left) bad |= 8;
    if (!TASK_IS_STOLEN(t)) bad |= 16;
    if (*(int *)TASK_RESULT(t) != 1234) bad |= 32;
    if (SYNC(leaf) != 1234) bad |= 64;
    return bad + x;
}
int main(void)
{
    limit(200);
    lace_start(2, 100);
    int bad = RUN(root, 0);
    lace_stop();
    printf("wrong answers: %d\n", bad);
    return bad != 0;
}
