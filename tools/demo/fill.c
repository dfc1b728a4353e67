/* A deque of <dqsize> tasks holds <dqsize> tasks (built with the address sanitizer). */
#include "base.h"
#include "lace.c"
TASK_1(int, leaf, int, x) { return x; }
VOID_TASK_1(root, int, n) { for (int i = 0; i < n; i++) SPAWN(leaf, i); for (int i = n - 1; i >= 0; i--) if (SYNC(leaf) != i) fail("result"); }
int main(void)
{
    limit(60);
    static const int dq[] = {1, 2, 3, 8, 100, 1000};
    for (int i = 0; i < 6; i++) { lace_start(1, dq[i]); RUN(root, dq[i]); lace_stop(); }
    return 0;
}
