/* lace_get_head finds the head of the deque, and reads nothing outside of the deque (built with the address sanitizer). */
#include "base.h"
#include "lace.c"
TASK_1(int, leaf, int, x) { return x; }
VOID_TASK_1(root, int, n)
{
    for (int i = 0; i < n; i++) { SPAWN(leaf, i); if (lace_get_head(__lace_worker) != __lace_dq_head) fail("wrong head"); }
    for (int i = n - 1; i >= 0; i--) { if (SYNC(leaf) != i) fail("result"); if (lace_get_head(__lace_worker) != __lace_dq_head) fail("wrong head after SYNC"); }
}
int main(void)
{
    limit(100);
    for (int d = 4; d < 70; d++) { lace_start(1, d); RUN(root, d); lace_stop(); }
    return 0;
}
