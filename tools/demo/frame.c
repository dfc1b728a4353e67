/* NEWFRAME with tasks outstanding, shared and not: they are still there afterwards. */
#include "base.h"
#include "lace.c"
TASK_1(int, leaf, int, i) { return 3 * i + 1; }
TASK_1(int, inner, int, n) { for (int i = 0; i < n; i++) SPAWN(leaf, 100 + i); int s = 0; for (int i = 0; i < n; i++) s += SYNC(leaf); return s; }
VOID_TASK_2(root, int, n, int, share)
{
    for (int i = 0; i < n; i++) { SPAWN(leaf, i); if (i == share) LACE_MAKE_ALL_SHARED(); }
    if (NEWFRAME(inner, 4) != 4 + 3 * 406) fail("result of NEWFRAME");
    for (int i = n - 1; i >= 0; i--) if (SYNC(leaf) != 3 * i + 1) fail("a task from before the new frame was lost");
}
int main(void)
{
    limit(100);
    for (int w = 1; w < 3; w++) { lace_start(w, 100); for (int n = 0; n < 8; n++) for (int k = 0; k < 8; k++) RUN(root, n, k); lace_stop(); }
    return 0;
}
