/* One task more than the deque holds: the program ends with the overflow message. */
#include "base.h"
#include "lace.c"
TASK_1(int, leaf, int, x) { return x; }
VOID_TASK_1(root, int, n) { for (int i = 0; i < n; i++) SPAWN(leaf, i); for (int i = n - 1; i >= 0; i--) if (SYNC(leaf) != i) fail("result"); }
int main(void)
{
    limit(60);
    for (int d = 4; d < 9; d++) for (int k = 0; k < 2; k++) {
        pid_t p = fork();
        if (!p) { lace_start(1, d); RUN(root, d + k); lace_stop(); _exit(0); }
        int st; waitpid(p, &st, 0);
        if (k == 0 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) fail("a full deque is fine");
        if (k == 1 && !(WIFEXITED(st) && WEXITSTATUS(st) != 0)) fail("overflow not noticed");
    }
    return 0;
}
