/* The parameters of a task of arity 12 arrive in order whichever way SYNC goes. */
#include "base.h"
#include "lace14.c"
TASK_12(long, t12, int, a, int, b, int, c, int, d, int, e, int, f, int, g, int, h, int, i, int, j, int, k, int, l)
{ return a + 2L * b + 3L * c + 4L * d + 5L * e + 6L * f + 7L * g + 8L * h + 9L * i + 10L * j + 11L * k + 12L * l; }
VOID_TASK_0(root)
{
    long want = 0;
    for (int i = 1; i <= 12; i++) want += (long)i * i * i;
    for (int k = 0; k < 4; k++) {
        SPAWN(t12, 1, 4, 9, 16, 25, 36, 49, 64, 81, 100, 121, 144);
        if (k & 1) __lace_worker->_public->movesplit = 1;
        if (k & 2) LACE_MAKE_ALL_SHARED();
        if (SYNC(t12) != want) fail("wrong result");
    }
    if (RUN(t12, 1, 4, 9, 16, 25, 36, 49, 64, 81, 100, 121, 144) != want) fail("wrong result of RUN");
}
int main(void) { limit(60); lace_start(1, 100); RUN(root); lace_stop(); return 0; }
