/* A task that is run while leapfrogging spawns a task of its own: the slot of the awaited task must stay. */
#include "base.h"
#include "lace.c"
static atomic_int hold_started, z_started, z_done, y_runs, x_runs;
TASK_0(int, Y) { y_runs++; return 77; }
TASK_0(int, X) { x_runs++; SPAWN(Y); while (!z_done) {} int r = SYNC(Y); return r == 77 ? 5 : 6; }
TASK_0(int, Z) { z_started = 1; for (int i = 0; i < 5000 && !x_runs; i++) usleep(1000); usleep(300000); return 33; }
TASK_0(int, hold)
{
    SPAWN(X); LACE_MAKE_ALL_SHARED(); hold_started = 1;
    while (!z_started) STEAL_RANDOM();
    z_done = 1;
    return SYNC(X);
}
TASK_0(int, root)
{
    SPAWN(hold); LACE_MAKE_ALL_SHARED();
    while (!hold_started) {}
    SPAWN(Z); LACE_MAKE_ALL_SHARED();
    while (!z_started) {}
    if (SYNC(Z) != 33) fail("result of Z");
    return SYNC(hold);
}
int main(void)
{
    limit(20);
    lace_start(2, 100);
    if (RUN(root) != 5) fail("result of hold");
    if (x_runs != 1 || y_runs != 1) fail("a task did not run exactly once");
    lace_stop();
    return 0;
}
