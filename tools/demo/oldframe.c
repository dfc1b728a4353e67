/* No task of the interrupted computation runs in the new frame: the worker that asks for the frame is slow to enter it. */
#include "hook.h"
#include "lace.c"
static atomic_int t_started, t_done;
VOID_TASK_0(T) { t_started = 1; usleep(300000); t_done = 1; }
VOID_TASK_0(inner) { if (t_started && !t_done) fail("a task of the interrupted computation runs during the new frame"); usleep(50000); if (t_started && !t_done) fail("a task of the interrupted computation runs during the new frame"); }
VOID_TASK_0(root)
{
    t_started = t_done = 0;
    SPAWN(T); LACE_MAKE_ALL_SHARED();
    before = 100000; NEWFRAME(inner); before = 0;
    SYNC(T);
    if (!t_done) fail("lost");
}
int main(void) { limit(60); lace_start(2, 100); for (int i = 0; i < 3; i++) RUN(root); lace_stop(); return 0; }
