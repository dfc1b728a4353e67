/* The last barrier before lace_stop: the worker that opens it is held up at each of its stores. */
#include "hook.h"
#include "lace.c"
VOID_TASK_0(all) { after = 2000; lace_barrier(); after = 0; }
VOID_TASK_0(slow) { after = 2000; }
int main(void)
{
    limit(60);
    for (int i = 0; i < 4; i++) { lace_start(3, 100); TOGETHER(all); TOGETHER(slow); lace_stop(); }
    return 0;
}
