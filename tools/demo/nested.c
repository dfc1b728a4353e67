/* One of the workers in a TOGETHER asks for a new frame when the others are done with their part. */
#include "base.h"
#include "lace.c"
static atomic_int left, inner_ran;
VOID_TASK_0(inner) { inner_ran++; }
VOID_TASK_0(all) { left--; if (LACE_WORKER_ID == 0) { while (left) {} usleep(20000); NEWFRAME(inner); } }
int main(void) { limit(30); lace_start(3, 100); left = 3; TOGETHER(all); if (inner_ran != 1) fail("inner"); left = 3; TOGETHER(all); if (inner_ran != 2) fail("inner"); lace_stop(); return 0; }
