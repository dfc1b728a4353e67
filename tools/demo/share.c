/* Work is asked for, then one task is spawned: the idle worker gets it although the owner does not go on. */
#include "base.h"
#include "lace.c"
static atomic_int ran;
VOID_TASK_0(leaf) { ran++; }
VOID_TASK_0(root)
{
    while (!*(volatile uint8_t *)&__lace_worker->_public->movesplit) {}
    SPAWN(leaf);
    while (!ran) {}
    SYNC(leaf);
}
int main(void) { limit(30); for (int i = 0; i < 3; i++) { ran = 0; lace_start(2, 100); RUN(root); lace_stop(); } return 0; }
