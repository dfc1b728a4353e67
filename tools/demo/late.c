/* After RUN is back, nothing of Lace touches the caller's stack. */
#include "base.h"
#include <semaphore.h>
static int slow_post(sem_t *s) { int r = sem_post(s); usleep(60000); return r; }
#define sem_post slow_post
#include "lace.c"
#undef sem_post
TASK_1(int, f, int, x) { return x + 1; }
static __attribute__((noinline)) int callit(int x) { return RUN(f, x); }
static __attribute__((noinline)) void scan(void)
{
    volatile unsigned char a[8192];
    for (int i = 0; i < 8192; i++) a[i] = 0xA5;
    usleep(150000);
    for (int i = 0; i < 8192; i++) if (a[i] != 0xA5) fail("the stack of the caller of RUN changed after RUN was back");
}
int main(void)
{
    limit(60);
    lace_start(1, 100);
    for (int i = 0; i < 5; i++) { if (callit(i) != i + 1) fail("result"); scan(); }
    lace_stop();
    return 0;
}
