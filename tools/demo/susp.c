/* Another thread resumes as soon as the workers are suspended. */
#include "base.h"
static atomic_int lace_awaken_count, suspended;
#undef atomic_store_explicit
#define atomic_store_explicit(p, v, o) ({ __typeof__(p) p_ = (p); __atomic_store_n(p_, v, o); if ((void *)p_ == (void *)&lace_awaken_count && (long)(v) == 0) { suspended++; usleep(100000); } (void)0; })
#include "lace.c"
VOID_TASK_0(nop) { }
static void *other(void *x) { while (!suspended) {} lace_resume(); RUN(nop); lace_suspend(); return x; }
int main(void)
{
    limit(30);
    lace_start(2, 100);
    RUN(nop);
    pthread_t p; pthread_create(&p, 0, other, 0);
    lace_suspend();
    pthread_join(p, 0);
    lace_resume();
    RUN(nop);
    lace_stop();
    return 0;
}
