/* the workers run on a program stack of the size that was asked for */
#define _GNU_SOURCE
#include "base.h"
#include "lace.c"
TASK_0(long, size)
{
    pthread_attr_t a; size_t n = 0;
    if (pthread_getattr_np(pthread_self(), &a)) return -1;
    pthread_attr_getstacksize(&a, &n);
    pthread_attr_destroy(&a);
    return (long)n;
}
int main(void)
{
    limit(200);
    long want[] = { 512 << 10, 1 << 20, 2 << 20, 32 << 20 };
    for (int i = 0; i < 4; i++) {
        lace_set_stacksize((size_t)want[i]);
        lace_start(1, 100);
        long n = RUN(size);
        lace_stop();
        printf("asked for %ld, got %ld\n", want[i], n);
        if (n < want[i] || n > want[i] + (64 << 10)) fail("program stack of another size");
    }
    return 0;
}
