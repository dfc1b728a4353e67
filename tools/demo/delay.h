/* Small random delays at the atomic operations of the real lace.c (include this
   before lace.c), so that narrow windows are hit in a short run. */
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
static __thread uint64_t dl_s;
static void dl(void)
{
    if (!dl_s) dl_s = (uintptr_t)&dl_s * 2654435761u + (uint64_t)time(0) * 7919 + 1;
    dl_s = dl_s * 6364136223846793005ULL + 1442695040888963407ULL;
    unsigned r = (dl_s >> 33) & 1023;
    if (r < 60) for (volatile unsigned i = 0; i < (dl_s >> 20) % 2000; i++) {}
    else if (r < 62) sched_yield();
}
#undef atomic_thread_fence
#define atomic_thread_fence(o) (dl(), __atomic_thread_fence(o), dl())
#undef atomic_compare_exchange_weak
#define atomic_compare_exchange_weak(p, e, d) (dl(), __atomic_compare_exchange_n(p, e, d, 1, 5, 5))
#undef atomic_store_explicit
#define atomic_store_explicit(p, v, o) (dl(), __atomic_store_n(p, v, o), dl())
#undef atomic_load_explicit
#define atomic_load_explicit(p, o) (dl(), __atomic_load_n(p, (o) == memory_order_consume ? memory_order_acquire : (o)))
