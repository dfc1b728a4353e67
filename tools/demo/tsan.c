/* What a stolen task wrote is visible to the task that synced it (built with the thread sanitizer; Lace's own
   flag bytes are left out, the task bodies are not). */
#include "base.h"
#include "lace.c"
static atomic_int started; static long back[4];
VOID_TASK_0(first) { atomic_store_explicit(&started, 1, memory_order_relaxed); }
TASK_1(long, leaf, long, x)
{
    for (int i = 0; i < 4; i++) back[i] = i + x;
    atomic_store_explicit(&started, 1, memory_order_relaxed);
    return x;
}
static __attribute__((noinline)) long readback(void) { long s = 0; for (int i = 0; i < 4; i++) s += back[i]; return s; }
VOID_TASK_0(root)
{
    SPAWN(first); LACE_MAKE_ALL_SHARED(); while (!atomic_load_explicit(&started, memory_order_relaxed)) {} SYNC(first);
    for (int k = 0; k < 20; k++) {
        atomic_store_explicit(&started, 0, memory_order_relaxed);
        SPAWN(leaf, k);
        while (!atomic_load_explicit(&started, memory_order_relaxed)) {}
        if (SYNC(leaf) != k) fail("result");
        if (readback() != 4 * k + 6) fail("data");
    }
}
int main(void) { limit(100); lace_start(2, 100); RUN(root); lace_stop(); return 0; }
