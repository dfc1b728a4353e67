/* Random trees of SPAWN / CALL / DROP / SYNC; every task counts its executions. */
#include "delay.h"
#include "lace.c"
#define MAXT (1 << 16)
static atomic_int runs[MAXT], nexttask;
static atomic_int bad;
static unsigned hash(unsigned x) { x ^= x >> 16; x *= 0x7feb352dU; x ^= x >> 15; x *= 0x846ca68bU; x ^= x >> 16; return x; }
static void fail(const char *m) { if (!atomic_fetch_add(&bad, 1)) { fprintf(stderr, "FAILED: %s\n", m); _exit(1); } }
#ifndef DROPS
#define DROPS 1
#endif
TASK_3(int, node, int, id, int, depth, unsigned, seed)
{
    if (atomic_fetch_add(&runs[id], 1)) fail("a task ran twice");
    unsigned h = hash(seed);
    if (depth == 0) { for (volatile unsigned i = 0; i < h % 300; i++) {} return id * 3 + 1; }
    int n = 1 + h % 4, kid[4], drop[4];
    for (int i = 0; i < n; i++) {
        kid[i] = atomic_fetch_add(&nexttask, 1) % MAXT;
        SPAWN(node, kid[i], depth - 1, seed * 5 + i);
        if (hash(seed + i) % 8 == 0) LACE_MAKE_ALL_SHARED();
        drop[i] = DROPS && hash(seed * 7 + i) % 6 == 0;
    }
    if (lace_get_head(__lace_worker) != __lace_dq_head) fail("lace_get_head differs from the head of the running task");
    for (int i = n - 1; i >= 0; i--) {
        if (drop[i]) { DROP(); if (atomic_load_explicit(&runs[kid[i]], memory_order_seq_cst) > 1) fail("a dropped task ran twice"); continue; }
        int r = SYNC(node);
        if (r != kid[i] * 3 + 1) fail("SYNC returned a wrong result");
        if (runs[kid[i]] != 1) fail("a synced task did not run exactly once");
    }
    if (lace_get_head(__lace_worker) != __lace_dq_head) fail("lace_get_head differs after the last SYNC");
    return id * 3 + 1;
}
int main(int argc, char **argv)
{
    int workers = argc > 1 ? atoi(argv[1]) : 4, secs = argc > 2 ? atoi(argv[2]) : 10;
    alarm(secs * 4 + 20);
    time_t end = time(0) + secs;
    unsigned round = 0;
    while (time(0) < end && !bad) {
        lace_start(workers, 1000);
        for (int k = 0; k < 500 && !bad; k++) {
            memset(runs, 0, sizeof runs); nexttask = 1; round++;
            int depth = 2 + round % 4;
            if (RUN(node, 0, depth, round) != 1) fail("the root returned a wrong result");
        }
        lace_stop();
    }
    printf("%u rounds, %d failures\n", round, (int)bad);
    return bad != 0;
}
