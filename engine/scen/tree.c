/* A recursive computation: node i (numbered as in a heap) has children 2i and 2i+1 down to DEPTH; the value of a node
   depends on its number and on which child gave which value, so that a result of another task, an early return or a
   lost task shows. FAN 3: three children. PROG 1 SPAWN+CALL, 2 SPAWN+SPAWN, 3 three SPAWNs
   every task also counts its execution and is checked to be finished at its SYNC */
#include "vp_env.h"
#include LACE_C
#ifndef W
#define W 2
#endif
#ifndef DQ
#define DQ 8
#endif
#ifndef DEPTH
#define DEPTH 2
#endif
#ifndef PROG
#define PROG 1
#endif
#define FAN (PROG == 3 ? 3 : 2)
#define NMAX 48
int vp_started[NMAX], vp_done[NMAX], vp_by[NMAX], vp_gone[NMAX];
static int value(int i, int d)
{
    int v = i;
    if (d > 0) for (int k = 0; k < FAN; k++) v += (2 * k + 3) * value(FAN * i + k, d - 1);
    return v;
}
int vp_val[NMAX];
static void done(int i, int r, int expect, int me)
{
    vp_assert(vp_started[i] == 1, "C02,C01: the task of a SYNC was executed exactly once");
    vp_assert(vp_done[i] == 1, "C02: SYNC returns after the task finished");
    vp_assert(r == expect, "C02: SYNC returns the result of its own task");
    vp_gone[i] = 1;
    if (vp_by[i] != me) vp_reach("stolen");
}
TASK_2(int, node, int, i, int, d)
{
    vp_assert(i >= 0 && i < NMAX && !vp_gone[i] && vp_started[i] == 0, "C02,C01: a task runs once, with its arguments, before its SYNC returns");
    vp_started[i] = 1;
    int me = LACE_WORKER_ID, r = i, a, b;
    if (d > 0) {
#if PROG == 1
        SPAWN(node, 2 * i, d - 1);
#ifdef SHARE
        LACE_MAKE_ALL_SHARED();
#endif
        b = CALL(node, 2 * i + 1, d - 1);
        vp_assert(vp_done[2 * i + 1] == 1 && b == vp_val[2 * i + 1], "C02,C06: CALL returns the result of its task");
        a = SYNC(node); done(2 * i, a, vp_val[2 * i], me);
        r += 3 * a + 5 * b;
#else
        for (int k = 0; k < FAN; k++) SPAWN(node, FAN * i + k, d - 1);
#ifdef SHARE
        LACE_MAKE_ALL_SHARED();
#endif
        for (int k = FAN - 1; k >= 0; k--) { a = SYNC(node); b = FAN * i + k; done(b, a, vp_val[b], me); r += (2 * k + 3) * a; }
#endif
    }
    vp_by[i] = me; vp_done[i] = 1;
    return r;
}
int main(void)
{
    int n = 1, lo = 1;
    for (int d = DEPTH; d >= 0; d--) { for (int k = 0; k < n; k++) vp_val[lo + k] = value(lo + k, d); lo = FAN * lo; n = FAN * n; }
    lace_start(W, DQ);
    vp_settle();
    vp_symbolic();
    int r = RUN(node, 1, DEPTH);
    vp_assert(r == vp_val[1], "C02,C11: RUN returns the result");
    vp_reach("end");
    return 0;
}
