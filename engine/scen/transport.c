/* Arguments and results of tasks that fill their slot, through the real lace.c. PROG 1 RUN, 2 RUNEX, 3 NEWFRAME, 4 TOGETHER,
   5 SPAWN and SYNC (thief or owner), 6 NEWFRAME in a task, 7 TOGETHER in a task, 8 RUN and RUNEX in a task */
#include "vp_env.h"
#include LACE_C
#ifndef W
#define W 2
#endif
#ifndef PROG
#define PROG 1
#endif
int vp_n, vp_on[8];
static void came(WorkerP *w) { vp_n++; vp_on[w->worker]++; }
#define OKS (a == 501 && b == ~502ull && c == 503 && d == ~504ull && e == 505 && f == ~506ull)
#define GIVES 501, ~502ull, 503, ~504ull, 505, ~506ull
TASK_6(uint64_t, big, uint64_t, a, uint64_t, b, uint64_t, c, uint64_t, d, uint64_t, e, uint64_t, f) { came(__lace_worker); vp_assert(OKS, "C06: every large argument arrives unchanged"); return ~900ull; }
VOID_TASK_6(vbig, uint64_t, a, uint64_t, b, uint64_t, c, uint64_t, d, uint64_t, e, uint64_t, f) { came(__lace_worker); vp_assert(OKS, "C06: every large argument arrives unchanged"); }
#define OK6 (a == 11 && b == 0x123456789abcdefull && c == 513 && d == 0x87654321u && e == 222 && f == 0xfedcba9876543210ull)
#define GIVE6 11, 0x123456789abcdefull, 513, 0x87654321u, 222, 0xfedcba9876543210ull
#if LACE_VER == 14
TASK_14(uint16_t, many, uint8_t, a, uint32_t, b, uint8_t, c, uint16_t, d, uint8_t, e, uint32_t, f, uint8_t, g, uint8_t, h, uint16_t, i, uint8_t, j, uint16_t, k, uint8_t, l, uint8_t, m, uint32_t, n)
{
    came(__lace_worker);
    vp_assert(a == 1 && b == 0x2000002 && c == 3 && d == 0x404 && e == 5 && f == 0x6000006 && g == 7 && h == 8 && i == 0x909 && j == 10 && k == 0xb0b && l == 12 && m == 13 && n == 0xe00000e, "C06: every argument arrives unchanged");
    return 4321;
}
VOID_TASK_14(vmany, uint8_t, a, uint32_t, b, uint8_t, c, uint16_t, d, uint8_t, e, uint32_t, f, uint8_t, g, uint8_t, h, uint16_t, i, uint8_t, j, uint16_t, k, uint8_t, l, uint8_t, m, uint32_t, n)
{
    came(__lace_worker);
    vp_assert(a == 1 && b == 0x2000002 && c == 3 && d == 0x404 && e == 5 && f == 0x6000006 && g == 7 && h == 8 && i == 0x909 && j == 10 && k == 0xb0b && l == 12 && m == 13 && n == 0xe00000e, "C06: every argument arrives unchanged");
}
#define GIVE 1, 0x2000002, 3, 0x404, 5, 0x6000006, 7, 8, 0x909, 10, 0xb0b, 12, 13, 0xe00000e
#else
TASK_6(uint16_t, many, uint8_t, a, uint64_t, b, uint16_t, c, uint32_t, d, uint8_t, e, uint64_t, f) { came(__lace_worker); vp_assert(OK6, "C06: every argument arrives unchanged"); return 4321; }
VOID_TASK_6(vmany, uint8_t, a, uint64_t, b, uint16_t, c, uint32_t, d, uint8_t, e, uint64_t, f) { came(__lace_worker); vp_assert(OK6, "C06: every argument arrives unchanged"); }
#define GIVE GIVE6
#endif
#define BACK(r) vp_assert((r) == 4321, "C06: the result arrives unchanged")
#define BACKB(r) vp_assert((r) == ~900ull, "C06: a large result arrives unchanged")
#define ONCE(k) do { vp_assert(vp_n == (k), "C06,C01: executed as often as asked for"); vp_n = 0; } while (0)
TASK_1(int, low, int, x) { return x + 1; }
VOID_TASK_1(root, int, k)
{
    int r;
    vp_symbolic();
#if PROG == 5
    SPAWN(low, 3); SPAWN(many, GIVE); SPAWN(big, GIVES); SPAWN(vmany, GIVE);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    SYNC(vmany); BACKB(SYNC(big)); BACK(SYNC(many)); ONCE(3);
    if (vp_on[0] && vp_on[1]) vp_reach("stolen");
    r = SYNC(low); vp_assert(r == 4, "C06,C02: the result of the first task");
#else
    SPAWN(low, 3);
#if PROG == 6
    BACK(NEWFRAME(many, GIVE)); ONCE(1); BACKB(NEWFRAME(big, GIVES)); ONCE(1); NEWFRAME(vbig, GIVES); ONCE(1);
#elif PROG == 7
    TOGETHER(vmany, GIVE); ONCE(W); TOGETHER(vbig, GIVES); ONCE(W);
#elif PROG == 8
    BACK(RUN(many, GIVE)); ONCE(1); BACKB(RUN(big, GIVES)); ONCE(1); RUN(vmany, GIVE); ONCE(1);
    BACK(CALL(many, GIVE)); ONCE(1);
#endif
    r = SYNC(low); vp_assert(r == 4, "C06,C02: the result of the first task");
#endif
}
int main(void)
{
    lace_start(W, 5);
    vp_settle();
#if PROG < 5
    vp_symbolic();
#endif
#if PROG == 1
    BACK(RUN(many, GIVE)); ONCE(1); BACKB(RUN(big, GIVES)); ONCE(1); RUN(vmany, GIVE); ONCE(1);
#elif PROG == 2
    BACK(RUNEX(many, GIVE)); ONCE(1); BACKB(RUNEX(big, GIVES)); ONCE(1); RUNEX(vbig, GIVES); ONCE(1);
#elif PROG == 3
    BACK(NEWFRAME(many, GIVE)); ONCE(1); BACKB(NEWFRAME(big, GIVES)); ONCE(1);
#elif PROG == 4
    TOGETHER(vmany, GIVE); ONCE(W); TOGETHER(vbig, GIVES); ONCE(W);
#else
    RUN(root, 0);
#endif
    vp_reach("end");
    lace_stop();
    return 0;
}
