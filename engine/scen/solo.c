/* Progress without the others: from every reachable state, one thread alone finishes its operation while all other
   threads are frozen wherever they are (inside a steal, a SPAWN, a split, ...). Two workers.
   PROG 1: the owner; task 0 never ends once it is stolen, so that tasks 1.. are never stolen
   PROG 2: the thief; it tries to steal while the owner is frozen anywhere in its SPAWNs, SYNCs and DROPs */
/* PROG 3: the thief tries while the owner changes what is shared again and again; 4: the owner works while the thief steals:
   an operation that is disturbed by others does not start all over again and again (attempts to change a shared word are counted)
   PROG 5: with work present a thief that is not disturbed succeeds, whatever others asked for before */
#include "vp_env.h"
#if PROG == 3 || PROG == 4
int vp_cas[VP_MAXTHR];
#undef atomic_compare_exchange_weak
#undef atomic_compare_exchange_strong
#undef atomic_compare_exchange_weak_explicit
#undef atomic_compare_exchange_strong_explicit
#define atomic_compare_exchange_weak(o, e, d) (vp_cas[vp_self()]++, __c11_atomic_compare_exchange_weak(o, e, d, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
#define atomic_compare_exchange_strong(o, e, d) (vp_cas[vp_self()]++, __c11_atomic_compare_exchange_strong(o, e, d, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
#define atomic_compare_exchange_weak_explicit(o, e, d, a, b) (vp_cas[vp_self()]++, __c11_atomic_compare_exchange_weak(o, e, d, a, b))
#define atomic_compare_exchange_strong_explicit(o, e, d, a, b) (vp_cas[vp_self()]++, __c11_atomic_compare_exchange_strong(o, e, d, a, b))
#define FEW(op, msg) do { int c_ = vp_cas[vp_self()]; op; vp_assert(vp_cas[vp_self()] - c_ <= 2, msg); } while (0)
#endif
#include LACE_C
#ifndef PROG
#define PROG 1
#endif
int vp_st[8], vp_go, vp_in, vp_end, vp_n;
TASK_1(int, leaf, int, n) { vp_st[n]++; if (LACE_WORKER_ID) vp_n++; return 100 + n; }
TASK_1(int, forever, int, n) { for (;;) vp_point(); return n; }
TASK_0(int, driver)
{
    vp_in = 1;
    while (!vp_go) vp_point();
#if PROG == 3
    FEW(STEAL_RANDOM(), "C18: a steal attempt is not repeated for as long as others change the deque");
    vp_reach("end");
    while (!vp_end) vp_point();
#elif PROG == 4
    while (!vp_end) STEAL_RANDOM();
#elif PROG == 5
    STEAL_RANDOM(); STEAL_RANDOM();     /* may ask for more */
    vp_in = 2;
    while (vp_go != 2) vp_point();
    int n_ = vp_n;
    STEAL_RANDOM();
    vp_assert(vp_n == n_ + 1, "C18: a steal attempt that nobody disturbs succeeds when there is work");
    vp_reach("end");
    vp_end = 1;
#else
    STEAL_RANDOM();
    STEAL_RANDOM();
    vp_reach("alone");
    for (;;) vp_point();
#endif
    return 1;
}
TASK_0(int, root)
{
#if PROG == 1
    vp_symbolic();
    SPAWN(forever, 0);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    SPAWN(leaf, 1);
#ifdef SHARE2
    LACE_MAKE_ALL_SHARED();
#endif
    SPAWN(leaf, 2);
#ifdef SHARE3
    LACE_MAKE_ALL_SHARED();
#endif
#ifdef DROPS
    DROP(); DROP();
    SPAWN(leaf, 3);
    DROP();
#else
    int r = SYNC(leaf);
    vp_assert(r == 102, "C18,C02: SYNC of a task that nobody stole");
    r = SYNC(leaf);
    vp_assert(r == 101, "C18,C02: SYNC of a task that nobody stole");
    SPAWN(leaf, 3);
#endif
    vp_reach("alone");
    for (;;) vp_point();
#elif PROG == 3
    SPAWN(driver);
    LACE_MAKE_ALL_SHARED();
    while (!vp_in) vp_point();
    vp_go = 1;
    SPAWN(leaf, 0);
    LACE_MAKE_ALL_SHARED();
    vp_symbolic();
#ifdef TAKEBACK
    for (int i = 1; i < 4; i++) { SPAWN(leaf, i); LACE_MAKE_ALL_SHARED(); SYNC(leaf); }
#else
    for (int i = 1; i < 4; i++) { SPAWN(leaf, i); LACE_MAKE_ALL_SHARED(); }
    for (int i = 1; i < 4; i++) SYNC(leaf);
#endif
    SYNC(leaf);
    vp_end = 1;
    SYNC(driver);
#elif PROG == 4
    SPAWN(driver);
    LACE_MAKE_ALL_SHARED();
    while (!vp_in) vp_point();
    vp_go = 1;
    for (int i = 0; i < 4; i++) SPAWN(leaf, i);
    LACE_MAKE_ALL_SHARED();
    vp_symbolic();
    FEW(SPAWN(leaf, 4), "C18: SPAWN is not repeated for as long as others change the deque");
#ifdef DROPS
    FEW(DROP(), "C18: DROP is not repeated for as long as others change the deque");
    FEW(DROP(), "C18: DROP is not repeated for as long as others change the deque");
#else
    FEW(SYNC(leaf), "C18: SYNC is not repeated for as long as others change the deque");
    FEW(SYNC(leaf), "C18: SYNC is not repeated for as long as others change the deque");
#endif
    for (int i = 0; i < 3; i++) SYNC(leaf);
    vp_end = 1;
    SYNC(driver);
    vp_reach("end");
#elif PROG == 5
    int n = 0;
    SPAWN(driver);
    LACE_MAKE_ALL_SHARED();
    while (!vp_in) vp_point();
    vp_symbolic();
    vp_go = 1;
#ifdef SHARE
    SPAWN(leaf, 0); n++;
    LACE_MAKE_ALL_SHARED();
#endif
#ifdef PRIV
    SPAWN(leaf, 1); n++;
    SPAWN(leaf, 2); n++;
#endif
    while (vp_in != 2) vp_point();
#ifndef NOSP
    SPAWN(leaf, 3); n++;
#endif
    LACE_MAKE_ALL_SHARED();
    vp_go = 2;
    while (!vp_end) vp_point();
    while (n--) SYNC(leaf);
    SYNC(driver);
#else
    SPAWN(driver);
    LACE_MAKE_ALL_SHARED();
    while (!vp_in) vp_point();
    vp_go = 1;
    vp_symbolic();
    SPAWN(leaf, 0);
#ifdef SHARE
    LACE_MAKE_ALL_SHARED();
#endif
    SPAWN(leaf, 1);
#ifdef SHARE2
    LACE_MAKE_ALL_SHARED();
#endif
    SYNC(leaf);
#ifdef DROPS
    DROP();
#else
    SYNC(leaf);
#endif
    SPAWN(leaf, 2);
    for (;;) vp_point();
#endif
    return 1;
}
int main(void)
{
    lace_start(2, 6);
    vp_settle();
    RUN(root);
    return 0;
}
