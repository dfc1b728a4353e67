/* Transport of arguments and results for every arity: the macros and inline code of the header are under test;
   lace_run_* are replaced by their contract "the task is executed once, somewhere" (their own behaviour: C09 to C12).
   OP: 1 CALL  2 SPAWN;SYNC by the owner, fast  3 SPAWN;SYNC by the owner, slow (work requested)
   4 SPAWN;stolen;SYNC  5 RUN  6 RUNEX  7 NEWFRAME  8 TOGETHER  9 SPAWN of two tasks, SYNC of both, the lower one stolen */
#include "c06pre.h"
static uint64_t giv[16], got[16]; static int count, last_worker, last_id; static uint64_t ret;
#ifdef MIXED
typedef uint8_t T1; typedef uint64_t T2; typedef uint16_t T3; typedef uint32_t T4; typedef uint8_t T5; typedef uint64_t T6; typedef int16_t T7;
typedef uint64_t T8; typedef uint8_t T9; typedef uint32_t T10; typedef uint64_t T11; typedef uint16_t T12; typedef uint8_t T13; typedef uint64_t T14;
typedef uint16_t R;
#else
typedef uint64_t T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, R;
#endif
static void setup(void)
{
    w0.dq = dq0; w0.split = dq0; w0.end = dq0 + NDQ; w0._public = &pub0; w0.worker = 0; w0.allstolen = 1;
    w1.dq = dq1; w1.split = dq1; w1.end = dq1 + NDQ; w1._public = &pub1; w1.worker = 1; w1.allstolen = 1;
    pub0.dq = dq0; pub0.allstolen = 1; pub1.dq = dq1; pub1.allstolen = 1;
}
static void fresh(void) { for (int i = 0; i < 16; i++) got[i] = ~giv[i]; count = 0; last_id = -1; }

#if LACE_VER >= 0
TASK_0(R, f0) { count++; last_id = 0; last_worker = LACE_WORKER_ID;  return (R)ret; }
VOID_TASK_0(v0) { count++; last_id = 100 + 0; last_worker = LACE_WORKER_ID;  }
#endif
#if LACE_VER >= 1
TASK_1(R, f1, T1, a1) { count++; last_id = 1; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; return (R)ret; }
VOID_TASK_1(v1, T1, a1) { count++; last_id = 100 + 1; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; }
#endif
#if LACE_VER >= 2
TASK_2(R, f2, T1, a1, T2, a2) { count++; last_id = 2; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; return (R)ret; }
VOID_TASK_2(v2, T1, a1, T2, a2) { count++; last_id = 100 + 2; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; }
#endif
#if LACE_VER >= 3
TASK_3(R, f3, T1, a1, T2, a2, T3, a3) { count++; last_id = 3; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; return (R)ret; }
VOID_TASK_3(v3, T1, a1, T2, a2, T3, a3) { count++; last_id = 100 + 3; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; }
#endif
#if LACE_VER >= 4
TASK_4(R, f4, T1, a1, T2, a2, T3, a3, T4, a4) { count++; last_id = 4; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; return (R)ret; }
VOID_TASK_4(v4, T1, a1, T2, a2, T3, a3, T4, a4) { count++; last_id = 100 + 4; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; }
#endif
#if LACE_VER >= 5
TASK_5(R, f5, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5) { count++; last_id = 5; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; return (R)ret; }
VOID_TASK_5(v5, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5) { count++; last_id = 100 + 5; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; }
#endif
#if LACE_VER >= 6
TASK_6(R, f6, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6) { count++; last_id = 6; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; return (R)ret; }
VOID_TASK_6(v6, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6) { count++; last_id = 100 + 6; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; }
#endif
#if LACE_VER >= 7
TASK_7(R, f7, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6, T7, a7) { count++; last_id = 7; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; got[7] = (uint64_t)a7; return (R)ret; }
VOID_TASK_7(v7, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6, T7, a7) { count++; last_id = 100 + 7; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; got[7] = (uint64_t)a7; }
#endif
#if LACE_VER >= 8
TASK_8(R, f8, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6, T7, a7, T8, a8) { count++; last_id = 8; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; got[7] = (uint64_t)a7; got[8] = (uint64_t)a8; return (R)ret; }
VOID_TASK_8(v8, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6, T7, a7, T8, a8) { count++; last_id = 100 + 8; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; got[7] = (uint64_t)a7; got[8] = (uint64_t)a8; }
#endif
#if LACE_VER >= 9
TASK_9(R, f9, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6, T7, a7, T8, a8, T9, a9) { count++; last_id = 9; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; got[7] = (uint64_t)a7; got[8] = (uint64_t)a8; got[9] = (uint64_t)a9; return (R)ret; }
VOID_TASK_9(v9, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6, T7, a7, T8, a8, T9, a9) { count++; last_id = 100 + 9; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; got[7] = (uint64_t)a7; got[8] = (uint64_t)a8; got[9] = (uint64_t)a9; }
#endif
#if LACE_VER >= 10
TASK_10(R, f10, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6, T7, a7, T8, a8, T9, a9, T10, a10) { count++; last_id = 10; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; got[7] = (uint64_t)a7; got[8] = (uint64_t)a8; got[9] = (uint64_t)a9; got[10] = (uint64_t)a10; return (R)ret; }
VOID_TASK_10(v10, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6, T7, a7, T8, a8, T9, a9, T10, a10) { count++; last_id = 100 + 10; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; got[7] = (uint64_t)a7; got[8] = (uint64_t)a8; got[9] = (uint64_t)a9; got[10] = (uint64_t)a10; }
#endif
#if LACE_VER >= 11
TASK_11(R, f11, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6, T7, a7, T8, a8, T9, a9, T10, a10, T11, a11) { count++; last_id = 11; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; got[7] = (uint64_t)a7; got[8] = (uint64_t)a8; got[9] = (uint64_t)a9; got[10] = (uint64_t)a10; got[11] = (uint64_t)a11; return (R)ret; }
VOID_TASK_11(v11, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6, T7, a7, T8, a8, T9, a9, T10, a10, T11, a11) { count++; last_id = 100 + 11; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; got[7] = (uint64_t)a7; got[8] = (uint64_t)a8; got[9] = (uint64_t)a9; got[10] = (uint64_t)a10; got[11] = (uint64_t)a11; }
#endif
#if LACE_VER >= 12
TASK_12(R, f12, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6, T7, a7, T8, a8, T9, a9, T10, a10, T11, a11, T12, a12) { count++; last_id = 12; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; got[7] = (uint64_t)a7; got[8] = (uint64_t)a8; got[9] = (uint64_t)a9; got[10] = (uint64_t)a10; got[11] = (uint64_t)a11; got[12] = (uint64_t)a12; return (R)ret; }
VOID_TASK_12(v12, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6, T7, a7, T8, a8, T9, a9, T10, a10, T11, a11, T12, a12) { count++; last_id = 100 + 12; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; got[7] = (uint64_t)a7; got[8] = (uint64_t)a8; got[9] = (uint64_t)a9; got[10] = (uint64_t)a10; got[11] = (uint64_t)a11; got[12] = (uint64_t)a12; }
#endif
#if LACE_VER >= 13
TASK_13(R, f13, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6, T7, a7, T8, a8, T9, a9, T10, a10, T11, a11, T12, a12, T13, a13) { count++; last_id = 13; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; got[7] = (uint64_t)a7; got[8] = (uint64_t)a8; got[9] = (uint64_t)a9; got[10] = (uint64_t)a10; got[11] = (uint64_t)a11; got[12] = (uint64_t)a12; got[13] = (uint64_t)a13; return (R)ret; }
VOID_TASK_13(v13, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6, T7, a7, T8, a8, T9, a9, T10, a10, T11, a11, T12, a12, T13, a13) { count++; last_id = 100 + 13; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; got[7] = (uint64_t)a7; got[8] = (uint64_t)a8; got[9] = (uint64_t)a9; got[10] = (uint64_t)a10; got[11] = (uint64_t)a11; got[12] = (uint64_t)a12; got[13] = (uint64_t)a13; }
#endif
#if LACE_VER >= 14
TASK_14(R, f14, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6, T7, a7, T8, a8, T9, a9, T10, a10, T11, a11, T12, a12, T13, a13, T14, a14) { count++; last_id = 14; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; got[7] = (uint64_t)a7; got[8] = (uint64_t)a8; got[9] = (uint64_t)a9; got[10] = (uint64_t)a10; got[11] = (uint64_t)a11; got[12] = (uint64_t)a12; got[13] = (uint64_t)a13; got[14] = (uint64_t)a14; return (R)ret; }
VOID_TASK_14(v14, T1, a1, T2, a2, T3, a3, T4, a4, T5, a5, T6, a6, T7, a7, T8, a8, T9, a9, T10, a10, T11, a11, T12, a12, T13, a13, T14, a14) { count++; last_id = 100 + 14; last_worker = LACE_WORKER_ID; got[1] = (uint64_t)a1; got[2] = (uint64_t)a2; got[3] = (uint64_t)a3; got[4] = (uint64_t)a4; got[5] = (uint64_t)a5; got[6] = (uint64_t)a6; got[7] = (uint64_t)a7; got[8] = (uint64_t)a8; got[9] = (uint64_t)a9; got[10] = (uint64_t)a10; got[11] = (uint64_t)a11; got[12] = (uint64_t)a12; got[13] = (uint64_t)a13; got[14] = (uint64_t)a14; }
#endif

static void check(int id, int r)
{
    ASSERT(count == 1 && last_id == id, "C06,C01: the task given is the task executed, once");
    for (int i = 1; i <= r; i++) ASSERT(got[i] == giv[i], "C06: every argument arrives unchanged in its place");
}
TASK_1(uint64_t, other, uint64_t, x) { return x + 1; }


#define W_ __lace_worker
#define H_ __lace_dq_head
VOID_TASK_0(body)
{
    R res;

#if LACE_VER >= 0 && LO <= 0 && 0 <= HI
    fresh();
#if OP == 1
    res = CALL(f0); check(0, 0); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(f0); res = SYNC(f0); check(0, 0); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(f0); pub0.movesplit = 1; res = SYNC(f0); check(0, 0); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(f0); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(0, 0); ASSERT(last_worker == 1, "C22: executed by the thief"); res = SYNC(f0); check(0, 0); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 5
    res = RUN(f0); check(0, 0); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 6
    res = RUNEX(f0); check(0, 0); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 7
    res = NEWFRAME(f0); check(0, 0); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 8
    TOGETHER(f0); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(0, 0); n_tog = 0;
#elif OP == 9
    SPAWN(f0); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(0, 0); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); res = SYNC(f0); check(0, 0); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#endif
    fresh();
#if OP == 1
    CALL(v0); check(100, 0); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(v0); SYNC(v0); check(100, 0);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(v0); pub0.movesplit = 1; SYNC(v0); check(100, 0);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(v0); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(100, 0); ASSERT(last_worker == 1, "C22: executed by the thief"); SYNC(v0); check(100, 0); 
#elif OP == 5
    RUN(v0); check(100, 0); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; 
#elif OP == 6
    RUNEX(v0); check(100, 0); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; 
#elif OP == 7
    NEWFRAME(v0); check(100, 0); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; 
#elif OP == 8
    TOGETHER(v0); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(100, 0); n_tog = 0;
#elif OP == 9
    SPAWN(v0); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(100, 0); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); SYNC(v0); check(100, 0); 
#endif
#endif
#if LACE_VER >= 1 && LO <= 1 && 1 <= HI
    fresh();
#if OP == 1
    res = CALL(f1, (T1)giv[1]); check(1, 1); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(f1, (T1)giv[1]); res = SYNC(f1); check(1, 1); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(f1, (T1)giv[1]); pub0.movesplit = 1; res = SYNC(f1); check(1, 1); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(f1, (T1)giv[1]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(1, 1); ASSERT(last_worker == 1, "C22: executed by the thief"); res = SYNC(f1); check(1, 1); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 5
    res = RUN(f1, (T1)giv[1]); check(1, 1); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 6
    res = RUNEX(f1, (T1)giv[1]); check(1, 1); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 7
    res = NEWFRAME(f1, (T1)giv[1]); check(1, 1); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 8
    TOGETHER(f1, (T1)giv[1]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(1, 1); n_tog = 0;
#elif OP == 9
    SPAWN(f1, (T1)giv[1]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(1, 1); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); res = SYNC(f1); check(1, 1); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#endif
    fresh();
#if OP == 1
    CALL(v1, (T1)giv[1]); check(101, 1); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(v1, (T1)giv[1]); SYNC(v1); check(101, 1);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(v1, (T1)giv[1]); pub0.movesplit = 1; SYNC(v1); check(101, 1);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(v1, (T1)giv[1]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(101, 1); ASSERT(last_worker == 1, "C22: executed by the thief"); SYNC(v1); check(101, 1); 
#elif OP == 5
    RUN(v1, (T1)giv[1]); check(101, 1); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; 
#elif OP == 6
    RUNEX(v1, (T1)giv[1]); check(101, 1); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; 
#elif OP == 7
    NEWFRAME(v1, (T1)giv[1]); check(101, 1); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; 
#elif OP == 8
    TOGETHER(v1, (T1)giv[1]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(101, 1); n_tog = 0;
#elif OP == 9
    SPAWN(v1, (T1)giv[1]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(101, 1); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); SYNC(v1); check(101, 1); 
#endif
#endif
#if LACE_VER >= 2 && LO <= 2 && 2 <= HI
    fresh();
#if OP == 1
    res = CALL(f2, (T1)giv[1], (T2)giv[2]); check(2, 2); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(f2, (T1)giv[1], (T2)giv[2]); res = SYNC(f2); check(2, 2); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(f2, (T1)giv[1], (T2)giv[2]); pub0.movesplit = 1; res = SYNC(f2); check(2, 2); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(f2, (T1)giv[1], (T2)giv[2]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(2, 2); ASSERT(last_worker == 1, "C22: executed by the thief"); res = SYNC(f2); check(2, 2); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 5
    res = RUN(f2, (T1)giv[1], (T2)giv[2]); check(2, 2); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 6
    res = RUNEX(f2, (T1)giv[1], (T2)giv[2]); check(2, 2); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 7
    res = NEWFRAME(f2, (T1)giv[1], (T2)giv[2]); check(2, 2); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 8
    TOGETHER(f2, (T1)giv[1], (T2)giv[2]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(2, 2); n_tog = 0;
#elif OP == 9
    SPAWN(f2, (T1)giv[1], (T2)giv[2]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(2, 2); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); res = SYNC(f2); check(2, 2); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#endif
    fresh();
#if OP == 1
    CALL(v2, (T1)giv[1], (T2)giv[2]); check(102, 2); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(v2, (T1)giv[1], (T2)giv[2]); SYNC(v2); check(102, 2);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(v2, (T1)giv[1], (T2)giv[2]); pub0.movesplit = 1; SYNC(v2); check(102, 2);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(v2, (T1)giv[1], (T2)giv[2]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(102, 2); ASSERT(last_worker == 1, "C22: executed by the thief"); SYNC(v2); check(102, 2); 
#elif OP == 5
    RUN(v2, (T1)giv[1], (T2)giv[2]); check(102, 2); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; 
#elif OP == 6
    RUNEX(v2, (T1)giv[1], (T2)giv[2]); check(102, 2); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; 
#elif OP == 7
    NEWFRAME(v2, (T1)giv[1], (T2)giv[2]); check(102, 2); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; 
#elif OP == 8
    TOGETHER(v2, (T1)giv[1], (T2)giv[2]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(102, 2); n_tog = 0;
#elif OP == 9
    SPAWN(v2, (T1)giv[1], (T2)giv[2]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(102, 2); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); SYNC(v2); check(102, 2); 
#endif
#endif
#if LACE_VER >= 3 && LO <= 3 && 3 <= HI
    fresh();
#if OP == 1
    res = CALL(f3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); check(3, 3); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(f3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); res = SYNC(f3); check(3, 3); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(f3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); pub0.movesplit = 1; res = SYNC(f3); check(3, 3); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(f3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(3, 3); ASSERT(last_worker == 1, "C22: executed by the thief"); res = SYNC(f3); check(3, 3); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 5
    res = RUN(f3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); check(3, 3); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 6
    res = RUNEX(f3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); check(3, 3); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 7
    res = NEWFRAME(f3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); check(3, 3); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 8
    TOGETHER(f3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(3, 3); n_tog = 0;
#elif OP == 9
    SPAWN(f3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(3, 3); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); res = SYNC(f3); check(3, 3); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#endif
    fresh();
#if OP == 1
    CALL(v3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); check(103, 3); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(v3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); SYNC(v3); check(103, 3);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(v3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); pub0.movesplit = 1; SYNC(v3); check(103, 3);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(v3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(103, 3); ASSERT(last_worker == 1, "C22: executed by the thief"); SYNC(v3); check(103, 3); 
#elif OP == 5
    RUN(v3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); check(103, 3); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; 
#elif OP == 6
    RUNEX(v3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); check(103, 3); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; 
#elif OP == 7
    NEWFRAME(v3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); check(103, 3); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; 
#elif OP == 8
    TOGETHER(v3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(103, 3); n_tog = 0;
#elif OP == 9
    SPAWN(v3, (T1)giv[1], (T2)giv[2], (T3)giv[3]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(103, 3); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); SYNC(v3); check(103, 3); 
#endif
#endif
#if LACE_VER >= 4 && LO <= 4 && 4 <= HI
    fresh();
#if OP == 1
    res = CALL(f4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); check(4, 4); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(f4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); res = SYNC(f4); check(4, 4); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(f4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); pub0.movesplit = 1; res = SYNC(f4); check(4, 4); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(f4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(4, 4); ASSERT(last_worker == 1, "C22: executed by the thief"); res = SYNC(f4); check(4, 4); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 5
    res = RUN(f4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); check(4, 4); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 6
    res = RUNEX(f4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); check(4, 4); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 7
    res = NEWFRAME(f4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); check(4, 4); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 8
    TOGETHER(f4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(4, 4); n_tog = 0;
#elif OP == 9
    SPAWN(f4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(4, 4); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); res = SYNC(f4); check(4, 4); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#endif
    fresh();
#if OP == 1
    CALL(v4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); check(104, 4); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(v4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); SYNC(v4); check(104, 4);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(v4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); pub0.movesplit = 1; SYNC(v4); check(104, 4);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(v4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(104, 4); ASSERT(last_worker == 1, "C22: executed by the thief"); SYNC(v4); check(104, 4); 
#elif OP == 5
    RUN(v4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); check(104, 4); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; 
#elif OP == 6
    RUNEX(v4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); check(104, 4); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; 
#elif OP == 7
    NEWFRAME(v4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); check(104, 4); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; 
#elif OP == 8
    TOGETHER(v4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(104, 4); n_tog = 0;
#elif OP == 9
    SPAWN(v4, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(104, 4); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); SYNC(v4); check(104, 4); 
#endif
#endif
#if LACE_VER >= 5 && LO <= 5 && 5 <= HI
    fresh();
#if OP == 1
    res = CALL(f5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); check(5, 5); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(f5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); res = SYNC(f5); check(5, 5); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(f5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); pub0.movesplit = 1; res = SYNC(f5); check(5, 5); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(f5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(5, 5); ASSERT(last_worker == 1, "C22: executed by the thief"); res = SYNC(f5); check(5, 5); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 5
    res = RUN(f5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); check(5, 5); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 6
    res = RUNEX(f5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); check(5, 5); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 7
    res = NEWFRAME(f5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); check(5, 5); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 8
    TOGETHER(f5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(5, 5); n_tog = 0;
#elif OP == 9
    SPAWN(f5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(5, 5); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); res = SYNC(f5); check(5, 5); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#endif
    fresh();
#if OP == 1
    CALL(v5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); check(105, 5); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(v5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); SYNC(v5); check(105, 5);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(v5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); pub0.movesplit = 1; SYNC(v5); check(105, 5);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(v5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(105, 5); ASSERT(last_worker == 1, "C22: executed by the thief"); SYNC(v5); check(105, 5); 
#elif OP == 5
    RUN(v5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); check(105, 5); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; 
#elif OP == 6
    RUNEX(v5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); check(105, 5); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; 
#elif OP == 7
    NEWFRAME(v5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); check(105, 5); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; 
#elif OP == 8
    TOGETHER(v5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(105, 5); n_tog = 0;
#elif OP == 9
    SPAWN(v5, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(105, 5); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); SYNC(v5); check(105, 5); 
#endif
#endif
#if LACE_VER >= 6 && LO <= 6 && 6 <= HI
    fresh();
#if OP == 1
    res = CALL(f6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); check(6, 6); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(f6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); res = SYNC(f6); check(6, 6); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(f6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); pub0.movesplit = 1; res = SYNC(f6); check(6, 6); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(f6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(6, 6); ASSERT(last_worker == 1, "C22: executed by the thief"); res = SYNC(f6); check(6, 6); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 5
    res = RUN(f6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); check(6, 6); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 6
    res = RUNEX(f6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); check(6, 6); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 7
    res = NEWFRAME(f6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); check(6, 6); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 8
    TOGETHER(f6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(6, 6); n_tog = 0;
#elif OP == 9
    SPAWN(f6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(6, 6); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); res = SYNC(f6); check(6, 6); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#endif
    fresh();
#if OP == 1
    CALL(v6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); check(106, 6); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(v6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); SYNC(v6); check(106, 6);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(v6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); pub0.movesplit = 1; SYNC(v6); check(106, 6);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(v6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(106, 6); ASSERT(last_worker == 1, "C22: executed by the thief"); SYNC(v6); check(106, 6); 
#elif OP == 5
    RUN(v6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); check(106, 6); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; 
#elif OP == 6
    RUNEX(v6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); check(106, 6); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; 
#elif OP == 7
    NEWFRAME(v6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); check(106, 6); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; 
#elif OP == 8
    TOGETHER(v6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(106, 6); n_tog = 0;
#elif OP == 9
    SPAWN(v6, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(106, 6); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); SYNC(v6); check(106, 6); 
#endif
#endif
#if LACE_VER >= 7 && LO <= 7 && 7 <= HI
    fresh();
#if OP == 1
    res = CALL(f7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); check(7, 7); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(f7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); res = SYNC(f7); check(7, 7); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(f7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); pub0.movesplit = 1; res = SYNC(f7); check(7, 7); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(f7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(7, 7); ASSERT(last_worker == 1, "C22: executed by the thief"); res = SYNC(f7); check(7, 7); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 5
    res = RUN(f7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); check(7, 7); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 6
    res = RUNEX(f7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); check(7, 7); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 7
    res = NEWFRAME(f7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); check(7, 7); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 8
    TOGETHER(f7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(7, 7); n_tog = 0;
#elif OP == 9
    SPAWN(f7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(7, 7); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); res = SYNC(f7); check(7, 7); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#endif
    fresh();
#if OP == 1
    CALL(v7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); check(107, 7); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(v7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); SYNC(v7); check(107, 7);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(v7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); pub0.movesplit = 1; SYNC(v7); check(107, 7);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(v7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(107, 7); ASSERT(last_worker == 1, "C22: executed by the thief"); SYNC(v7); check(107, 7); 
#elif OP == 5
    RUN(v7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); check(107, 7); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; 
#elif OP == 6
    RUNEX(v7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); check(107, 7); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; 
#elif OP == 7
    NEWFRAME(v7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); check(107, 7); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; 
#elif OP == 8
    TOGETHER(v7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(107, 7); n_tog = 0;
#elif OP == 9
    SPAWN(v7, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(107, 7); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); SYNC(v7); check(107, 7); 
#endif
#endif
#if LACE_VER >= 8 && LO <= 8 && 8 <= HI
    fresh();
#if OP == 1
    res = CALL(f8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); check(8, 8); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(f8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); res = SYNC(f8); check(8, 8); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(f8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); pub0.movesplit = 1; res = SYNC(f8); check(8, 8); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(f8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(8, 8); ASSERT(last_worker == 1, "C22: executed by the thief"); res = SYNC(f8); check(8, 8); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 5
    res = RUN(f8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); check(8, 8); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 6
    res = RUNEX(f8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); check(8, 8); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 7
    res = NEWFRAME(f8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); check(8, 8); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 8
    TOGETHER(f8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(8, 8); n_tog = 0;
#elif OP == 9
    SPAWN(f8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(8, 8); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); res = SYNC(f8); check(8, 8); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#endif
    fresh();
#if OP == 1
    CALL(v8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); check(108, 8); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(v8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); SYNC(v8); check(108, 8);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(v8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); pub0.movesplit = 1; SYNC(v8); check(108, 8);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(v8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(108, 8); ASSERT(last_worker == 1, "C22: executed by the thief"); SYNC(v8); check(108, 8); 
#elif OP == 5
    RUN(v8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); check(108, 8); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; 
#elif OP == 6
    RUNEX(v8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); check(108, 8); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; 
#elif OP == 7
    NEWFRAME(v8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); check(108, 8); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; 
#elif OP == 8
    TOGETHER(v8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(108, 8); n_tog = 0;
#elif OP == 9
    SPAWN(v8, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(108, 8); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); SYNC(v8); check(108, 8); 
#endif
#endif
#if LACE_VER >= 9 && LO <= 9 && 9 <= HI
    fresh();
#if OP == 1
    res = CALL(f9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); check(9, 9); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(f9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); res = SYNC(f9); check(9, 9); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(f9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); pub0.movesplit = 1; res = SYNC(f9); check(9, 9); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(f9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(9, 9); ASSERT(last_worker == 1, "C22: executed by the thief"); res = SYNC(f9); check(9, 9); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 5
    res = RUN(f9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); check(9, 9); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 6
    res = RUNEX(f9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); check(9, 9); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 7
    res = NEWFRAME(f9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); check(9, 9); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 8
    TOGETHER(f9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(9, 9); n_tog = 0;
#elif OP == 9
    SPAWN(f9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(9, 9); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); res = SYNC(f9); check(9, 9); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#endif
    fresh();
#if OP == 1
    CALL(v9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); check(109, 9); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(v9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); SYNC(v9); check(109, 9);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(v9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); pub0.movesplit = 1; SYNC(v9); check(109, 9);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(v9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(109, 9); ASSERT(last_worker == 1, "C22: executed by the thief"); SYNC(v9); check(109, 9); 
#elif OP == 5
    RUN(v9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); check(109, 9); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; 
#elif OP == 6
    RUNEX(v9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); check(109, 9); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; 
#elif OP == 7
    NEWFRAME(v9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); check(109, 9); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; 
#elif OP == 8
    TOGETHER(v9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(109, 9); n_tog = 0;
#elif OP == 9
    SPAWN(v9, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(109, 9); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); SYNC(v9); check(109, 9); 
#endif
#endif
#if LACE_VER >= 10 && LO <= 10 && 10 <= HI
    fresh();
#if OP == 1
    res = CALL(f10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); check(10, 10); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(f10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); res = SYNC(f10); check(10, 10); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(f10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); pub0.movesplit = 1; res = SYNC(f10); check(10, 10); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(f10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(10, 10); ASSERT(last_worker == 1, "C22: executed by the thief"); res = SYNC(f10); check(10, 10); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 5
    res = RUN(f10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); check(10, 10); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 6
    res = RUNEX(f10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); check(10, 10); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 7
    res = NEWFRAME(f10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); check(10, 10); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 8
    TOGETHER(f10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(10, 10); n_tog = 0;
#elif OP == 9
    SPAWN(f10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(10, 10); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); res = SYNC(f10); check(10, 10); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#endif
    fresh();
#if OP == 1
    CALL(v10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); check(110, 10); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(v10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); SYNC(v10); check(110, 10);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(v10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); pub0.movesplit = 1; SYNC(v10); check(110, 10);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(v10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(110, 10); ASSERT(last_worker == 1, "C22: executed by the thief"); SYNC(v10); check(110, 10); 
#elif OP == 5
    RUN(v10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); check(110, 10); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; 
#elif OP == 6
    RUNEX(v10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); check(110, 10); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; 
#elif OP == 7
    NEWFRAME(v10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); check(110, 10); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; 
#elif OP == 8
    TOGETHER(v10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(110, 10); n_tog = 0;
#elif OP == 9
    SPAWN(v10, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(110, 10); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); SYNC(v10); check(110, 10); 
#endif
#endif
#if LACE_VER >= 11 && LO <= 11 && 11 <= HI
    fresh();
#if OP == 1
    res = CALL(f11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); check(11, 11); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(f11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); res = SYNC(f11); check(11, 11); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(f11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); pub0.movesplit = 1; res = SYNC(f11); check(11, 11); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(f11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(11, 11); ASSERT(last_worker == 1, "C22: executed by the thief"); res = SYNC(f11); check(11, 11); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 5
    res = RUN(f11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); check(11, 11); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 6
    res = RUNEX(f11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); check(11, 11); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 7
    res = NEWFRAME(f11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); check(11, 11); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 8
    TOGETHER(f11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(11, 11); n_tog = 0;
#elif OP == 9
    SPAWN(f11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(11, 11); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); res = SYNC(f11); check(11, 11); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#endif
    fresh();
#if OP == 1
    CALL(v11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); check(111, 11); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(v11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); SYNC(v11); check(111, 11);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(v11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); pub0.movesplit = 1; SYNC(v11); check(111, 11);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(v11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(111, 11); ASSERT(last_worker == 1, "C22: executed by the thief"); SYNC(v11); check(111, 11); 
#elif OP == 5
    RUN(v11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); check(111, 11); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; 
#elif OP == 6
    RUNEX(v11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); check(111, 11); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; 
#elif OP == 7
    NEWFRAME(v11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); check(111, 11); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; 
#elif OP == 8
    TOGETHER(v11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(111, 11); n_tog = 0;
#elif OP == 9
    SPAWN(v11, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(111, 11); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); SYNC(v11); check(111, 11); 
#endif
#endif
#if LACE_VER >= 12 && LO <= 12 && 12 <= HI
    fresh();
#if OP == 1
    res = CALL(f12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); check(12, 12); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(f12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); res = SYNC(f12); check(12, 12); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(f12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); pub0.movesplit = 1; res = SYNC(f12); check(12, 12); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(f12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(12, 12); ASSERT(last_worker == 1, "C22: executed by the thief"); res = SYNC(f12); check(12, 12); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 5
    res = RUN(f12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); check(12, 12); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 6
    res = RUNEX(f12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); check(12, 12); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 7
    res = NEWFRAME(f12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); check(12, 12); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 8
    TOGETHER(f12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(12, 12); n_tog = 0;
#elif OP == 9
    SPAWN(f12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(12, 12); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); res = SYNC(f12); check(12, 12); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#endif
    fresh();
#if OP == 1
    CALL(v12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); check(112, 12); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(v12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); SYNC(v12); check(112, 12);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(v12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); pub0.movesplit = 1; SYNC(v12); check(112, 12);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(v12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(112, 12); ASSERT(last_worker == 1, "C22: executed by the thief"); SYNC(v12); check(112, 12); 
#elif OP == 5
    RUN(v12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); check(112, 12); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; 
#elif OP == 6
    RUNEX(v12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); check(112, 12); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; 
#elif OP == 7
    NEWFRAME(v12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); check(112, 12); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; 
#elif OP == 8
    TOGETHER(v12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(112, 12); n_tog = 0;
#elif OP == 9
    SPAWN(v12, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(112, 12); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); SYNC(v12); check(112, 12); 
#endif
#endif
#if LACE_VER >= 13 && LO <= 13 && 13 <= HI
    fresh();
#if OP == 1
    res = CALL(f13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); check(13, 13); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(f13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); res = SYNC(f13); check(13, 13); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(f13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); pub0.movesplit = 1; res = SYNC(f13); check(13, 13); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(f13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(13, 13); ASSERT(last_worker == 1, "C22: executed by the thief"); res = SYNC(f13); check(13, 13); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 5
    res = RUN(f13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); check(13, 13); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 6
    res = RUNEX(f13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); check(13, 13); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 7
    res = NEWFRAME(f13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); check(13, 13); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 8
    TOGETHER(f13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(13, 13); n_tog = 0;
#elif OP == 9
    SPAWN(f13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(13, 13); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); res = SYNC(f13); check(13, 13); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#endif
    fresh();
#if OP == 1
    CALL(v13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); check(113, 13); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(v13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); SYNC(v13); check(113, 13);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(v13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); pub0.movesplit = 1; SYNC(v13); check(113, 13);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(v13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(113, 13); ASSERT(last_worker == 1, "C22: executed by the thief"); SYNC(v13); check(113, 13); 
#elif OP == 5
    RUN(v13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); check(113, 13); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; 
#elif OP == 6
    RUNEX(v13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); check(113, 13); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; 
#elif OP == 7
    NEWFRAME(v13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); check(113, 13); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; 
#elif OP == 8
    TOGETHER(v13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(113, 13); n_tog = 0;
#elif OP == 9
    SPAWN(v13, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(113, 13); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); SYNC(v13); check(113, 13); 
#endif
#endif
#if LACE_VER >= 14 && LO <= 14 && 14 <= HI
    fresh();
#if OP == 1
    res = CALL(f14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); check(14, 14); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(f14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); res = SYNC(f14); check(14, 14); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(f14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); pub0.movesplit = 1; res = SYNC(f14); check(14, 14); ASSERT(res == (R)ret, "C06: the result arrives unchanged");  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(f14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(14, 14); ASSERT(last_worker == 1, "C22: executed by the thief"); res = SYNC(f14); check(14, 14); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 5
    res = RUN(f14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); check(14, 14); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 6
    res = RUNEX(f14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); check(14, 14); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 7
    res = NEWFRAME(f14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); check(14, 14); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#elif OP == 8
    TOGETHER(f14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(14, 14); n_tog = 0;
#elif OP == 9
    SPAWN(f14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(14, 14); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); res = SYNC(f14); check(14, 14); ASSERT(res == (R)ret, "C06: the result arrives unchanged"); 
#endif
    fresh();
#if OP == 1
    CALL(v14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); check(114, 14); 
#elif OP == 2
    SPAWN(other, 5); SPAWN(v14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); SYNC(v14); check(114, 14);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
    ASSERT(last_worker == 0, "C22: executed by the owner");
#elif OP == 3
    SPAWN(other, 5); SPAWN(v14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); pub0.movesplit = 1; SYNC(v14); check(114, 14);  ASSERT(SYNC(other) == 6, "C06: result of the task below");
#elif OP == 4
    SPAWN(v14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); lace_make_all_shared(W_, H_); { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(114, 14); ASSERT(last_worker == 1, "C22: executed by the thief"); SYNC(v14); check(114, 14); 
#elif OP == 5
    RUN(v14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); check(114, 14); ASSERT(n_run == 1, "C11: RUN hands the task over once"); n_run = 0; 
#elif OP == 6
    RUNEX(v14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); check(114, 14); ASSERT(n_runex == 1, "C12: RUNEX hands the task over for exclusive execution"); n_runex = 0; 
#elif OP == 7
    NEWFRAME(v14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); check(114, 14); ASSERT(n_nf == 1, "C10: NEWFRAME starts one new frame"); n_nf = 0; 
#elif OP == 8
    TOGETHER(v14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); ASSERT(count == 2 && n_tog == 1, "C09: TOGETHER executes every copy"); count = 1; check(114, 14); n_tog = 0;
#elif OP == 9
    SPAWN(v14, (T1)giv[1], (T2)giv[2], (T3)giv[3], (T4)giv[4], (T5)giv[5], (T6)giv[6], (T7)giv[7], (T8)giv[8], (T9)giv[9], (T10)giv[10], (T11)giv[11], (T12)giv[12], (T13)giv[13], (T14)giv[14]); lace_make_all_shared(W_, H_); SPAWN(other, 5); SPAWN(other, 8);
    { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
    check(114, 14); ASSERT(SYNC(other) == 9, "C06: result of the upper task"); ASSERT(SYNC(other) == 6, "C06: result of the middle task"); SYNC(v14); check(114, 14); 
#endif
#endif
    (void)res;
    REACH("end");
}
void harness(void)
{
    setup();
    ret = IN(0);
    giv[1] = (T1)IN(1); giv[2] = (T2)IN(2); giv[3] = (T3)IN(3); giv[4] = (T4)IN(4); giv[5] = (T5)IN(5); giv[6] = (T6)IN(6); giv[7] = (T7)IN(7);
    giv[8] = (T8)IN(8); giv[9] = (T9)IN(9); giv[10] = (T10)IN(10); giv[11] = (T11)IN(11); giv[12] = (T12)IN(12); giv[13] = (T13)IN(13); giv[14] = (T14)IN(14);
    body_CALL(&w0, dq0);
}
#ifdef VP_REPLAY
int main(void) { harness(); return 0; }
#endif
