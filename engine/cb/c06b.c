/* Arguments and results as large as the task slot allows (structures); operations as in c06.c */
#include "c06pre.h"
#define NW (LACE_TASKSIZE / 8)
typedef struct { uint64_t x[NW]; } B;
static B giv, ret; static int count;
static void setup(void)
{
    w0.dq = dq0; w0.split = dq0; w0.end = dq0 + NDQ; w0._public = &pub0; w0.worker = 0; w0.allstolen = 1;
    w1.dq = dq1; w1.split = dq1; w1.end = dq1 + NDQ; w1._public = &pub1; w1.worker = 1; w1.allstolen = 1;
    pub0.dq = dq0; pub0.allstolen = 1; pub1.dq = dq1; pub1.allstolen = 1;
}

static int same(B *a, B *b) { for (int i = 0; i < NW; i++) if (a->x[i] != b->x[i]) return 0; return 1; }
TASK_1(B, big, B, b) { count++; ASSERT(same(&b, &giv), "C06: a structure argument arrives unchanged"); return ret; }
VOID_TASK_1(vbig, B, b) { count++; ASSERT(same(&b, &giv), "C06: a structure argument arrives unchanged"); }
TASK_0(B, zero) { count++; return ret; }
TASK_2(uint8_t, small, uint64_t, a, uint64_t, b) { count++; ASSERT(a == giv.x[0] && b == giv.x[1], "C06: arguments next to structures arrive unchanged"); return (uint8_t)ret.x[0]; }
static void steal(void) { Worker *s_ = lace_steal(&w1, dq1, &pub0); for (int k_ = 0; k_ < 2; k_++) if (s_ == LACE_BUSY) s_ = lace_steal(&w1, dq1, &pub0); ASSERT(s_ == LACE_STOLEN, "C19: a shared task can be stolen"); }
#define RES(e) do { B r_ = e; ASSERT(same(&r_, &ret), "C06: a structure result arrives unchanged"); } while (0)
#define ONCE() do { ASSERT(count == 1, "C01: executed once"); count = 0; } while (0)
VOID_TASK_0(body)
{
    B r;
    RES(CALL(big, giv)); ONCE();
    CALL(vbig, giv); ONCE();
    RES(RUN(big, giv)); ONCE();
    RES(RUNEX(zero)); ONCE();
    RES(NEWFRAME(big, giv)); ONCE();
    SPAWN(big, giv); SPAWN(vbig, giv); SYNC(vbig); ONCE(); RES(SYNC(big)); ONCE();
    SPAWN(big, giv); LACE_MAKE_ALL_SHARED(); SPAWN(small, giv.x[0], giv.x[1]); steal(); ONCE();
    ASSERT(SYNC(small) == (uint8_t)ret.x[0], "C06: a small result arrives unchanged"); ONCE();
    RES(SYNC(big));
    SPAWN(zero); LACE_MAKE_ALL_SHARED(); SPAWN(vbig, giv); steal(); ONCE(); SYNC(vbig); ONCE(); RES(SYNC(zero));
    TOGETHER(big, giv); ASSERT(count == 2, "C09: TOGETHER executes every copy");
    REACH("end");
}
void harness(void)
{
    setup();
    for (int i = 0; i < NW; i++) { giv.x[i] = IN(i); ret.x[i] = IN(20 + i); }
    body_CALL(&w0, dq0);
}
#ifdef VP_REPLAY
int main(void) { harness(); return 0; }
#endif
