/* All workers go through many barriers; nobody may run ahead and nobody may stay behind. */
#include "delay.h"
#include "lace.c"
static atomic_int phase[64], bad, rounds; static time_t end;
static int W; static atomic_int stop_;
VOID_TASK_0(all)
{
    int me = LACE_WORKER_ID;
    for (int k = 0; k < 2000 && !bad; k++) {
        phase[me]++;
        dl();
        lace_barrier();
        for (int i = 0; i < W; i++) if (phase[i] < phase[me]) { bad = 1; fprintf(stderr, "FAILED: a worker left the barrier early\n"); _exit(1); }
        dl();
        lace_barrier();
    }
    rounds++;
}
int main(int argc, char **argv)
{
    W = argc > 1 ? atoi(argv[1]) : 4; int secs = argc > 2 ? atoi(argv[2]) : 10;
    alarm(secs + 20);
    end = time(0) + secs;
    lace_start(W, 100);
    while (time(0) < end && !bad) { for (int i = 0; i < W; i++) phase[i] = 0; TOGETHER(all); }
    lace_stop();
    printf("%d rounds, %d failures\n", (int)rounds, (int)bad);
    return bad != 0;
}
