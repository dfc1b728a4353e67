/* No slice of the report is negative: a leapfrogged task that is slow to be signalled */
#include "hook.h"
#include "lace.c"
static atomic_int ydone, started;
VOID_TASK_0(Y) { ydone = 1; after = 500000; }
VOID_TASK_0(hold) { SPAWN(Y); LACE_MAKE_ALL_SHARED(); started = 1; while (!ydone) {} SYNC(Y); }
VOID_TASK_0(root) { SPAWN(hold); LACE_MAKE_ALL_SHARED(); while (!started) {} SYNC(hold); after = 0; }
int main(void)
{
    limit(120);
    lace_start(2, 100); lace_suspend(); /* from here on the workers sleep except during RUN */
    static char buf[1 << 16];
    for (int k = 0; k < 5; k++) {
    lace_count_reset(); ydone = started = 0;
    RUN(root);
    memset(buf, 0, sizeof buf);
    FILE *f = fmemopen(buf, sizeof buf, "w"); lace_count_report_file(f); fclose(f);
    for (char *p = buf; (p = strstr(p, " search (")); p++) { double v = atof(strstr(p, ":") + 1); if (v < 0 || v > 1e6) { fprintf(stderr, "%.40s\n", p); fail("a slice is negative"); } }
    }
    freopen("/dev/null", "w", stdout);
    lace_resume();
    lace_stop();
    return 0;
}
