/* The report gives the tasks spawned since the last reset, also when it is asked for again. */
#include "base.h"
#include "lace.c"
VOID_TASK_0(leaf) { }
VOID_TASK_1(root, int, n) { for (int i = 0; i < n; i++) SPAWN(leaf); for (int i = 0; i < n; i++) SYNC(leaf); }
static void expect(int n)
{
    char buf[4096]; FILE *f = fmemopen(buf, sizeof buf, "w"); lace_count_report_file(f); fclose(f);
    char w[100]; sprintf(w, "Tasks (0): %d\n", n); if (!strstr(buf, w)) fail("tasks of the worker");
    sprintf(w, "Tasks (sum): %d\n", n); if (!strstr(buf, w)) fail("sum of the tasks");
}
int main(void)
{
    limit(60);
    lace_start(1, 100);
    RUN(root, 1); lace_count_reset();
    RUN(root, 5); expect(5); expect(5);
    RUN(root, 2); expect(7);
    lace_count_reset(); expect(0);
    RUN(root, 3); expect(3);
    freopen("/dev/null", "w", stdout);
    lace_stop();
    return 0;
}
