/* lace_stop right after lace_start, with workers that are slow to come up (built with the address sanitizer). */
#include "base.h"
#include <semaphore.h>
static int slow_wait(sem_t *s) { usleep(200000); return sem_wait(s); }
#define sem_wait slow_wait
#include "lace.c"
int main(void)
{
    limit(60);
    for (int i = 0; i < 3; i++) { lace_start(3, 100); lace_stop(); }
    usleep(600000);
    return 0;
}
