#define LACE_PIE_TIMES 1
#define LACE_COUNT_TASKS 1
#define LACE_COUNT_STEALS 1
#define LACE_COUNT_SPLITS 1
#define LACE_USE_HWLOC 0
#define LACE_USE_MMAP 0
