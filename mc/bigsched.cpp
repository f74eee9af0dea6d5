// bigmem.cpp for programs under the controlled scheduler
#define BIGMEM_SCHED
#include "bigmem.cpp"
