#define PROP "C05"
#define DRV_ARRAY_ONLY
#define DRV_VECTOR_ONLY
#include "heap_drv.h"
int main(int ac, char** av) { return drv_main(ac, av); }
