#define PROP "C01"
#define DRV_VECTOR_ONLY
#include "vec_drv.h"
int main(int ac, char** av) { return drv_main(ac, av); }
