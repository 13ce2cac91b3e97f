#define PROP "C03"
#define DRV_ARRAY_ONLY
#include "vec_drv.h"
int main(int ac, char** av) { return drv_main(ac, av); }
