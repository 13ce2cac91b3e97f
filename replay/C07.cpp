#define PROP "C07"
#include "vec_drv.h"
#include "heap_drv.h"
int main(int ac, char** av) { return drv_main(ac, av); }
