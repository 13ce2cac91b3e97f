#define PROP "A08"
#include "overflow_drv.h"
int main(int ac, char** av) { return drv_main(ac, av); }
