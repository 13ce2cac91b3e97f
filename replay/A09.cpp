#define PROP "A09"
#include "overflow_drv.h"
int main(int ac, char** av) { return drv_main(ac, av); }
