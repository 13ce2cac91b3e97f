#define PROP "U01"
#include "util_drv.h"
int main(int ac, char** av) { return drv_main(ac, av); }
