#define PROP "A01"
#include "bump_drv.h"
int main(int ac, char** av) { return drv_main(ac, av); }
