#define PROP "A10"
#include "shared_drv.h"
int main(int ac, char** av) { return drv_main(ac, av); }
