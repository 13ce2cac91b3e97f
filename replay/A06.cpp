#define PROP "A06"
#include "freelist_drv.h"
int main(int ac, char** av) { return drv_main(ac, av); }
