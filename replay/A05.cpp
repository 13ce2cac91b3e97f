#define PROP "A05"
#include "routing_drv.h"
int main(int ac, char** av) { return drv_main(ac, av); }
