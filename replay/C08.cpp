#define PROP "C08"
#include "packed_drv.h"
int main(int ac, char** av) { return drv_main(ac, av); }
