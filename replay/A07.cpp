#define PROP "A07"
#include "cascading_drv.h"
int main(int ac, char** av) { return drv_main(ac, av); }
