#define PROP "A11"
#include "wrap_drv.h"
int main(int ac, char** av) { return drv_main(ac, av); }
