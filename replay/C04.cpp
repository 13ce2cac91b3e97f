#define PROP "C04"
#include "buf_drv.h"
int main(int ac, char** av) { return drv_main(ac, av); }
