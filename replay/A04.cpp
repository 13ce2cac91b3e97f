#define PROP "A04"
#include "cascading_drv.h"
#include "shared_drv.h"
#include "bump_drv.h"
#include "freelist_drv.h"
#include "routing_drv.h"
#include "overflow_drv.h"
#include "wrap_drv.h"
int main(int ac, char** av) { return drv_main(ac, av); }
