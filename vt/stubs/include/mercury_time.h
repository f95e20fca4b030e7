#ifndef VT_M_time
#define VT_M_time
#include "mercury.h"
#endif
