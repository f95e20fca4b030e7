#ifndef VT_M_list
#define VT_M_list
#include "mercury.h"
#endif
