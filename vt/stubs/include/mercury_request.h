#ifndef VT_M_request
#define VT_M_request
#include "mercury.h"
#endif
