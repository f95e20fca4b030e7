#ifndef VT_MERCURY_CONFIG_H
#define VT_MERCURY_CONFIG_H
#include "mercury.h"
#define HG_HAS_BOOST 1
#endif
