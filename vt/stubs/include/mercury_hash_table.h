#ifndef VT_M_hash_table
#define VT_M_hash_table
#include "mercury.h"
#endif
