#ifndef VT_MERCURY_MACROS_H
#define VT_MERCURY_MACROS_H
#include "mercury.h"
#include "mercury_proc_string.h"
#define MERCURY_REGISTER(hg_class, func_name, in, out, cb) \
    HG_Register_name(hg_class, func_name, (hg_proc_cb_t)0, (hg_proc_cb_t)0, cb)
#endif
