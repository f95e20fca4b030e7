/* Registration keeps the encoders and the handler of every RPC */
#include "mercury.h"
#include "mercury_macros.h"
#undef MERCURY_REGISTER
#define MERCURY_REGISTER(hg_class, func_name, in, out, cb) HG_Register_name(hg_class, func_name, (hg_proc_cb_t)hg_proc_##in, (hg_proc_cb_t)hg_proc_##out, cb)
