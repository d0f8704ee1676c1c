#include "mercury.h"
#ifndef VF_MERCURY_MACROS_H
#define VF_MERCURY_MACROS_H
#define MERCURY_REGISTER(cls, name, in, out, cb) HG_Register_name(cls, name, (hg_proc_cb_t)0, (hg_proc_cb_t)0, cb)
#endif
