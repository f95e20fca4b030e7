#ifndef VT_MERCURY_PROC_STRING_H
#define VT_MERCURY_PROC_STRING_H
#include "mercury.h"
typedef const char *hg_const_string_t;
typedef char *      hg_string_t;
static inline hg_return_t hg_proc_hg_string_t(hg_proc_t p, void *d)
{
    char **   s = (char **)d;
    uint64_t  n = 0;
    uint8_t   null = 0;
    hg_return_t r;
    switch (p->op) {
        case HG_ENCODE:
            null = (*s == NULL);
            n    = null ? 0 : strlen(*s) + 1;
            if ((r = hg_proc_uint64_t(p, &n)) != HG_SUCCESS || (r = hg_proc_uint8_t(p, &null)) != HG_SUCCESS)
                return r;
            return n ? hg_proc_bytes(p, *s, n) : HG_SUCCESS;
        case HG_DECODE:
            if ((r = hg_proc_uint64_t(p, &n)) != HG_SUCCESS || (r = hg_proc_uint8_t(p, &null)) != HG_SUCCESS)
                return r;
            *s = NULL;
            if (null)
                return HG_SUCCESS;
            if (!(*s = (char *)malloc(n)))
                return HG_NOMEM;
            return hg_proc_bytes(p, *s, n);
        default:
            free(*s);
            *s = NULL;
            return HG_SUCCESS;
    }
}
#define hg_proc_hg_const_string_t(p, d) hg_proc_hg_string_t(p, (void *)(d))
#endif
