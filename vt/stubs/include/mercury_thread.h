#ifndef VT_MERCURY_THREAD_H
#define VT_MERCURY_THREAD_H
#include <pthread.h>
#include "mercury.h"
typedef pthread_t hg_thread_t;
typedef void *    hg_thread_ret_t;
#define HG_THREAD_RETURN_TYPE hg_thread_ret_t
typedef HG_THREAD_RETURN_TYPE (*hg_thread_func_t)(void *);
int  hg_thread_create(hg_thread_t *, hg_thread_func_t, void *);
int  hg_thread_join(hg_thread_t);
void hg_thread_exit(hg_thread_ret_t);
#endif
