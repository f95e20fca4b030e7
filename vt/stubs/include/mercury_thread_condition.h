#ifndef VT_MERCURY_THREAD_COND_H
#define VT_MERCURY_THREAD_COND_H
#include "mercury_thread_mutex.h"
typedef struct { int x; } hg_thread_cond_t;
static inline int hg_thread_cond_init(hg_thread_cond_t *c) { c->x = 0; return 0; }
static inline int hg_thread_cond_destroy(hg_thread_cond_t *c) { (void)c; return 0; }
static inline int hg_thread_cond_signal(hg_thread_cond_t *c) { c->x++; return 0; }
static inline int hg_thread_cond_broadcast(hg_thread_cond_t *c) { c->x++; return 0; }
static inline int hg_thread_cond_wait(hg_thread_cond_t *c, hg_thread_mutex_t *m) { (void)c; (void)m; return 0; }
static inline int hg_thread_cond_timedwait(hg_thread_cond_t *c, hg_thread_mutex_t *m, unsigned t) { (void)c; (void)m; (void)t; return 0; }
#endif
