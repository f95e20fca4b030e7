#ifndef VT_MERCURY_THREAD_MUTEX_H
#define VT_MERCURY_THREAD_MUTEX_H
#include <pthread.h>
#include "mercury.h"
/* the check explores the sequential behaviour; the lock counts so that a harness can see unbalanced use */
typedef struct { int held; } hg_thread_mutex_t;
#define HG_THREAD_MUTEX_INITIALIZER {0}
static inline int hg_thread_mutex_init(hg_thread_mutex_t *m) { m->held = 0; return 0; }
static inline int hg_thread_mutex_destroy(hg_thread_mutex_t *m) { (void)m; return 0; }
static inline int hg_thread_mutex_lock(hg_thread_mutex_t *m) { m->held++; return 0; }
static inline int hg_thread_mutex_unlock(hg_thread_mutex_t *m) { m->held--; return 0; }
#endif
