#include "mercury_thread_mutex.h"
#ifndef VF_COND_H
#define VF_COND_H
typedef struct { int x; } hg_thread_cond_t;
static inline int hg_thread_cond_init(hg_thread_cond_t *c) { return 0; }
static inline int hg_thread_cond_destroy(hg_thread_cond_t *c) { return 0; }
static inline int hg_thread_cond_signal(hg_thread_cond_t *c) { return 0; }
static inline int hg_thread_cond_wait(hg_thread_cond_t *c, hg_thread_mutex_t *m) { return 0; }
static inline int hg_thread_cond_timedwait(hg_thread_cond_t *c, hg_thread_mutex_t *m, unsigned t) { return 0; }
#endif
