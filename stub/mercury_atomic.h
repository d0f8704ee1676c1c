#include "mercury.h"
#ifndef VF_ATOMIC_H
#define VF_ATOMIC_H
typedef struct { int32_t v; } hg_atomic_int32_t;
static inline void hg_atomic_init32(hg_atomic_int32_t *p, int32_t x) { p->v = x; }
static inline void hg_atomic_set32(hg_atomic_int32_t *p, int32_t x) { p->v = x; }
static inline int32_t hg_atomic_get32(hg_atomic_int32_t *p) { return p->v; }
static inline int32_t hg_atomic_incr32(hg_atomic_int32_t *p) { return ++p->v; }
static inline int32_t hg_atomic_decr32(hg_atomic_int32_t *p) { return --p->v; }
static inline hg_bool_t hg_atomic_cas32(hg_atomic_int32_t *p, int32_t a, int32_t b) { if (p->v != a) return 0; p->v = b; return 1; }
#endif
