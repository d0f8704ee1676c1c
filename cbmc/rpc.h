#ifndef RPC_H
#define RPC_H
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "mercury.h"
static hg_proc_op_t op;
static int rd, wr, ng;
/* the wire: a typed sequence of tokens */
typedef struct { int kind; uint64_t v; void *p; uint64_t n; } tok;
static tok wire[128];
static uint64_t BITS(double d) { union { double d; uint64_t u; } c; c.d = d; return c.u; }
#ifdef NATIVE
#include "nat.h"
static const char *msg;
static void *nat_any(size_t n) { unsigned char *p = malloc(n ? n : 1); for (size_t i = 0; i < n; i++) p[i] = rnd(3) ? rnd64() : rnd(2) ? 0 : 0xFF; return p; }
static char *nat_str(void) { size_t n = rnd(4) ? rnd(12) : rnd(300); char *p = malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = 1 + rnd(255); p[n] = 0; return p; }
#define NEW(T) ((T *)malloc(sizeof(T)))
#define FILL(p, n) do { unsigned char *b_ = (void *)(p); for (size_t i_ = 0; i_ < (n); i_++) b_[i_] = rnd(6) ? rnd64() : rnd(2) ? 0 : 0xFF; } while (0)
#define BEGIN(m) rd = wr = ng = 0; msg = m; TR0(); TR("message %s", m); nat_case()
#define END do { nat_note(nat_hash(wire, sizeof(tok) * wr, 7)); free(x0); } while (0)
#define FLAG(f) do { if (rnd(2)) (f) = 1; } while (0)
#define COUNT(c) (c) = rnd(4) ? rnd(40) : 0
#define PAYLOAD(n) nat_any(n)
#define STRING() nat_str()
#define HANDLE() ((void *)(uintptr_t)rnd64())
#define COPY(a, b) memcpy(a, b, sizeof *(a))
#define OK(c, t) CHECK(c, "%s: not so: %s", msg, t)
#define STREQ(a, b) (strcmp(a, b) == 0)
#define SENT(p, sz) sent(p, sz)
#define GOT(a, b, n) ((n) == 0 || memcmp(a, b, n) == 0)
#else
void *nondet_ptr(void);
size_t nondet_size(void);
/* allocations of the code under contract, with their sizes */
static struct { void *p; uint64_t n; } alc[16];
static int na;
static void *vf_malloc(size_t n) { void *p = malloc(8); alc[na].p = p; alc[na].n = n; na++; return p; }
static int alloc_ok(const void *p, uint64_t n) { for (int i = 0; i < na; i++) if (alc[i].p == p && n <= alc[i].n) return 1; return 0; }
#define NEW(T) ((T *)malloc(sizeof(T)))
#define FILL(p, n)
#define BEGIN(m) rd = wr = ng = na = 0
#define END
#define FLAG(f)
#define COUNT(c) __CPROVER_assume((c) >= 0 && (c) < (1 << 27))
#define PAYLOAD(n) nondet_ptr()
#define STRING() nondet_ptr()
#define HANDLE() nondet_ptr()
#define COPY(a, b) *(a) = *(b)
#define OK(c, t) __CPROVER_assert(c, t)
#define STREQ(a, b) ((a) == (b))
#define SENT(p, sz) sent(p, sz)
#define GOT(a, b, n) got(a, b, n)
#endif
#endif
