#include <stdlib.h>
#include <stdint.h>
#include "server/dablooms/pdc_dablooms.h"
#define A __CPROVER_assert
#define ASM __CPROVER_assume
void *PDC_malloc(size_t n) { return malloc(n); }
void *PDC_calloc(size_t a, size_t b) { return calloc(a, b); }
/* any bitmap: 4-bit counters, any size; q is any other counter, z any other byte */
#define SETUP                                                                                                          \
    bitmap_t b; size_t n; unsigned ix, q; long off; size_t z;                                                          \
    ASM(n >= 1 && n < 1ul << 33 && off >= 0 && off < 1l << 32 && ix / 2 + off < n && q / 2 + off < n && q != ix && z < n && z != ix / 2 + off); \
    b.bytes = n; b.array = malloc(n);                                                                                  \
    int v0 = bitmap_check(&b, ix, off), w0 = bitmap_check(&b, q, off); char z0 = b.array[z];                            \
    int c0 = ix % 2 ? v0 : v0 >> 4;                                                                                    \
    A(c0 >= 0 && c0 <= 15, "a counter has four bits");
#define DONE                                                                                                           \
    int v1 = bitmap_check(&b, ix, off), c1 = ix % 2 ? v1 : v1 >> 4;                                                     \
    A(bitmap_check(&b, q, off) == w0, "other counters are unchanged");                                                 \
    A(b.array[z] == z0, "other bytes are unchanged");
void increment(void)
{
    SETUP
    int r = bitmap_increment(&b, ix, off);
    DONE
    A(c0 == 15 ? c1 == 15 && r != 0 : c1 == c0 + 1 && r == 0, "the counter is incremented, or an overflow is reported");
}
void decrement(void)
{
    SETUP
    int r = bitmap_decrement(&b, ix, off);
    DONE
    A(c0 == 0 ? c1 == 0 && r != 0 : c1 == c0 - 1 && r == 0, "the counter is decremented, or an underflow is reported");
}
