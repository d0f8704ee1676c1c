#include <stdint.h>
#include <math.h>
#include <string.h>
#include "pdc_hash_table.h"
#include "pdc_compare.h"
#include "pdc_hash.h"
/* declared in pdc_compare.h / pdc_hash.h / pdc_hash_table.h */
#ifndef L
#define L 4
#endif
/* library models: frexp is a function of its argument */
double __CPROVER_uninterpreted_frexp_m(double);
int    __CPROVER_uninterpreted_frexp_e(double);
double frexp(double x, int *e)
{
    double m = __CPROVER_uninterpreted_frexp_m(x);
    int    k = __CPROVER_uninterpreted_frexp_e(x);
    __CPROVER_assume(m >= 0.5 && m < 1.0 && k >= -1074 && k <= 1025); /* x > 0 finite */
    *e = k;
    return m;
}
unsigned pdc_default_string_hash_func(HashTableKey);
int      pdc_default_string_equal_func(HashTableKey, HashTableKey);
unsigned pdc_default_integer_hash_func(HashTableKey);
int      pdc_default_integer_equal_func(HashTableKey, HashTableKey);
unsigned pdc_default_long_hash_func(HashTableKey);
int      pdc_default_long_equal_func(HashTableKey, HashTableKey);
unsigned pdc_default_uint64_hash_func(HashTableKey);
int      pdc_default_uint64_equal_func(HashTableKey, HashTableKey);
unsigned pdc_default_double_hash_func(HashTableKey);
int      pdc_default_double_equal_func(HashTableKey, HashTableKey);

#define SCALAR(T, EQ, HASH)                                                                                            \
    T a, b, c;                                                                                                         \
    int ab = EQ(&a, &b) != 0, ba = EQ(&b, &a) != 0, bc = EQ(&b, &c) != 0, ac = EQ(&a, &c) != 0;                        \
    __CPROVER_assert(ab == (a == b), "equality is equality of values");                                                \
    __CPROVER_assert(ab == ba, "equality is symmetric");                                                               \
    __CPROVER_assert(EQ(&a, &a), "equality is reflexive");                                                             \
    __CPROVER_assert(!(ab && bc) || ac, "equality is transitive");                                                     \
    __CPROVER_assert(!ab || HASH(&a) == HASH(&b), "equal keys hash equally");                                          \
    __CPROVER_assert(HASH(&a) == HASH(&a), "the hash of a key does not change");
#define ORDER(T, CMP)                                                                                                  \
    int x = CMP(&a, &b), y = CMP(&b, &a);                                                                              \
    __CPROVER_assert((x < 0) == (a < b) && (x > 0) == (a > b) && (x == 0) == (a == b), "comparison is the order of the values"); \
    __CPROVER_assert((x < 0) == (y > 0), "comparison is antisymmetric");

void h_int(void) { SCALAR(int, int_equal, int_hash) ORDER(int, int_compare) }
void h_ui64(void) { SCALAR(uint64_t, ui64_equal, ui64_hash) ORDER(uint64_t, ui64_compare) }
void h_def_int(void) { SCALAR(int, pdc_default_integer_equal_func, pdc_default_integer_hash_func) }
void h_def_long(void) { SCALAR(long, pdc_default_long_equal_func, pdc_default_long_hash_func) }
void h_def_u64(void) { SCALAR(uint64_t, pdc_default_uint64_equal_func, pdc_default_uint64_hash_func) }
void h_double(void)
{
    double a, b, c;
    __CPROVER_assume(!isnan(a) && !isnan(b) && !isnan(c) && !isinf(a) && !isinf(b) && !isinf(c));
    int ab = pdc_default_double_equal_func(&a, &b) != 0, bc = pdc_default_double_equal_func(&b, &c) != 0, ac = pdc_default_double_equal_func(&a, &c) != 0;
    __CPROVER_assert(!(a == b) || ab, "equal values are equal keys");
    __CPROVER_assert(ab == (pdc_default_double_equal_func(&b, &a) != 0), "equality is symmetric");
    __CPROVER_assert(!(ab && bc) || ac, "equality is transitive");
    __CPROVER_assert(!ab || pdc_default_double_hash_func(&a) == pdc_default_double_hash_func(&b), "equal keys hash equally");
}
void h_pointer(void)
{
    char p[4], q[4];
    unsigned i, j;
    __CPROVER_assume(i < 4 && j < 4);
    char *a = &p[i], *b = __CPROVER_uninterpreted_frexp_e(0.) ? &p[j] : &q[j];
    __CPROVER_assert((pointer_equal(a, b) != 0) == (a == b), "equality is identity");
    __CPROVER_assert(!pointer_equal(a, b) || pointer_hash(a) == pointer_hash(b), "equal keys hash equally");
    char *c = &p[j];
    int   x = pointer_compare(a, c);
    __CPROVER_assert((x < 0) == (i < j) && (x > 0) == (i > j), "comparison is address order");
}
static char lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
void h_string(void)
{
    char a[L + 1], b[L + 1];
    a[L] = b[L] = 0;
    int e = 1;
    for (int i = 0; i <= L; i++) { if (a[i] != b[i]) { e = 0; break; } if (!a[i]) break; }
    __CPROVER_assert((string_equal(a, b) != 0) == e, "string equality");
    __CPROVER_assert((pdc_default_string_equal_func(a, b) != 0) == e, "default string equality");
    __CPROVER_assert((string_compare(a, b) == 0) == e, "string comparison agrees with equality");
    __CPROVER_assert((string_compare(a, b) < 0) == (string_compare(b, a) > 0), "string comparison is antisymmetric");
}
void h_string_hash(void)
{
    char a[L + 1], b[L + 1];
    a[L] = b[L] = 0;
    for (int i = 0; i <= L; i++) { __CPROVER_assume(a[i] == b[i]); if (!a[i]) break; }
    __CPROVER_assert(string_hash(a) == string_hash(b), "equal strings hash equally");
    __CPROVER_assert(pdc_default_string_hash_func(a) == pdc_default_string_hash_func(b), "equal strings hash equally (default)");
}
void h_nocase(void)
{
    char a[L + 1], b[L + 1];
    a[L] = b[L] = 0;
    for (int i = 0; i < L; i++) __CPROVER_assume(a[i] >= 0 && b[i] >= 0);
    int e = 1;
    for (int i = 0; i <= L; i++) { if (lo(a[i]) != lo(b[i])) { e = 0; break; } if (!a[i]) break; }
    __CPROVER_assert((string_nocase_equal(a, b) != 0) == e, "case-insensitive equality");
    __CPROVER_assert((string_nocase_compare(a, b) == 0) == e, "case-insensitive comparison agrees with equality");
    __CPROVER_assert((string_nocase_compare(a, b) < 0) == (string_nocase_compare(b, a) > 0), "case-insensitive comparison is antisymmetric");
    __CPROVER_assert(!e || string_nocase_hash(a) == string_nocase_hash(b), "equal strings hash equally");
}
