#include "nat.h"
#include "pdc_hash_table.h"
#include "pdc_compare.h"
#include "pdc_hash.h"
#include <math.h>
extern HashTableEqualFunc pdc_default_double_equal_func_ptr;
extern HashTableHashFunc pdc_default_double_hash_func_ptr;
void *PDC_malloc(size_t n) { return malloc(n); }
void *PDC_calloc(size_t a, size_t b) { return calloc(a, b); }
#define SC(T, EQ, HA, FMT)                                                                                              \
    do {                                                                                                                \
        T *p = malloc(sizeof *p), *q = malloc(sizeof *q); *p = (T)x; *q = (T)y;                                          \
        int e = EQ(p, q) != 0;                                                                                          \
        CHECK(e == (*p == *q), #EQ "(" FMT ", " FMT ") = %d", *p, *q, e);                                               \
        CHECK(!e || HA(p) == HA(q), #HA ": equal keys " FMT " hash differently", *p);                                   \
        CHECK(HA(p) == HA(p), #HA " is not a function of the key");                                                     \
        free(p); free(q);                                                                                               \
    } while (0)
#define CMPV(T, C, FMT)                                                                                                 \
    do {                                                                                                                \
        T *p = malloc(sizeof *p), *q = malloc(sizeof *q); *p = (T)x; *q = (T)y; int r = C(p, q);                         \
        CHECK((r < 0) == (*p < *q) && (r > 0) == (*p > *q), #C "(" FMT ", " FMT ") = %d", *p, *q, r);                    \
        free(p); free(q);                                                                                               \
    } while (0)
static uint64_t
val(void) { switch (rnd(6)) { case 0: return rnd(4); case 1: return -(uint64_t)rnd(4); case 2: return 1ull << rnd(64); case 3: return (1ull << rnd(64)) - 1; case 4: return rnd64(); default: return rnd64() >> rnd(64); } }
static double
dval(void) { switch (rnd(8)) { case 0: return 0.0; case 1: return -0.0; case 2: return (double)rnd(10); case 3: return rnd(10) + 1e-10 * rnd(10); case 4: return ldexp((double)(int64_t)rnd64(), (int)rnd(200) - 160); case 5: return ldexp(1 + rnd(5), -1070 + (int)rnd(2000)); case 6: return -1.5 * rnd(5); default: return (double)(int64_t)rnd64() / 3; } }
static int lo(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static char *
str(int alpha, int n) { char *s = malloc(n + 1); for (int i = 0; i < n; i++) s[i] = alpha == 0 ? "aAbB"[rnd(4)] : alpha == 1 ? 1 + rnd(255) : 'a' + rnd(2); s[n] = 0; return s; }
int
main(int argc, char **argv)
{
    nat_init(argc, argv);
    while (nat_time_left(1.0)) {
        nat_case();
        uint64_t x = val(), y = rnd(3) ? val() : rnd(2) ? x : x ^ (1ull << rnd(64));
        TR0(); TR("x %llx y %llx", (unsigned long long)x, (unsigned long long)y);
        SC(int, int_equal, int_hash, "%d"); SC(uint64_t, ui64_equal, ui64_hash, "%lu");
        SC(int, pdc_default_integer_equal_func_ptr, pdc_default_integer_hash_func_ptr, "%d"); SC(long, pdc_default_long_equal_func_ptr, pdc_default_long_hash_func_ptr, "%ld");
        SC(uint64_t, pdc_default_uint64_equal_func_ptr, pdc_default_uint64_hash_func_ptr, "%lu");
        CMPV(int, int_compare, "%d"); CMPV(uint64_t, ui64_compare, "%lu");
        CHECK((pointer_equal((void *)x, (void *)y) != 0) == (x == y), "pointer_equal");
        CHECK(x != y || pointer_hash((void *)x) == pointer_hash((void *)y), "pointer_hash");
        { int r = pointer_compare((void *)x, (void *)y); CHECK((r < 0) == (x < y) && (r > 0) == (x > y), "pointer_compare"); }
        double *d = malloc(3 * sizeof *d);
        for (int i = 0; i < 3; i++) d[i] = dval();
        if (rnd(3) == 0) d[1] = d[0];
        if (rnd(6) == 0) d[1] = d[0] + 5e-10, d[2] = d[1] + 7e-10;
        if (rnd(6) == 0) d[1] = nextafter(d[0], 1e300);
        TR(" doubles %.17g %.17g %.17g", d[0], d[1], d[2]);
        HashTableEqualFunc de = pdc_default_double_equal_func_ptr; HashTableHashFunc dh = pdc_default_double_hash_func_ptr;
        int e = de(&d[0], &d[1]) != 0;
        CHECK(de(&d[0], &d[0]), "double equality is not reflexive");
        CHECK(!(d[0] == d[1]) || e, "equal doubles are different keys");
        CHECK(e == (de(&d[1], &d[0]) != 0), "double equality is not symmetric");
        CHECK(!(e && de(&d[1], &d[2])) || de(&d[0], &d[2]), "double equality is not transitive");
        CHECK(!e || dh(&d[0]) == dh(&d[1]), "equal double keys hash differently");
        free(d);
        int al = rnd(3), na = rnd(20) ? rnd(8) : rnd(300), nb = rnd(3) ? na : (int)rnd(8);
        char *a = str(al, na), *b = str(al, nb);
        if (nb == na && rnd(2)) memcpy(b, a, na); /* same content elsewhere */
        if (al == 0 && nb == na && rnd(3) == 0) for (int i = 0; i < na; i++) { b[i] = a[i]; if (rnd(2)) b[i] ^= 32; }
        if (na && nb == na && rnd(4) == 0) { memcpy(b, a, na); b[na - 1] ^= 1; if (!b[na - 1]) b[na - 1] = 7; }
        TR(" strings \"%s\" \"%s\"", a, b);
        int se = strcmp(a, b) == 0, sc = strcmp(a, b), ne = na == nb, nc = 0;
        for (int i = 0; ; i++) { int ca = lo((signed char)a[i]), cb = lo((signed char)b[i]); if (ca != cb) { ne = 0; nc = ca < cb ? -1 : 1; break; } if (!a[i]) break; }
        CHECK((string_equal(a, b) != 0) == se && (pdc_default_string_equal_func_ptr(a, b) != 0) == se, "string equality");
        int r = string_compare(a, b);
        CHECK((r < 0) == (sc < 0) && (r > 0) == (sc > 0), "string_compare = %d", r);
        CHECK(!se || string_hash(a) == string_hash(b), "equal strings hash differently");
        CHECK(!se || pdc_default_string_hash_func_ptr(a) == pdc_default_string_hash_func_ptr(b), "equal strings hash differently (default)");
        CHECK((string_nocase_equal(a, b) != 0) == ne, "string_nocase_equal");
        r = string_nocase_compare(a, b);
        int ascii = 1; for (int i = 0; i < na; i++) ascii &= a[i] > 0; for (int i = 0; i < nb; i++) ascii &= b[i] > 0;
        CHECK((r == 0) == ne, "string_nocase_compare = %d", r);
        int r2 = string_nocase_compare(b, a);
        CHECK((r < 0) == (r2 > 0) && (r > 0) == (r2 < 0), "string_nocase_compare is not antisymmetric");
        if (ascii) CHECK((r < 0) == (nc < 0) && (r > 0) == (nc > 0), "string_nocase_compare = %d, expected sign %d", r, nc);
        CHECK(!ne || string_nocase_hash(a) == string_nocase_hash(b), "strings equal up to case hash differently");
        nat_note(nat_hash(a, na, nat_hash(b, nb, x ^ y * 3)));
        if (nat_cases == 500) SAMPLE("%.300s", nat_trace);
        free(a); free(b);
    }
    return nat_done();
}
