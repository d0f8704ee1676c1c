#include "nat.h"
#include "pdc_region.h"
int memcpy_subregion(int, uint64_t, pdc_access_t, char *, uint64_t *, char *, uint64_t *, uint64_t *);
int memcpy_overlap_subregion(int, uint64_t, char *, uint64_t *, uint64_t *, char *, uint64_t *, uint64_t *, uint64_t *, uint64_t *);
static unsigned char *
filled(size_t n) { unsigned char *p = malloc(n); for (size_t i = 0; i < n; i++) p[i] = rnd64() >> 11; return p; }
static unsigned char *
dup_(const unsigned char *a, size_t n) { unsigned char *p = malloc(n); memcpy(p, a, n); return p; }
static size_t
at(int nd, const uint64_t *size, const uint64_t *c) { size_t r = 0; for (int d = 0; d < nd; d++) r = r * size[d] + c[d]; return r; }
static uint64_t *heap(const uint64_t *a, int nd) { uint64_t *p = malloc(8 * nd); memcpy(p, a, 8 * nd); return p; }
static void
tr(const char *n, int nd, const uint64_t *a) { TR(" %s[", n); for (int d = 0; d < nd; d++) TR("%llu ", (unsigned long long)a[d]); TR("]"); }
int
main(int argc, char **argv)
{
    nat_init(argc, argv);
    uint64_t h = 0;
    while (nat_time_left(1.0)) {
        nat_case();
        int nd = 1 + rnd(3), big = rnd(50) == 0;
        uint64_t unit = rnd(3) ? 1 + rnd(8) : 1 + rnd(40), lim = big ? (nd == 1 ? 5000 : nd == 2 ? 120 : 25) : 7;
        uint64_t s1[3], o1[3], s2[3], o2[3], oo[3], os[3], ex[3];
        size_t n1 = unit, n2 = unit, nb = unit, ne = 1;
        uint64_t base = rnd(2) ? 0 : rnd(1ull << 40);
        for (int d = 0; d < nd; d++) {
            s1[d] = 1 + rnd(lim); s2[d] = 1 + rnd(lim);
            os[d] = 1 + rnd(s1[d] < s2[d] ? s1[d] : s2[d]);
            if (rnd(4) == 0) os[d] = s1[d] < s2[d] ? s1[d] : s2[d];
            uint64_t p1 = rnd(s1[d] - os[d] + 1), p2 = rnd(s2[d] - os[d] + 1);
            oo[d] = base + 40 + rnd(1000);
            o1[d] = oo[d] - p1 < oo[d] ? oo[d] - p1 : oo[d]; o2[d] = oo[d] - p2;
            o1[d] = oo[d] - p1;
            ex[d] = p1;
            n1 *= s1[d]; n2 *= s2[d]; nb *= os[d]; ne *= os[d];
        }
        TR0(); TR("ndim %d unit %llu", nd, (unsigned long long)unit); tr("size", nd, s1); tr("sub_offset", nd, ex); tr("sub_size", nd, os); tr("size2", nd, s2);
        tr("offset", nd, o1); tr("offset2", nd, o2); tr("overlap", nd, oo);
        uint64_t *S = heap(s1, nd), *E = heap(ex, nd), *N = heap(os, nd), *O1 = heap(o1, nd), *O2 = heap(o2, nd), *S2 = heap(s2, nd), *OO = heap(oo, nd);
        for (int mode = 0; mode < 3; mode++) {
            /* mode 0 gather, 1 scatter, 2 overlap copy */
            unsigned char *a = filled(n1), *b = mode == 2 ? filled(n2) : filled(nb), *a0 = dup_(a, n1), *b0 = dup_(b, mode == 2 ? n2 : nb);
            TR(" mode %d", mode);
            if (mode < 2) memcpy_subregion(nd, unit, mode ? PDC_READ : PDC_WRITE, (char *)a, S, (char *)b, E, N);
            else memcpy_overlap_subregion(nd, unit, (char *)a, O1, S, (char *)b, O2, S2, OO, N);
            for (size_t e = 0; e < ne; e++) { /* oracle, element by element */
                uint64_t c[3], c1[3], c2[3]; size_t r = e;
                for (int d = nd - 1; d >= 0; d--) { c[d] = r % os[d]; r /= os[d]; }
                for (int d = 0; d < nd; d++) { c1[d] = ex[d] + c[d]; c2[d] = mode == 2 ? oo[d] - o2[d] + c[d] : c[d]; }
                size_t i1 = at(nd, s1, c1) * unit, i2 = at(nd, mode == 2 ? s2 : os, c2) * unit;
                if (mode == 1) memcpy(a0 + i1, b0 + i2, unit); else memcpy(b0 + i2, a0 + i1, unit);
            }
            CHECK(!memcmp(a, a0, n1), "buffer of the region differs from the element-by-element copy (mode %d)", mode);
            CHECK(!memcmp(b, b0, mode == 2 ? n2 : nb), "%s differs from the element-by-element copy", mode == 2 ? "destination region" : "sub-buffer");
            free(a); free(b); free(a0); free(b0);
        }
        CHECK(!memcmp(S, s1, 8 * nd) && !memcmp(E, ex, 8 * nd) && !memcmp(N, os, 8 * nd) && !memcmp(OO, oo, 8 * nd), "a geometry array changed");
        free(S); free(E); free(N); free(O1); free(O2); free(S2); free(OO);
        h = nat_hash(s1, 8 * nd, nd); h = nat_hash(os, 8 * nd, h); h = nat_hash(s2, 8 * nd, h ^ unit); h = nat_hash(ex, 8 * nd, h);
        nat_note(h);
        if (nat_cases == 1000) SAMPLE("%s", nat_trace);
    }
    return nat_done();
}
