#include "nat.h"
#include "pdc_region.h"
/* Executable contract of the overlap functions against a per-coordinate interval oracle. */
int check_overlap(int, uint64_t *, uint64_t *, uint64_t *, uint64_t *);
int PDC_region_overlap_detect(int, uint64_t *, uint64_t *, uint64_t *, uint64_t *, uint64_t **, uint64_t **);
int detect_region_contained(uint64_t *, uint64_t *, uint64_t *, uint64_t *, int);
static void
one(int nd, const uint64_t *a, const uint64_t *as, const uint64_t *b, const uint64_t *bs)
{
    nat_case();
    uint64_t *p[4];
    const uint64_t *src[4] = {a, as, b, bs};
    TR0(); TR("ndim %d", nd);
    for (int i = 0; i < 4; i++) {
        p[i] = malloc(8 * nd);
        memcpy(p[i], src[i], 8 * nd);
        TR(" [");
        for (int d = 0; d < nd; d++) TR("%llu ", (unsigned long long)src[i][d]);
        TR("]");
    }
    int want = 1, in = 1;
    uint64_t lo[8], n[8];
    for (int d = 0; d < nd; d++) {
        __uint128_t ea = (__uint128_t)a[d] + as[d], eb = (__uint128_t)b[d] + bs[d], e = ea < eb ? ea : eb;
        lo[d] = a[d] > b[d] ? a[d] : b[d];
        if (e <= lo[d]) want = 0; else n[d] = (uint64_t)(e - lo[d]);
        if (a[d] < b[d] || ea > eb) in = 0;
    }
    int r = check_overlap(nd, p[0], p[1], p[2], p[3]);
    CHECK(!!r == want, "check_overlap returned %d, expected %d", r, want);
    CHECK(detect_region_contained(p[0], p[1], p[2], p[3], nd) == in, "detect_region_contained disagrees, expected %d", in);
    uint64_t *oo = (void *)8, *os = (void *)8;
    PDC_region_overlap_detect(nd, p[0], p[1], p[2], p[3], &oo, &os);
    CHECK((oo != NULL) == want && (os != NULL) == want, "overlap_detect reported %p %p, expected %d", (void *)oo, (void *)os, want);
    if (want) {
        for (int d = 0; d < nd; d++)
            CHECK(oo[d] == lo[d] && os[d] == n[d], "dimension %d: reported %llu+%llu, expected %llu+%llu", d, (unsigned long long)oo[d],
                  (unsigned long long)os[d], (unsigned long long)lo[d], (unsigned long long)n[d]);
        free(oo);
    }
    for (int i = 0; i < 4; i++) {
        CHECK(!memcmp(p[i], src[i], 8 * nd), "an input array changed");
        free(p[i]);
    }
    uint64_t h = nd;
    for (int i = 0; i < 4; i++) h = nat_hash(src[i], 8 * nd, h);
    nat_note(h);
}
int
main(int argc, char **argv)
{
    nat_init(argc, argv);
    uint64_t a[8], as[8], b[8], bs[8];
    for (int x = 0; x < 6 * 6 * 6 * 6; x++) {
        a[0] = x % 6; as[0] = 1 + x / 6 % 6; b[0] = x / 36 % 6; bs[0] = 1 + x / 216 % 6;
        one(1, a, as, b, bs);
    }
    for (int x = 0; x < 81 * 81 * 2 && nat_time_left(0.4); x++) {
        int y = x % 6561;
        uint64_t base = x >= 6561 ? (1ull << 33) : 0;
        for (int d = 0; d < 2; d++) {
            a[d] = base + y % 3; y /= 3; as[d] = 1 + y % 3; y /= 3; b[d] = base + y % 3; y /= 3; bs[d] = 1 + y % 3; y /= 3;
        }
        one(2, a, as, b, bs);
    }
    while (nat_time_left(1.0)) {
        int nd = 1 + rnd(rnd(4) ? 3 : 7), kind = rnd(4);
        for (int d = 0; d < nd; d++) {
            uint64_t m = kind == 0 ? 5 : kind == 1 ? 100 : kind == 2 ? 1ull << (8 + rnd(50)) : 1ull << 62;
            uint64_t base = kind == 3 ? rnd(2) << 62 : kind == 1 ? (1ull << 32) - 50 : 0;
            a[d] = base + rnd(m); as[d] = 1 + rnd(m); b[d] = base + rnd(m); bs[d] = 1 + rnd(m);
            switch (rnd(8)) { /* touching, nested, equal */
                case 0: b[d] = a[d] + as[d]; break;
                case 1: a[d] = b[d] + bs[d]; break;
                case 2: b[d] = a[d] + as[d] - 1; break;
                case 3: b[d] = a[d]; break;
                case 4: b[d] = a[d]; bs[d] = as[d]; break;
                case 5: b[d] = a[d] + rnd(as[d]); bs[d] = 1 + rnd(as[d] - (b[d] - a[d])); break;
                default: break;
            }
        }
        one(nd, a, as, b, bs);
    }
    SAMPLE("last pair: ndim case %llu, first box offset %llu size %llu", (unsigned long long)nat_cases, (unsigned long long)a[0], (unsigned long long)as[0]);
    return nat_done();
}
