#include "nat.h"
#include "server/dablooms/pdc_dablooms.h"
#include "server/dablooms/pdc_murmur.h"
/* Executable contract of the counting and scaling Bloom filters against an exact multiset model. */
static void *dirty(size_t n) { unsigned char *p = malloc(n); if (p) memset(p, 0xA5 + (n & 7), n); return p; }
void *PDC_malloc(size_t n) { return dirty(n); }
void *PDC_calloc(size_t a, size_t b) { return calloc(a, b); }
void *PDC_realloc(void *p, size_t n) { return realloc(p, n); }
void *PDC_free(void *p) { free(p); return NULL; }
#define MAXK 4000
static int  cnt[MAXK];
void hash_func(counting_bloom_t *, const char *, size_t, uint32_t *);
static char *keyof(uint64_t salt, int k, size_t *len)
{
    static char raw[96]; uint64_t h = salt ^ (k * 0x9E3779B97F4A7C15ull);
    size_t n = 4 + (salt + k) % 60;
    for (size_t i = 0; i < n; i++) { h ^= h << 13; h ^= h >> 7; h ^= h << 17; raw[i] = (char)h; }
    memcpy(raw, &k, 4);
    *len = n;
    char *p = malloc(n); memcpy(p, raw, n);  /* exact size: reads past the key are seen */
    return p;
}
/* highest count of any counter, recomputed from the keys added, to tell genuine counter overflow from loss */
static int over(counting_bloom_t *b, uint64_t salt, int nk, int *lim, int add)
{
    static unsigned short *c; static size_t cc; size_t sz = b->nfuncs * (size_t)b->counts_per_func;
    if (sz > cc) { c = realloc(c, sz * 2); cc = sz; }
    memset(c, 0, sz * 2);
    uint32_t h[64]; int mx = 0;
    for (int k = 0; k < nk; k++) if (cnt[k] || k == add) {
        size_t n; char *s = keyof(salt, k, &n);
        hash_func(b, s, n, h); free(s);
        for (size_t i = 0; i < b->nfuncs; i++) { CHECK(h[i] < b->counts_per_func, "hash %zu of key %d is outside its slice", i, k); size_t x = i * b->counts_per_func + h[i]; c[x] += cnt[k] + (k == add); if (c[x] > mx) mx = c[x]; }
    }
    return mx;
}
static void counting(void)
{
    unsigned cap = 2 + rnd(rnd(3) ? 60 : 1500); double er = (double[]){0.3, 0.1, 0.05, 0.01, 0.001}[rnd(5)];
    uint64_t salt = rnd64(); int nk = 1 + rnd(cap < MAXK ? cap : MAXK); memset(cnt, 0, sizeof cnt);
    TR("counting filter capacity %u error %g salt %llu: ", cap, er, (unsigned long long)salt);
    counting_bloom_t *b = new_counting_bloom(cap, er); CHECK(b, "new"); b->header->count = 0;
    size_t nb = b->bitmap->bytes; 
    for (size_t i = sizeof(counting_bloom_header_t); i < nb; i++) CHECK(b->bitmap->array[i] == 0, "a new filter has a counter that is not zero");
    int total = 0, steps = 10 + rnd(3 * nk + 20);
    for (int t = 0; t < steps; t++) {
        int k = rnd(nk); size_t n; char *s = keyof(salt, k, &n);
        int w = rnd(8);
        if (w < 4 && total < (int)cap) { if (cnt[k] < 8 && (cnt[k] < 2 || over(b, salt, nk, 0, k) <= 15) && total < (int)cap) { int bad = nk < 100 && rnd(2) ? over(b, salt, nk, 0, k) > 15 : 0; if (!bad) { TR("add %d; ", k); counting_bloom_add(b, s, n); cnt[k]++; total++; } } }
        else if (w < 6) { if (cnt[k]) { TR("rem %d; ", k); counting_bloom_remove(b, s, n); cnt[k]--; total--; } }
        else { TR("chk %d; ", k); int r = counting_bloom_check(b, s, n); if (cnt[k]) CHECK(r, "added key %d is reported absent", k); }
        CHECK((int)b->header->count == total, "the filter counts %u elements, %d are in it", b->header->count, total);
        free(s);
    }
    int ov = over(b, salt, nk, 0, -1) > 15;
    for (int k = 0; k < nk && !ov; k++) { size_t n; char *s = keyof(salt, k, &n); if (cnt[k]) CHECK(counting_bloom_check(b, s, n), "added key %d is reported absent at the end", k); free(s); }
    /* removal undoes addition: an emptied filter is all zero */
    if (!ov) {
        for (int k = 0; k < nk; k++) while (cnt[k]) { size_t n; char *s = keyof(salt, k, &n); counting_bloom_remove(b, s, n); cnt[k]--; total--; free(s); }
        for (size_t i = sizeof(counting_bloom_header_t); i < nb; i++) CHECK(b->bitmap->array[i] == 0, "a counter of the emptied filter is not zero (byte %zu of %zu)", i, nb);
        CHECK(b->header->count == 0, "count of the emptied filter is %u", b->header->count);
    }
    free_counting_bloom(b);
}
static void rate(void)
{
    unsigned cap = 300 + rnd(2000); double er = (double[]){0.2, 0.1, 0.05, 0.01}[rnd(4)]; uint64_t salt = rnd64();
    TR("false positives: capacity %u error %g", cap, er);
    int sc = rnd(2); counting_bloom_t *b = NULL; scaling_bloom_t *z = NULL;
    if (sc) z = new_scaling_bloom(cap, er); else { b = new_counting_bloom(cap, er); b->header->count = 0; }
    for (unsigned k = 0; k < (sc ? 3 * cap : cap); k++) { size_t n; char *s = keyof(salt, k, &n); if (sc) scaling_bloom_add(z, s, n, k); else counting_bloom_add(b, s, n); free(s); }
    int fp = 0, q = 4000;
    for (int k = 0; k < q; k++) { size_t n; char *s = keyof(salt, 1000000 + k, &n); fp += !!(sc ? scaling_bloom_check(z, s, n) : counting_bloom_check(b, s, n)); free(s); }
    CHECK(fp <= q * er * 2 + 60, "%d of %d absent keys are reported present, configured error rate %g (%s filter)", fp, q, er, sc ? "scaling" : "counting");
    if (sc) free_scaling_bloom(z); else free_counting_bloom(b);
}
static int kid[MAXK];
static void scaling(void)
{
    unsigned cap = 2 + rnd(rnd(3) ? 20 : 300); double er = (double[]){0.2, 0.1, 0.02}[rnd(3)]; uint64_t salt = rnd64();
    int total = 1 + rnd(cap * 6 < MAXK ? cap * 6 : MAXK), id = 0, gap = rnd(3);
    memset(cnt, 0, sizeof cnt);
    TR("scaling filter capacity %u error %g salt %llu: ", cap, er, (unsigned long long)salt);
    scaling_bloom_t *z = new_scaling_bloom(cap, er); CHECK(z, "new");
    for (int k = 0; k < total; k++) {
        size_t n; char *s = keyof(salt, k, &n);
        kid[k] = id; if (rnd(3 + gap)) id += 1 + rnd(1 + gap * 3);
        TR("add %d id %d; ", k, kid[k]);
        scaling_bloom_add(z, s, n, kid[k]); cnt[k] = 1; free(s);
        if (rnd(4) == 0) { int q = rnd(k + 1); s = keyof(salt, q, &n); if (cnt[q]) CHECK(scaling_bloom_check(z, s, n), "key %d, added with id %d, is reported absent (%u sub-filters)", q, kid[q], z->num_blooms); free(s); }
        if (rnd(6) == 0) { int q = rnd(k + 1); s = keyof(salt, q, &n); if (cnt[q]) { TR("rem %d id %d; ", q, kid[q]); CHECK(scaling_bloom_remove(z, s, n, kid[q]) == 1, "remove"); cnt[q] = 0; } free(s); }
    }
    for (int k = 0; k < total; k++) if (cnt[k]) { size_t n; char *s = keyof(salt, k, &n); CHECK(scaling_bloom_check(z, s, n), "key %d, added with id %d, is reported absent at the end (%u sub-filters)", k, kid[k], z->num_blooms); free(s); }
    for (int k = 0; k < total; k++) if (cnt[k]) { size_t n; char *s = keyof(salt, k, &n); CHECK(scaling_bloom_remove(z, s, n, kid[k]) == 1, "remove"); free(s); }
    for (unsigned i = 0; i < z->num_blooms; i++) {
        counting_bloom_t *b = z->blooms[i];
        CHECK(b->header->count == 0, "sub-filter %u of the emptied filter counts %u elements", i, b->header->count);
        for (size_t j = 0; j < b->num_bytes - sizeof(counting_bloom_header_t); j++) CHECK(b->bitmap->array[b->offset + j] == 0, "a counter of the emptied filter is not zero (sub-filter %u byte %zu)", i, j);
    }
    free_scaling_bloom(z);
}
int main(int argc, char **argv)
{
    nat_init(argc, argv); int k = 0;
    freopen("/dev/null", "w", stderr);
    while (nat_time_left(1.0)) {
        TR0(); nat_case(); int w = rnd(12);
        if (w < 6) counting(); else if (w < 11) scaling(); else rate();
        nat_note(nat_hash(nat_trace, nat_tl, 1));
        if (k++ % 3000 == 0) SAMPLE("%.200s", nat_trace);
    }
    return nat_done();
}
