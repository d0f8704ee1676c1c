#include "nat.h"
#include "nat_alloc.h"
#include "na_on.h"
#include SRC_C
#include "na_off.h"
void *PDC_malloc(size_t n) { return na_malloc(n); }
void *PDC_calloc(size_t a, size_t b) { return na_calloc(a, b); }
void *PDC_free(void *p) { na_free(p); return NULL; }
/* Executable contract of the adaptive radix tree: a finite map from strings, in byte order. */
typedef struct { unsigned char *k; int n; void *v; } ent;
static ent M[4000]; static int mn; /* sorted by key */
static int cmpk(const unsigned char *a, int an, const unsigned char *b, int bn) { int c = memcmp(a, b, an < bn ? an : bn); return c ? c : an - bn; }
static int pos(const unsigned char *k, int n, int *found) { int lo = 0, hi = mn; while (lo < hi) { int m = (lo + hi) / 2, c = cmpk(M[m].k, M[m].n, k, n); if (c == 0) { *found = 1; return m; } if (c < 0) lo = m + 1; else hi = m; } *found = 0; return lo; }
static const char *hex(const unsigned char *k, int n) { static char b[4][260]; static int w; char *r = b[w++ & 3]; int j = 0; for (int i = 0; i < n && j < 250; i++) if (k[i] > 32 && k[i] < 127 && k[i] != '\\') r[j++] = k[i]; else j += sprintf(r + j, "\\%02x", k[i]); r[j] = 0; return r; }
static int style;
static char stem[6][64];
/* an exactly sized, terminated key: reading past the terminator is a memory error */
static unsigned char *
key(int *n)
{
    int l = 0; unsigned char b[200];
    if (mn && rnd(3) == 0) { ent *e = M + rnd(mn); l = e->n; memcpy(b, e->k, l); int m = rnd(5); if (m == 1 && l) l = rnd(l); else if (m == 2 && l) b[rnd(l)] = 1 + rnd(255); else if (m == 3 && l < 150) { b[l++] = 1 + rnd(255); while (rnd(2) && l < 150) b[l++] = 1 + rnd(255); } else if (m == 4 && l > 1) { int i = rnd(l - 1); memmove(b + i, b + i + 1, l - 1 - i); l--; } }
    else {
        if (rnd(4)) { char *s = stem[rnd(style & 1 ? 2 : 6)]; l = strlen(s); memcpy(b, s, l); if (rnd(5) == 0) l = rnd(l + 1); }
        int x = rnd(6) ? rnd(3) : rnd(30);
        for (int i = 0; i < x; i++) b[l++] = (style >> 1) == 0 ? 'a' + rnd(3) : (style >> 1) == 1 ? 1 + rnd(255) : (style >> 1) == 2 ? 'a' + rnd(20) : 120 + rnd(20);
    }
    unsigned char *k = malloc(l + 1); memcpy(k, b, l); k[l] = 0; *n = l;
    return k;
}
static int it_i, it_stop, it_pre_n; static const unsigned char *it_pre; static int it_lo, it_hi;
static int
itcb(void *d, const unsigned char *k, uint32_t n, void *v)
{
    CHECK(d == (void *)&it_i, "iteration passes other data");
    CHECK(it_i < it_hi, "iteration yields more entries than there are: %s", hex(k, n));
    CHECK((int)n == M[it_i].n && !memcmp(k, M[it_i].k, n), "iteration yields %s where %s comes next", hex(k, n), hex(M[it_i].k, M[it_i].n));
    CHECK(v == M[it_i].v, "iteration yields a wrong value for %s", hex(k, n));
    it_i++;
    return it_stop && it_i - it_lo == it_stop ? 7 : 0;
}
static void
iter(art_tree *t, int pre, const unsigned char *p, int n)
{
    int lo = 0, hi = mn;
    if (pre) { int f; lo = pos(p, n, &f); hi = lo; while (hi < mn && M[hi].n >= n && !memcmp(M[hi].k, p, n)) hi++; }
    it_lo = it_i = lo; it_hi = hi; it_stop = rnd(4) ? 0 : 1 + rnd(6);
    if (pre) TR("prefix iteration %s\n", hex(p, n));
    int r = pre ? art_iter_prefix(t, p, n, itcb, &it_i) : art_iter(t, itcb, &it_i);
    if (it_stop && hi - lo >= it_stop) CHECK(r == 7 && it_i - lo == it_stop, "iteration did not stop when asked");
    else CHECK(r == 0 && it_i == hi, "iteration over %s returned %d of %d entries", pre ? hex(p, n) : "all", it_i - lo, hi - lo);
}
int
main(int argc, char **argv)
{
    nat_init(argc, argv);
    while (nat_time_left(1.0)) {
        nat_case(); TR0();
        art_tree t; memset(&t, 0xA5, sizeof t); long live0 = na_live;
        CHECK(art_tree_init(&t) == 0 && art_size(&t) == 0, "init");
        style = rnd(8); mn = 0;
        for (int i = 0; i < 6; i++) { int l = rnd(3) ? rnd(16) : rnd(40); for (int j = 0; j < l; j++) stem[i][j] = rnd(3) ? 'a' : 'a' + rnd(26); if (i && rnd(2)) memcpy(stem[i], stem[i - 1], l < (int)strlen(stem[i - 1]) ? l : (int)strlen(stem[i - 1])); stem[i][l] = 0; }
        int ops = rnd(4) ? rnd(60) : rnd(1200), del = 20; uint64_t h = style;
        for (int o = 0; o < ops; o++) {
            if (rnd(100) == 0) del = rnd(3) == 0 ? 70 : 10 + rnd(40);
            int n, f; unsigned char *k = key(&n); void *v = (void *)(uintptr_t)(1 + rnd(1000));
            int op = (int)rnd(100) < del && mn ? 2 : rnd(3);
            if (op == 2 && rnd(3)) { free(k); ent *e = M + rnd(mn ? mn : 1); n = mn ? e->n : 0; k = malloc(n + 1); if (n) memcpy(k, e->k, n); k[n] = 0; }
            int i = pos(k, n, &f);
            TR("%s %s\n", op == 0 ? "insert" : op == 1 ? "insert_no_replace" : "delete", hex(k, n));
            h = nat_hash(k, n, h + op);
            if (op < 2 && mn < 3990) {
                void *r = op ? art_insert_no_replace(&t, k, n, v) : art_insert(&t, k, n, v);
                CHECK(r == (f ? M[i].v : NULL), "insert returned %p, expected %p", r, f ? M[i].v : NULL);
                if (f) { if (!op) M[i].v = v; }
                else { memmove(M + i + 1, M + i, (mn - i) * sizeof(ent)); M[i] = (ent){malloc(n ? n : 1), n, v}; memcpy(M[i].k, k, n); mn++; }
            } else if (op == 2) {
                void *r = art_delete(&t, k, n);
                CHECK(r == (f ? M[i].v : NULL), "delete returned %p, expected %p", r, f ? M[i].v : NULL);
                if (f) { free(M[i].k); memmove(M + i, M + i + 1, (mn - i - 1) * sizeof(ent)); mn--; }
            }
            CHECK(art_size(&t) == (uint64_t)mn, "size %lu, expected %d", (unsigned long)art_size(&t), mn);
            i = pos(k, n, &f);
            CHECK(art_search(&t, k, n) == (f ? M[i].v : NULL), "search of the key just operated on");
            free(k);
            k = key(&n); i = pos(k, n, &f);
            TR("search %s\n", hex(k, n));
            void *r = art_search(&t, k, n);
            CHECK(r == (f ? M[i].v : NULL), "search of %s returned %p, expected %p", hex(k, n), r, f ? M[i].v : NULL);
            if (rnd(3) == 0) iter(&t, 1, k, n);
            if (rnd(20) == 0) iter(&t, 0, 0, 0);
            art_leaf *a = art_minimum(&t), *b = art_maximum(&t);
            if (!mn) CHECK(!a && !b, "minimum of an empty tree");
            else CHECK(a->key_len == (uint32_t)M[0].n && !memcmp(a->key, M[0].k, M[0].n) && b->key_len == (uint32_t)M[mn - 1].n && !memcmp(b->key, M[mn - 1].k, M[mn - 1].n), "minimum %s or maximum %s", hex(a->key, a->key_len), hex(b->key, b->key_len));
            free(k);
        }
        for (int i = 0; i < mn; i++) { unsigned char *q = malloc(M[i].n + 1); memcpy(q, M[i].k, M[i].n); q[M[i].n] = 0; CHECK(art_search(&t, q, M[i].n) == M[i].v, "search of %s", hex(q, M[i].n)); free(q); }
        iter(&t, 0, 0, 0);
        if (rnd(3) == 0) while (mn) { int i = rnd(mn); unsigned char *q = malloc(M[i].n + 1); memcpy(q, M[i].k, M[i].n); q[M[i].n] = 0; TR("delete %s\n", hex(q, M[i].n)); CHECK(art_delete(&t, q, M[i].n) == M[i].v, "delete of %s", hex(q, M[i].n)); free(q); free(M[i].k); memmove(M + i, M + i + 1, (mn - i - 1) * sizeof(ent)); mn--; if (mn % 16 == 0) iter(&t, 0, 0, 0); }
        CHECK(art_tree_destroy(&t) == 0, "destroy");
        CHECK(na_live == live0, "%ld allocations left after destroy", na_live - live0);
        for (int i = 0; i < mn; i++) free(M[i].k);
        nat_note(h);
        if (nat_cases == 30) SAMPLE("%.300s", nat_trace);
    }
    return nat_done();
}
