/* native contract run for P13: the server's metadata index against a relation (word of key, word of value, object id) */
#define _GNU_SOURCE
#include "nat.h"
#include "pdc_server_metadata_index.h" /* the last header that reads the configuration */
#ifdef NO_SFX
#undef PDC_DART_SFX_TREE
#endif
#include SRC_C
#ifdef PDC_DART_SFX_TREE
#define SFX 1
#else
#define SFX 0
#endif
typedef struct { char *k, *v; uint64_t id; } rel_t;
static rel_t *R; static int nR, cR;
static void
radd(const char *k, const char *v, uint64_t id)
{
    for (int i = 0; i < nR; i++) if (R[i].id == id && !strcmp(R[i].k, k) && !strcmp(R[i].v, v)) return;
    if (nR == cR) R = realloc(R, sizeof *R * (cR = cR * 2 + 64));
    R[nR++] = (rel_t){strdup(k), strdup(v), id};
}
static void
rdel(const char *k, const char *v, uint64_t id)
{
    for (int i = 0; i < nR; i++)
        if (R[i].id == id && !strcmp(R[i].k, k) && !strcmp(R[i].v, v)) { free(R[i].k), free(R[i].v); R[i] = R[--nR]; return; }
}
static int
word(const char *w, const char *pat)
{
    int l = strlen(w), p = strlen(pat), lead = p >= 2 && pat[0] == '*', trail = p >= 1 && pat[p - 1] == '*', n = p - lead - trail;
    const char *t = pat + lead;
#ifdef PDC_DART_SFX_TREE /* the words are suffixes: *abc denotes abc, *abc* the words that start with abc */
    return trail ? l >= n && !memcmp(w, t, n) : l == n && !memcmp(w, t, n);
#else
    if (lead && trail) { for (int i = 0; i + n <= l; i++) if (!memcmp(w + i, t, n)) return 1; return 0; }
    if (lead) return l >= n && !memcmp(w + l - n, t, n);
    if (trail) return l >= n && !memcmp(w, t, n);
    return l == n && !memcmp(w, t, n);
#endif
}
static int cmp64(const void *a, const void *b) { uint64_t x = *(uint64_t *)a, y = *(uint64_t *)b; return x < y ? -1 : x > y; }
static char *
rw(int maxlen, const char *abc, int min)
{
    int n = min + rnd(maxlen - min + 1), m = strlen(abc);
    char *s = malloc(n + 1);
    for (int i = 0; i < n; i++) s[i] = abc[rnd(m)];
    s[n] = 0;
    return s;
}
static char *
pattern(const char *w, const char *abc)
{
    int n = strlen(w), kind = rnd(4), a = rnd(n + 1), b = a + rnd(n - a + 1);
    char *p = malloc(n + 8), *q = p;
    if (!rnd(6)) { free(p); return rw(3, abc, 0); }
    if (kind == 0) a = 0, b = n;
    if (kind == 1) a = 0;
    if (kind == 2) b = n;
    if (kind >= 2) *q++ = '*';
    memcpy(q, w + a, b - a), q += b - a;
    if (kind == 1 || kind == 3) *q++ = '*';
    *q = 0;
    return p;
}
static void
search(const char *kp, const char *vp)
{
    char q[600];
    sprintf(q, "%s=%s", kp, vp);
    TR("search %s\n", q);
    uint64_t n = 12345, *ids = NULL;
    char *qq = strdup(q);
    if (rnd(2)) {
        dart_perform_one_server_in_t in;
        dart_perform_one_server_out_t out;
        memset(&in, 0, sizeof in), memset(&out, 0, sizeof out);
        in.op_type = determine_pattern_type(kp), in.hash_algo = DART_HASH, in.attr_key = qq, in.attr_val = (char *)vp, in.obj_ref_type = REF_PRIMARY_ID;
        PDC_Server_dart_perform_one_server(&in, &out, &n, &ids);
        CHECK(out.n_items == (int64_t)n && !out.has_bulk == !n, "reply says %ld items, bulk %d; %lu were found", (long)out.n_items, (int)out.has_bulk, (unsigned long)n);
    }
    else metadata_index_search(qq, DART_HASH, &n, &ids);
    CHECK(!strcmp(q, qq), "the query was changed");
    static uint64_t e[100000];
    int ne = 0;
    char *v = strchr(q, '=') + 1; /* up to the first = is the key */
    char kq[600];
    memcpy(kq, q, v - 1 - q), kq[v - 1 - q] = 0;
    if (!strchr(v, '~'))
        for (int i = 0; i < nR; i++)
            if (word(R[i].k, kq) && word(R[i].v, v)) e[ne++] = R[i].id;
    qsort(e, ne, 8, cmp64);
    int m = 0;
    for (int i = 0; i < ne; i++) if (!i || e[i] != e[i - 1]) e[m++] = e[i];
    if (n) qsort(ids, n, 8, cmp64);
    for (uint64_t i = 0; i < n; i++) {
        int f = bsearch(&ids[i], e, m, 8, cmp64) != NULL;
        CHECK(f, "%s finds object %lu, which does not match", q, (unsigned long)ids[i]);
        CHECK(!i || ids[i] != ids[i - 1], "%s finds object %lu twice", q, (unsigned long)ids[i]);
    }
    for (int i = 0; i < m; i++) CHECK(n && bsearch(&e[i], ids, n, 8, cmp64), "%s does not find object %lu", q, (unsigned long)e[i]);
    if (n) free(ids);
    free(qq);
}
static void
reset(void)
{
    for (int i = 0; i < nR; i++) free(R[i].k), free(R[i].v);
    nR = 0;
    PDC_Server_dart_init();
}
static void
history(void)
{
    static const char *ABC[] = {"ab", "abc", "a~", "ab\xe9", "ab*", "0123456789abcdefghijklmnopqrstuvwxyz"};
    const char *abc = ABC[rnd(6)];
    int ml = rnd(3) ? 3 : 14, steps = 1 + rnd(rnd(3) ? 20 : 120), ids = 1 + rnd(5);
    int64_t words = 0;
    struct { char *k, *v; } W[12];
    int nW = 2 + rnd(11);
    uint64_t h = 0;
    reset();
    for (int i = 0; i < nW; i++) W[i].k = rw(ml, abc, rnd(12) ? 1 : 0), W[i].v = rw(ml, abc, rnd(12) ? 1 : 0);
    TR0();
    for (int s = 0; s < steps; s++) {
        int w = rnd(nW), op = rnd(8), u = rnd(nW);
        uint64_t id = rnd(20) ? 1 + rnd(ids) : rnd64();
        char *k = W[w].k, *v = W[u].v;
        h = nat_hash(k, strlen(k), h * 31 + op), h = nat_hash(v, strlen(v), h + id);
        if (op < 3 || op == 3) {
            char *kk = strdup(k), *vv = strdup(v);
            TR("%s %s=%s object %lu\n", op < 3 ? "insert" : "delete", k, v, (unsigned long)id);
            if (rnd(2)) {
                dart_perform_one_server_in_t in;
                dart_perform_one_server_out_t out;
                memset(&in, 0, sizeof in);
                in.op_type = op < 3 ? OP_INSERT : OP_DELETE, in.hash_algo = DART_HASH, in.attr_key = kk, in.attr_val = vv;
                in.obj_primary_ref = id + 1, in.obj_secondary_ref = id + 2, in.obj_server_ref = id + 3;
                switch (rnd(3)) {
                    case 0: in.obj_ref_type = REF_PRIMARY_ID, in.obj_primary_ref = id; break;
                    case 1: in.obj_ref_type = REF_SECONDARY_ID, in.obj_secondary_ref = id; break;
                    default: in.obj_ref_type = REF_SERVER_ID, in.obj_server_ref = id;
                }
                uint64_t n = 0, *b = NULL;
                PDC_Server_dart_perform_one_server(&in, &out, &n, &b);
                CHECK(out.has_bulk == 0, "bulk reply to an update");
            }
            else if (op < 3) metadata_index_create(kk, vv, id, DART_HASH);
            else metadata_index_delete(kk, vv, id, DART_HASH);
            words += op < 3 ? 1 : -1;
            CHECK(!strcmp(k, kk) && !strcmp(v, vv), "the attribute was changed");
            free(kk), free(vv);
#ifdef PDC_DART_SFX_TREE
            int lk = strlen(k), lv = strlen(v);
            for (int j = 0; j < (op < 3 ? lk : lk < 1 ? lk : 1); j++)
                for (int jj = 0; jj < lv; jj++) op < 3 ? radd(k + j, v + jj, id) : rdel(k + j, v + jj, id);
            if (op == 3 && lk == 0) for (int jj = 0; jj < lv; jj++) rdel("", v + jj, id);
#else
            op < 3 ? radd(k, v, id) : rdel(k, v, id);
#endif
            CHECK(indexed_word_count_g == words, "indexed word count %ld, expected %ld", (long)indexed_word_count_g, (long)words);
        }
        else {
            char *kp = pattern(k, abc), *vp = pattern(v, abc);
            search(kp, vp);
            free(kp), free(vp);
        }
    }
    search("*", "*");
    for (int i = 0; i < nW; i++) search(W[i].k, W[i].v), free(W[i].k), free(W[i].v);
    nat_note(h);
}
int
main(int argc, char **argv)
{
    nat_init(argc, argv);
    for (uint64_t n = 0; nat_time_left(1); n++) {
        nat_case();
        history();
        if (n < 3) SAMPLE("%.300s", nat_trace);
    }
    return nat_done();
}
