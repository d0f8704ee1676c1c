#include "nat.h"
#include <math.h>
#include "thpool.h"
#define thpool_init(n) NULL
#include SRC_C
#undef thpool_init
#ifndef PDC_DART_SFX_TREE
#error "expected the default suffix tree mode"
#endif
/* Executable contract of DART routing: an index record written by an insert is reached by the searches and deletes of its key. */
static int64_t load[200]; static int nserv; static int badid;
static dart_server cb(uint32_t id) { dart_server s = {0}; if (id >= (uint32_t)nserv) badid = 1; else s.indexed_word_count = load[id]; s.id = id; return s; }
static DART D;
static uint64_t V; static int A, H, S, RF;
static uint64_t sid(uint64_t v) { uint64_t per = V / S, s = v / per; return s < (uint64_t)S ? s : S - 1; }
static uint64_t
base(const char *w)
{
    uint64_t r = 0, d = 0; size_t n = strlen(w);
    for (int i = 0; i < H; i++) { if ((size_t)i < n) d = (unsigned char)w[i] % A; r = r * A + d; }
    return r;
}
static int has(index_hash_result_t *o, int n, uint64_t s) { for (int i = 0; i < n; i++) if (o[i].server_id == s) return 1; return 0; }
static char *
word(void)
{
    int n = rnd(4) ? rnd(6) : rnd(12), m = rnd(4);
    char *s = malloc(n + 1);
    for (int i = 0; i < n; i++) s[i] = m == 0 ? 'a' + rnd(26) : m == 1 ? 1 + rnd(255) : m == 2 ? 'i' + rnd(4) : "kP5\x1a~z_"[rnd(7)];
    s[n] = 0;
    return s;
}
static int known;
static void
ids(index_hash_result_t *o, int n, const char *what) { for (int i = 0; i < n; i++) CHECK(o[i].server_id < (uint32_t)S, "%s: server %u of %d", what, o[i].server_id, S); }
static void
drop(index_hash_result_t *o, int n) { char *last = NULL; for (int i = 0; i < n; i++) if (o[i].key != last) { last = o[i].key; free(last); } free(o); }
/* is some server holding the record (hold, nh) contacted? */
static void
search(char *tok, dart_op_type_t op, uint64_t *hold, int nh, int atbase, const char *w)
{
    index_hash_result_t *o = NULL;
    int n = DART_hash(&D, tok, op, rnd(2) ? cb : NULL, &o), hit = 0;
    CHECK(n >= 1 && n <= 2 * RF + S, "%s search returned %d servers", w, n);
    ids(o, n, "search");
    for (int i = 0; i < n; i++) { CHECK(!strcmp(o[i].key, tok), "search key"); for (int j = 0; j < i; j++) CHECK(o[i].server_id != o[j].server_id, "search lists a server twice"); }
    for (int i = 0; i < nh; i++) if (has(o, n, hold[i])) hit = 1;
    if (!hit && !atbase && (op == OP_PREFIX_QUERY || op == OP_INFIX_QUERY)) known = 1;
    else CHECK(hit, "operation %d on \"%s\" contacts no server holding \"%s\"", op, tok, w);
    drop(o, n);
}
int
main(int argc, char **argv)
{
    nat_init(argc, argv);
    while (nat_time_left(1.0)) {
        nat_case();
        memset(&D, rnd(2) ? 0xA5 : 0, sizeof D);
        int x = rnd(5);
        A = rnd(3) ? (x == 0 ? 27 : x == 1 ? 128 : x == 2 ? 29 : 37) : 2 + rnd(60); S = nserv = 1 + (rnd(4) ? rnd(40) : rnd(150)); RF = 1 + rnd(5);
        int ex = rnd(3) == 0;
        dart_space_init(&D, 1 + rnd(9), S, A, ex, RF);
        V = D.num_vnode; H = D.dart_tree_height;
        double h0 = ceil(log((double)S) / log((double)A) - 1e-9);
        TR0(); TR("alphabet %d servers %d replication %d extra height %d\n", A, S, RF, ex);
        CHECK(H >= (int)h0 + 1 + ex && H <= (int)h0 + 2 + ex, "tree height %d", H);
        CHECK(D.alphabet_size == A && D.num_server == (uint32_t)S && D.replication_factor == RF, "parameters stored");
        uint64_t p = 1; for (int i = 0; i < H; i++) p *= A;
        CHECK(V == p && V >= (uint64_t)S, "num_vnode %lu, expected %lu", V, p);
        if (V > (1u << 30)) continue;
        if (rnd(10) == 0) D.client_request_count = rnd(2) ? 0x7fffffff - rnd(2) : -(int)rnd(9);
        for (int q = 0; q < 20; q++) { uint64_t v = rnd(2) ? rnd(V) : V - 1 - rnd(3) % V; CHECK(get_server_id_by_vnode_id(&D, v) == sid(v), "virtual node %lu is on server %lu, expected %lu", v, get_server_id_by_vnode_id(&D, v), sid(v)); }
        for (int q = 0; q < 12; q++) {
            char *w = word(); int L = strlen(w), n;
            for (int i = 0; i < S; i++) load[i] = rnd(3);
            TR("word \"%s\"\n", w);
            index_hash_result_t *o = NULL, *dl = NULL, *al = NULL;
            n = DART_hash(&D, w, OP_INSERT, cb, &o);
            CHECK(!badid, "the load of a server that does not exist was asked");
            CHECK(n == L * RF, "insert of %d suffixes on %d replicas returned %d records", L, RF, n);
            ids(o, n, "insert");
            int nd = DART_hash(&D, w, OP_DELETE, rnd(2) ? cb : NULL, &dl), na = DART_hash(&D, w, OP_INSERT, NULL, &al);
            ids(dl, nd, "delete");
            CHECK(na == n && nd == 2 * n, "delete returned %d records", nd);
            for (int i = 0; i < L; i++) {
                uint64_t hold[8], bs[8]; char *t = w + i; int onb = 1, ona = 1;
                CHECK(get_base_virtual_node_id_by_string(&D, t) == base(t), "base node of \"%s\" is %lu, expected %lu", t, get_base_virtual_node_id_by_string(&D, t), base(t));
                for (int r = 0; r < RF; r++) {
                    CHECK(!strcmp(o[i * RF + r].key, t), "record %d is for \"%s\", expected \"%s\"", i * RF + r, o[i * RF + r].key, t);
                    hold[r] = o[i * RF + r].server_id; bs[r] = sid((base(t) + r * (V / A)) % V);
                    onb &= hold[r] == bs[r]; ona &= hold[r] == al[i * RF + r].server_id;
                }
                CHECK(onb || ona, "record of \"%s\" is neither at its base nor at its alternative", t);
                if (!(onb && ona) && bs[0] != al[i * RF].server_id) CHECK(onb == (load[bs[0]] <= load[al[i * RF].server_id]), "\"%s\" placed on the more loaded of servers %lu and %u", t, bs[0], al[i * RF].server_id);
                for (int r = 0; r < RF; r++) {
                    int ok = 0;
                    for (int j = 0; j < nd; j++) ok |= dl[j].server_id == hold[r] && !strcmp(dl[j].key, t);
                    CHECK(ok, "delete of \"%s\" does not contact server %lu, which holds it", t, hold[r]);
                }
                for (int r = 0; r < RF + 1 && r < 3; r++) { search(t, OP_EXACT_QUERY, hold, RF, onb, t); search(t, OP_SUFFIX_QUERY, hold, RF, onb, t); }
                for (int l = 0; l <= L - i && l < 5; l++) { char *pf = strndup(t, l); search(pf, OP_INFIX_QUERY, hold, RF, onb, t); if (i == 0) search(pf, OP_PREFIX_QUERY, hold, RF, onb, t); free(pf); }
            }
            drop(al, na); drop(o, n); drop(dl, nd);
            /* the flat hash */
            for (int len = 1; len <= L; len += L > 1 ? L - 1 : 1) {
                index_hash_result_t *i1 = NULL, *e1 = NULL, *x1 = NULL;
                int a = DHT_hash(&D, len, w, OP_INSERT, &i1), b = DHT_hash(&D, len, w, OP_EXACT_QUERY, &e1), c = DHT_hash(&D, len, w, OP_DELETE, &x1);
                CHECK(a == 1 && b == 1 && c == 1 && i1->server_id < (uint32_t)S && i1->server_id == e1->server_id && i1->server_id == x1->server_id && i1->key == w, "flat hash: insert, search and delete disagree");
                free(i1); free(e1); free(x1);
                a = DHT_hash(&D, len, w, OP_INFIX_QUERY, &i1);
                CHECK(a == S, "flat hash infix search"); for (int i = 0; i < S; i++) CHECK(i1[i].server_id == (uint32_t)i && i1[i].key == w, "flat hash infix search"); free(i1);
                if (len > 1) for (int op = OP_PREFIX_QUERY; op <= OP_SUFFIX_QUERY; op++) { a = DHT_hash(&D, len, w, op, &i1); CHECK(a == S, "flat hash affix search"); for (int i = 0; i < S; i++) CHECK(i1[i].server_id == (uint32_t)i, "flat hash affix search"); free(i1); }
            }
            nat_note(nat_hash(w, L, A * 1000 + S * 31 + RF));
            static int shown; if (nat_cases > 20 && shown++ < 3) SAMPLE("%.300s", nat_trace);
            free(w);
        }
    }
    if (known) printf("KNOWN a prefix or infix search does not contact the server of a key that its insert placed at the alternative node (get_server_ids_for_query)\n");
    return nat_done();
}
