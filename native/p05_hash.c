#include "nat.h"
#include "nat_alloc.h"
#include <math.h>
#ifdef SERVER_COPY
#include "pdc_hash-table.h"
#else
#include "pdc_hash_table.h"
#include "pdc_malloc.h"
#endif
#include "na_on.h"
#include SRC_C
#include "na_off.h"
/* Executable contract of the hash table against an array model.  Keys are heap cells {id, serial}: equality by id, hash by id through one of
 * several hash functions (constant, few buckets, spread, top bits only). */
typedef struct { int id; int serial; int freed; int pad; } cell;
static int hmode;
static int nfree_k, nfree_v;
static unsigned int
H(HashTableKey k)
{
    unsigned id = ((cell *)k)->id;
    switch (hmode) { case 0: return 0; case 1: return id & 3; case 2: return id * 2654435761u; case 3: return 0xFFFFFFFFu - id; case 4: return id << 24; default: return id; }
}
static int EQ(HashTableKey a, HashTableKey b) { CHECK(!((cell *)a)->freed && !((cell *)b)->freed, "released key handed to the equality function"); return ((cell *)a)->id == ((cell *)b)->id ? 1 + (rnd(2) ? 0 : 6) : 0; }
static void FK(HashTableKey k) { CHECK(!((cell *)k)->freed, "key released twice"); ((cell *)k)->freed = 1; nfree_k++; }
static void FV(HashTableValue v) { CHECK(!((cell *)v)->freed, "value released twice"); ((cell *)v)->freed = 1; nfree_v++; }
#define MAXID 4096
static cell *mk[MAXID], *mv[MAXID]; static int mn, reg, idr;
static cell **all; static int na, ca; static int serial;
static cell *mkcell(int id) { cell *c = calloc(1, sizeof *c); c->id = id; c->serial = serial++; if (na == ca) all = realloc(all, sizeof *all * (ca = ca ? ca * 2 : 1024)); return all[na++] = c; }
static HashTable *t;
static void
full(void)
{
    HashTableIterator it; int seen = 0; static unsigned char s[MAXID]; memset(s, 0, sizeof s);
    CHECK((int)hash_table_num_entries(t) == mn, "num_entries %u, expected %d", hash_table_num_entries(t), mn);
    hash_table_iterate(t, &it);
    while (hash_table_iter_has_more(&it)) {
        HashTablePair p = hash_table_iter_next(&it);
        CHECK(p.key, "iteration returned a NULL key");
        int id = ((cell *)p.key)->id;
        CHECK(!s[id], "key %d visited twice", id); s[id] = 1; seen++;
        CHECK(mk[id] == (cell *)p.key && mv[id] == (cell *)p.value, "iteration returned the wrong pair for key %d", id);
    }
    CHECK(seen == mn, "iteration visited %d of %d entries", seen, mn);
    HashTablePair e = hash_table_iter_next(&it);
    CHECK(e.key == NULL && e.value == NULL, "iter_next past the end returned a pair");
    CHECK(!hash_table_iter_has_more(&it), "iterator revived at the end");
}
static void
op(void)
{
    int id = rnd(idr); cell q = {id, 0, 0, 0};
    int k = rnd(10), f0 = nfree_k, v0 = nfree_v;
    if (k < 4) {
        cell *kk = mkcell(id), *vv = mkcell(id);
        int inj = rnd(16) == 0; if (inj) na_fail_after = rnd(2);
        TR("ins %d%s; ", id, inj ? " (allocation may fail)" : "");
        na_failed = 0;
        int r = hash_table_insert(t, kk, vv);
        na_fail_after = -1;
        if (!r) { CHECK(na_failed, "insert refused without an allocation failure"); CHECK(nfree_k == f0 && nfree_v == v0, "a failed insert released something"); }
        else {
            CHECK(nfree_k - f0 == (mk[id] && (reg & 1)), "insert released %d keys", nfree_k - f0);
            CHECK(nfree_v - v0 == (mk[id] && (reg & 2)), "insert released %d values", nfree_v - v0);
            if (mk[id] && (reg & 1)) CHECK(mk[id]->freed, "insert did not release the replaced key");
            if (mk[id] && (reg & 2)) CHECK(mv[id]->freed, "insert did not release the replaced value");
            if (!mk[id]) mn++;
            mk[id] = kk; mv[id] = vv;
        }
    } else if (k < 7) {
        TR("rem %d; ", id);
        int r = hash_table_remove(t, &q);
        CHECK(!!r == !!mk[id], "remove(%d) returned %d", id, r);
        CHECK(nfree_k - f0 == (mk[id] && (reg & 1)) && nfree_v - v0 == (mk[id] && (reg & 2)), "remove released %d keys and %d values", nfree_k - f0, nfree_v - v0);
        if (mk[id]) { if (reg & 1) CHECK(mk[id]->freed, "removed key not released"); if (reg & 2) CHECK(mv[id]->freed, "removed value not released"); mn--; }
        mk[id] = mv[id] = NULL;
    } else {
        TR("get %d; ", id);
        cell *r = hash_table_lookup(t, &q);
        CHECK(r == mv[id], "lookup(%d) returned the wrong value", id);
    }
    CHECK((int)hash_table_num_entries(t) == mn, "num_entries %u, expected %d", hash_table_num_entries(t), mn);
}
static void
run(int n, int ids, int hm, int rg)
{
    TR0(); nat_case(); hmode = hm; reg = rg; idr = ids; na = 0; mn = 0; memset(mk, 0, sizeof mk); memset(mv, 0, sizeof mv); na_live = 0; nfree_k = nfree_v = 0;
    t = hash_table_new(H, EQ);
    CHECK(t, "new failed");
    if (rg) hash_table_register_free_functions(t, rg & 1 ? FK : NULL, rg & 2 ? FV : NULL);
    for (int i = 0; i < n; i++) {
        op();
        if (rnd(n < 60 ? 8 : 200) == 0) full();
        if (rnd(400) == 0 && mn) { /* removal of the returned element during iteration */
            TR("sweep; ");
            HashTableIterator it; hash_table_iterate(t, &it); int want = mn, got = 0;
            while (hash_table_iter_has_more(&it)) { HashTablePair p = hash_table_iter_next(&it); got++; int id = ((cell *)p.key)->id; cell q = {id}; if (rnd(2)) { CHECK(hash_table_remove(t, &q), "remove during iteration"); mk[id] = mv[id] = NULL; mn--; } }
            CHECK(got == want, "iteration with removals visited %d of %d", got, want);
        }
    }
    for (int id = 0; id < ids; id++) { cell q = {id}; CHECK(hash_table_lookup(t, &q) == (HashTableValue)mv[id], "final lookup(%d)", id); }
    full();
    int f0 = nfree_k, v0 = nfree_v;
    TR("free");
    hash_table_free(t);
    CHECK(nfree_k - f0 == (rg & 1 ? mn : 0) && nfree_v - v0 == (rg & 2 ? mn : 0), "free released %d keys and %d values of %d entries", nfree_k - f0, nfree_v - v0, mn);
    CHECK(na_live == 0, "%ld allocations left after free", na_live);
    for (int i = 0; i < na; i++) free(all[i]);
}
int
main(int argc, char **argv)
{
    nat_init(argc, argv);
    for (int i = 0; i < 3; i++) { /* allocation failure in new */
        na_live = 0; na_fail_after = i; na_failed = 0; HashTable *x = hash_table_new(H, EQ); na_fail_after = -1;
        CHECK((x == NULL) == (na_failed > 0), "new with allocation %d failing", i);
        if (x) hash_table_free(x);
        CHECK(na_live == 0, "new leaks when allocation %d fails", i);
    }
    int k = 0;
    while (nat_time_left(1.0)) {
        int small = rnd(4) != 0;
        int n = small ? 5 + rnd(60) : 500 + rnd(rnd(6) ? 2000 : 12000), ids = small ? 1 + rnd(12) : 20 + rnd(rnd(3) ? 900 : MAXID - 20), hm = rnd(6), rg = rnd(4);
        if (!small && (hm == 0 || hm == 1)) ids = 20 + rnd(300);
        run(n, ids, hm, rg);
        nat_note(nat_cases * 7 + n * 131 + ids * 17 + hm);
        if (k++ % 200 == 0) SAMPLE("%d operations over %d keys, hash mode %d, free functions %d", n, ids, hm, rg);
    }
    return nat_done();
}
