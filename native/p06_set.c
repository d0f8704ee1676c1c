#include "nat.h"
#include "nat_alloc.h"
#include "pdc_set.h"
#include "pdc_malloc.h"
#include "na_on.h"
#include SRC_C
#include "na_off.h"
/* Executable contract of the set, including union, intersection and to_array, against a bitmap model. */
typedef struct { int id; int freed; } cell;
static int hmode, nfree;
static unsigned int H(SetValue k) { unsigned id = ((cell *)k)->id; switch (hmode) { case 0: return 7; case 1: return id & 3; case 2: return id * 2654435761u; case 3: return 0xFFFFFFFFu - id; default: return id << 24; } }
static int EQ(SetValue a, SetValue b) { CHECK(!((cell *)a)->freed && !((cell *)b)->freed, "released value handed to the equality function"); return ((cell *)a)->id == ((cell *)b)->id ? 1 + (rnd(2) ? 0 : 4) : 0; }
static void FF(SetValue v) { CHECK(!((cell *)v)->freed, "value released twice"); ((cell *)v)->freed = 1; nfree++; }
#define MAXID 3000
typedef struct { Set *s; cell *m[MAXID]; int n, reg; } S;
static cell **all; static int na, ca;
static cell *mkcell(int id) { cell *c = calloc(1, sizeof *c); c->id = id; if (na == ca) all = realloc(all, sizeof *all * (ca = ca ? ca * 2 : 1024)); return all[na++] = c; }
static void
full(S *a)
{
    static unsigned char seen[MAXID]; int cnt = 0; SetIterator it;
    CHECK((int)set_num_entries(a->s) == a->n, "num_entries %u, expected %d", set_num_entries(a->s), a->n);
    memset(seen, 0, sizeof seen);
    set_iterate(a->s, &it);
    while (set_iter_has_more(&it)) { cell *v = set_iter_next(&it); CHECK(v, "iteration returned NULL"); CHECK(!seen[v->id], "%d visited twice", v->id); seen[v->id] = 1; cnt++; CHECK(a->m[v->id] == v, "iteration returned a wrong value for %d", v->id); }
    CHECK(cnt == a->n, "iteration visited %d of %d", cnt, a->n);
    CHECK(set_iter_next(&it) == NULL, "iter_next past the end");
    long l0 = na_live;
    SetValue *arr = set_to_array(a->s);
    memset(seen, 0, sizeof seen);
    for (int i = 0; i < a->n; i++) { cell *v = arr[i]; CHECK(!seen[v->id] && a->m[v->id] == v, "to_array element %d wrong", i); seen[v->id] = 1; }
    na_free(arr);
    CHECK(na_live == l0, "to_array leaks");
}
static void
op(S *a, int idr)
{
    int id = rnd(idr), f0 = nfree; cell q = {id, 0};
    switch (rnd(8)) {
        case 0: case 1: case 2: case 3: {
            cell *c = mkcell(id); int inj = rnd(16) == 0; if (inj) na_fail_after = rnd(2); na_failed = 0;
            TR("ins %d; ", id);
            int r = set_insert(a->s, c); na_fail_after = -1;
            CHECK(nfree == f0, "insert released a value");
            if (r) { CHECK(!a->m[id], "duplicate accepted"); a->m[id] = c; a->n++; } else CHECK(a->m[id] || na_failed, "insert refused");
            break;
        }
        case 4: case 5: {
            TR("rem %d; ", id);
            int r = set_remove(a->s, &q); CHECK(!!r == !!a->m[id], "remove returned %d", r);
            CHECK(nfree - f0 == (a->m[id] && a->reg), "remove released %d", nfree - f0);
            if (a->m[id]) { if (a->reg) CHECK(a->m[id]->freed, "removed value not released"); a->n--; } a->m[id] = NULL; break;
        }
        default: TR("query %d; ", id); CHECK(!!set_query(a->s, &q) == !!a->m[id], "query(%d) wrong", id);
    }
    CHECK((int)set_num_entries(a->s) == a->n, "num_entries");
}
static void mkset(S *a, int reg) { memset(a, 0, sizeof *a); a->s = set_new(H, EQ); CHECK(a->s, "new"); a->reg = reg; if (reg) set_register_free_function(a->s, FF); }
static S a, b, u;
int
main(int argc, char **argv)
{
    nat_init(argc, argv);
    for (int i = 0; i < 3; i++) { na_live = 0; na_fail_after = i; na_failed = 0; Set *x = set_new(H, EQ); na_fail_after = -1; CHECK((x == NULL) == (na_failed > 0), "new with failure %d", i); if (x) set_free(x); CHECK(na_live == 0, "new leaks"); }
    int k = 0;
    while (nat_time_left(1.0)) {
        int small = rnd(4) != 0, n = small ? 4 + rnd(60) : 400 + rnd(rnd(4) ? 1500 : 9000), ids = small ? 1 + rnd(14) : 20 + rnd(MAXID - 20), reg = rnd(2);
        hmode = rnd(5); if (!small && hmode < 2) ids = 20 + rnd(250);
        TR0(); nat_case(); na = 0; na_live = 0; nfree = 0;
        mkset(&a, reg); mkset(&b, reg);
        TR("A: "); for (int i = 0; i < n; i++) { op(&a, ids); if (rnd(n < 80 ? 10 : 300) == 0) full(&a); }
        int nb = rnd(3) ? n : rnd(5);
        TR("| B: "); for (int i = 0; i < nb; i++) op(&b, ids);
        full(&a); full(&b);
        for (int w = 0; w < 2; w++) {
            long l0 = na_live; int inj = rnd(4) == 0; na_failed = 0; if (inj) na_fail_after = rnd(10 + rnd(2) * a.n);
            TR("| %s%s ", w ? "intersection" : "union", inj ? " (allocation failure)" : "");
            int f0 = nfree;
            u.s = w ? set_intersection(a.s, b.s) : set_union(a.s, b.s);
            na_fail_after = -1;
            CHECK(nfree == f0, "set algebra released a value");
            if (!u.s) { CHECK(na_failed, "set algebra failed"); CHECK(na_live == l0, "failed set algebra leaks"); continue; }
            int cnt = 0;
            for (int id = 0; id < ids; id++) {
                cell q = {id, 0}; int want = w ? (a.m[id] && b.m[id]) : (a.m[id] || b.m[id]); cnt += want;
                CHECK(!!set_query(u.s, &q) == want, "%s: membership of %d", w ? "intersection" : "union", id);
            }
            CHECK((int)set_num_entries(u.s) == cnt, "%s: %u entries, expected %d", w ? "intersection" : "union", set_num_entries(u.s), cnt);
            SetIterator it; int c2 = 0; set_iterate(u.s, &it);
            while (set_iter_has_more(&it)) { cell *v = set_iter_next(&it); c2++; CHECK(a.m[v->id] == v || b.m[v->id] == v, "foreign element"); }
            CHECK(c2 == cnt, "iteration over the result");
            set_free(u.s);
            CHECK(nfree == f0, "freeing the result released a member");
            CHECK(na_live == l0, "set algebra leaks");
        }
        full(&a); full(&b);
        int f0 = nfree;
        set_free(a.s); CHECK(nfree - f0 == (reg ? a.n : 0), "free released %d of %d", nfree - f0, a.n);
        f0 = nfree; set_free(b.s); CHECK(nfree - f0 == (reg ? b.n : 0), "free released %d of %d", nfree - f0, b.n);
        CHECK(na_live == 0, "%ld allocations left", na_live);
        for (int i = 0; i < na; i++) free(all[i]);
        nat_note(nat_cases * 31 + n);
        if (k++ % 200 == 0) SAMPLE("%d+%d operations over %d ids, hash mode %d", n, nb, ids, hmode);
    }
    return nat_done();
}
