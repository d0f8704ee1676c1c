/* native contract run for P16: handles, through the functions of the handle table, against a model */
#include "nat.h"
#include "pdc_cont_pkg.h"
#include "pdc_cont.h"
#include SRC_I
#define N 200
static struct rec { pdcid_t id; int kind, refs, alive; void *obj; } m[N];
static int n, released[N], callbacks, fail_next;
static pdcid_t gone[N * 4];
static int ngone;
static struct _pdc_cont_info cont[N];
static struct pdc_cont_info pub[N];
static char objs[N];
static void *obj_of(int i, int kind) { return kind == PDC_CONT ? (void *)&cont[i] : (void *)&objs[i]; }
static perr_t let_go(int kind, void *o)
{
    int i = kind == PDC_CONT ? (int)((struct _pdc_cont_info *)o - cont) : (int)((char *)o - objs);
    CHECK(i >= 0 && i < n && m[i].kind == kind, "release function of kind %d called with the object of another", kind);
    callbacks++;
    if (fail_next) return FAIL;
    released[i]++;
    CHECK(released[i] == 1, "object %d released %d times", i, released[i]);
    return SUCCEED;
}
static perr_t rel1(void *o) { return let_go(1, o); }
static perr_t rel4(void *o) { return let_go(4, o); }
static perr_t rel5(void *o) { return let_go(5, o); }
static perr_t rel6(void *o) { return let_go(6, o); }
static const PDC_free_t rel[8] = {0, rel1, 0, 0, rel4, rel5, rel6, 0};
static int reg[8];
static void table(void)
{
    int cnt[8] = {0};
    for (int i = 0; i < n; i++) {
        struct _pdc_id_info *p = PDC_find_id(m[i].id);
        if (m[i].alive) {
            cnt[m[i].kind]++;
            CHECK(p && p->id == m[i].id && p->obj_ptr == m[i].obj, "handle %lx lost its object", (unsigned long)m[i].id);
            CHECK(hg_atomic_get32(&p->count) == m[i].refs, "handle %lx has %d references, expected %d", (unsigned long)m[i].id, hg_atomic_get32(&p->count), m[i].refs);
        }
        else {
            CHECK(!p, "handle %lx is found after its last release", (unsigned long)m[i].id);
            CHECK(released[i] == (rel[m[i].kind] != NULL), "object %d of a released handle released %d times", i, released[i]);
        }
    }
    for (int k = 1; k < 8; k++)
        if (reg[k]) CHECK(PDC_id_list_null(k) == cnt[k], "kind %d counts %d handles, expected %d", k, PDC_id_list_null(k), cnt[k]);
}
static void history(void)
{
    nat_case();
    TR0();
    uint64_t h = 1;
    pdc_id_list_g = calloc(1, sizeof *pdc_id_list_g);
    n = callbacks = fail_next = 0;
    memset(released, 0, sizeof released), memset(reg, 0, sizeof reg);
    for (int k = 1; k < 8; k++)
        if (rnd(8)) {
            CHECK(PDC_register_type(k, rel[k]) == SUCCEED, "register kind");
            reg[k] = 1;
        }
    for (int s = 5 + rnd(60); s--;) {
        int op = rnd(12), k = 1 + rnd(7);
        if (!rnd(3)) k = PDC_CONT;
        h = nat_hash(&op, 4, h + k);
        if (op < 5 && n < N) {
            void *o = obj_of(n, k);
            static const char *nm[] = {"a", "b", "ab", "", "abc", "B"};
            pub[n].name = (char *)nm[rnd(6)], cont[n].cont_info_pub = &pub[n];
            pdcid_t id = PDC_id_register(k, o);
            TR("register kind %d -> %lx\n", k, (unsigned long)id);
            if (!reg[k]) { CHECK(id == 0, "a handle of a kind that is not registered"); continue; }
            CHECK(id && PDC_TYPE(id) == (PDC_type_t)k, "handle %lx is not of kind %d", (unsigned long)id, k);
            for (int i = 0; i < n; i++) CHECK(m[i].id != id, "handle %lx given out twice", (unsigned long)id);
            m[n].id = id, m[n].kind = k, m[n].refs = 1, m[n].alive = 1, m[n].obj = o;
            n++;
        }
        else if (op == 5) {
            pdcid_t id = ((pdcid_t)rnd(9) << 55) + rnd(300);
            int i;
            for (i = 0; i < n && !(m[i].alive && m[i].id == id); i++);
            TR("find %lx\n", (unsigned long)id);
            CHECK((PDC_find_id(id) != NULL) == (i < n), "handle %lx", (unsigned long)id);
        }
        else if (op == 6 && reg[PDC_CONT]) {
            static const char *nm[] = {"a", "b", "ab", "", "abc", "c"};
            const char *w = nm[rnd(6)];
            pdcid_t want = 0;
            for (int i = 0; i < n; i++)
                if (m[i].alive && m[i].kind == PDC_CONT && !strcmp(pub[i].name, w)) want = m[i].id;
            TR("by name '%s'\n", w);
            CHECK(PDC_find_byname(rnd(2) ? PDC_BADID : PDC_next_type, w) == 0 && PDC_id_register(PDC_BADID, obj_of(0, PDC_CONT)) == 0 &&
                      PDC_id_register(PDC_next_type, obj_of(0, PDC_CONT)) == 0, "a handle of a kind that does not exist");
            CHECK(PDC_find_byname(PDC_CONT, w) == want, "by name '%s': %lx, expected %lx", w, (unsigned long)PDC_find_byname(PDC_CONT, w), (unsigned long)want);
        }
        else if (op == 7 && !rnd(4) && reg[k]) {
            TR("clear kind %d\n", k);
            CHECK(PDC_id_list_clear(k) == SUCCEED, "clear");
            for (int i = 0; i < n; i++) if (m[i].kind == k && m[i].alive) {
                m[i].alive = 0;
                if (rel[k]) CHECK(released[i] == 1, "clearing kind %d left object %d", k, i);
            }
        }
        else if (op == 8 && !rnd(3)) {
            TR("register kind %d again\n", k);
            if (reg[k]) CHECK(PDC_register_type(k, NULL) == SUCCEED, "register again");
        }
        else if (n) {
            int i = rnd(n), c0 = callbacks;
            if (op == 9) {
                TR("inc %lx\n", (unsigned long)m[i].id);
                int r = PDC_inc_ref(m[i].id);
                if (m[i].alive) { m[i].refs++; CHECK(r == m[i].refs, "inc says %d", r); }
                CHECK(c0 == callbacks, "a release function called by inc");
            }
            else {
                fail_next = !rnd(12) && m[i].alive && m[i].refs == 1 && rel[m[i].kind];
                TR("dec %lx%s\n", (unsigned long)m[i].id, fail_next ? " (release fails)" : "");
                int r = PDC_dec_ref(m[i].id);
                if (!m[i].alive) CHECK(r < 0 && c0 == callbacks, "dec of a released handle says %d", r);
                else if (fail_next) {
                    CHECK(r < 0 && callbacks == c0 + 1 && PDC_find_id(m[i].id), "a failed release");
                    hg_atomic_init32(&PDC_find_id(m[i].id)->count, 1);
                }
                else if (--m[i].refs) CHECK(r == m[i].refs && c0 == callbacks, "dec says %d, %d references are left", r, m[i].refs);
                else {
                    CHECK(r == 0 && callbacks == c0 + (rel[m[i].kind] != NULL), "last release says %d after %d calls", r, callbacks - c0);
                    m[i].alive = 0;
                }
                fail_next = 0;
            }
        }
        table();
    }
    for (int k = 1; k < 8; k++)
        if (reg[k]) {
            TR("clear kind %d\n", k);
            PDC_id_list_clear(k);
            for (int i = 0; i < n; i++) if (m[i].kind == k) m[i].alive = 0;
        }
    table();
    for (int k = 1; k < 8; k++) if (reg[k]) PDC_destroy_type(k);
    free(pdc_id_list_g);
    nat_note(h);
}
int main(int argc, char **argv)
{
    nat_init(argc, argv);
    for (uint64_t n = 0; nat_time_left(1); n++) {
        history();
        if (n < 3) SAMPLE("%.300s", nat_trace);
    }
    return nat_done();
}
