#include "nat.h"
#include "nat_alloc.h"
#include "pdc_vector.h"
#include "pdc_stack.h"
#include "na_on.h"
#include SRC_C
#include SRC_C2
#include "na_off.h"
/* Executable contract of the vector and the stack. */
static void *m[1 << 17];
static void
vec(void)
{
    nat_case(); TR0();
    static const double fac[] = {2.0, 1.5, 1.1, 1.0, 0.5, 0.0, 3.7, 1.01, 10};
    size_t cap = rnd(3) ? rnd(6) : rnd(200), n = 0; double f = fac[rnd(9)];
    long l0 = na_live;
    uint64_t h = cap * 31 + (uint64_t)(f * 100);
    int fails = rnd(3) == 0;
    if (fails && rnd(4) == 0) na_fail_after = rnd(2);
    PDC_VECTOR *v = rnd(20) ? pdc_vector_create(cap, f) : pdc_vector_new();
    if (!v) { CHECK(na_failed, "create returned NULL without an allocation failure"); CHECK(na_live == l0, "failed create leaks"); na_failed = 0; na_fail_after = -1; return; }
    na_failed = 0; na_fail_after = -1;
    TR("create(%zu, %g) ", cap, f);
    CHECK(pdc_vector_size(v) == 0, "new vector not empty");
    int ops = rnd(60) ? rnd(120) : rnd(20000);
    for (int i = 0; i < ops; i++) {
        int k = rnd(10);
        if (k < 6) {
            void *x = rnd(30) ? na_malloc(1) : NULL;
            if (fails && rnd(5) == 0) na_fail_after = 0;
            TR("add%s ", x ? "" : "(NULL)");
            long fl = na_failed;
            pdc_vector_add(v, x);
            na_fail_after = -1;
            if (na_failed != fl) { CHECK(pdc_vector_size(v) == n, "size changed by a failed add"); na_free(x); }
            else if (x) m[n++] = x;
            h = h * 31 + 1;
        } else if (k == 6) {
            double g = fac[rnd(9)]; pdc_vector_set_expansion_factor(v, g); TR("factor %g ", g);
            CHECK(pdc_vector_get_expansion_factor(v) == g, "expansion factor not stored");
        } else if (k < 9) {
            size_t j = rnd(4) ? rnd(n + 3) : n; void *g = pdc_vector_get(v, j);
            CHECK(g == (j < n ? m[j] : NULL), "get(%zu) of %zu items wrong", j, n);
        } else if (n < 300 || rnd(50) == 0) {
            PDC_VECTOR_ITERATOR *it = pdc_vector_iterator_new(v);
            size_t j = 0;
            while (pdc_vector_iterator_has_next(it)) { CHECK(j < n, "iterator runs past the end"); CHECK(pdc_vector_iterator_next(it) == m[j], "iterator item %zu wrong", j); j++; if (rnd(200) == 0) break; }
            if (!pdc_vector_iterator_has_next(it)) { CHECK(j == n, "iterator stopped after %zu of %zu", j, n); CHECK(pdc_vector_iterator_next(it) == NULL, "next past the end"); }
            pdc_vector_iterator_destroy(it);
        }
        CHECK(pdc_vector_size(v) == n, "size %zu, expected %zu", pdc_vector_size(v), n);
    }
    for (size_t j = 0; j < n; j++) CHECK(pdc_vector_get(v, j) == m[j], "final item %zu wrong", j);
    TR("destroy");
    pdc_vector_destroy(v);
    CHECK(na_live == l0, "destroy leaves %ld blocks", na_live - l0);
    na_failed = 0;
    nat_note(h * 7 + n);
}
static void
stk(void)
{
    nat_case(); TR0();
    long l0 = na_live; PDC_stack_t s; size_t n = 0; uint64_t h = 5;
    stack_init(&s);
    int ops = rnd(30) ? rnd(300) : rnd(30000), bias = 4 + rnd(5);
    for (int i = 0; i < ops; i++) {
        if (rnd(10) < (uint64_t)bias || !n) { void *x = (void *)rnd64(); stack_push(&s, x); m[n++] = x; h = h * 3 + 1; }
        else { void *x = stack_pop(&s); CHECK(x == m[--n], "pop returned the wrong element at depth %zu", n); h = h * 3 + 2; }
        CHECK(s.size == n, "stack size %zu, expected %zu", s.size, n);
    }
    while (n) CHECK(stack_pop(&s) == m[--n], "drain: wrong element at depth %zu", n);
    stack_free(&s);
    CHECK(na_live == l0, "stack_free leaves %ld blocks", na_live - l0);
    nat_note(h);
}
int
main(int argc, char **argv)
{
    nat_init(argc, argv);
    CHECK(pdc_vector_size(NULL) == 0 && pdc_vector_get(NULL, 0) == NULL, "NULL vector");
    pdc_vector_add(NULL, NULL); pdc_vector_destroy(NULL); pdc_vector_iterator_destroy(NULL);
    CHECK(!pdc_vector_iterator_has_next(NULL) && !pdc_vector_iterator_next(NULL) && !pdc_vector_iterator_new(NULL), "NULL iterator");
    while (nat_time_left(1.0)) { vec(); stk(); if (nat_cases == 2000) SAMPLE("%.200s", nat_trace); }
    return nat_done();
}
