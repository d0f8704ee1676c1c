#include "nat.h"
#include "pdc_deque.h"
/* Executable contract of the deque: after every operation the abstract sequence read through the public API
 * (and, between operations, sizes) equals a plain array model. */
static void **mod; static size_t ms, mh; /* model: mod[mh .. mh+ms) in a big array */
#define MID (1u << 21)
static void mpush_b(void *v) { mod[mh + ms++] = v; }
static void mpush_f(void *v) { mod[--mh] = v; ms++; }
static void *mpop_f(void) { if (!ms) return NULL; ms--; return mod[mh++]; }
static void *mpop_b(void) { if (!ms) return NULL; return mod[mh + --ms]; }
static uintptr_t nextv = 1;
static PDC_deque_t d;
static void
op(int k)
{
    void *v = (void *)(nextv++), *a, *b;
    if (nextv % 97 == 0) v = NULL; /* NULL is a legal element */
    switch (k) {
        case 0: TR("B"); PDC_deque_push_back(&d, v); mpush_b(v); break;
        case 1: TR("F"); PDC_deque_push_front(&d, v); mpush_f(v); break;
        case 2: TR("b"); a = PDC_deque_pop_back(&d); b = mpop_b(); CHECK(a == b, "pop_back returned %p, expected %p", a, b); break;
        default: TR("f"); a = PDC_deque_pop_front(&d); b = mpop_f(); CHECK(a == b, "pop_front returned %p, expected %p", a, b);
    }
    CHECK(d.size == ms, "size %zu, expected %zu", d.size, ms);
}
static void begin(void) { TR0(); PDC_deque_init(&d); mh = MID; ms = 0; nat_case(); }
static void end(void)
{
    TR(" drain:");
    int side = rnd(3);
    while (ms) op(side == 2 ? 2 + rnd(2) : 2 + side);
    op(2); op(3);
    PDC_deque_free(&d);
}
int
main(int argc, char **argv)
{
    nat_init(argc, argv);
    mod = malloc(sizeof(void *) * MID * 2);
    /* exhaustive: every history of length <= 7 over the four operations, from every fill level 0..40 reached by each of 3 routes */
    for (int fill = 0; fill <= 40; fill += 1)
        for (int route = 0; route < 3; route++)
            for (int len = 1; len <= 3; len++)
                for (int code = 0; code < 1 << (2 * len); code++) {
                    begin();
                    for (int i = 0; i < fill; i++) op(route == 2 ? i & 1 : route);
                    TR(" | ");
                    for (int i = 0; i < len; i++) op((code >> (2 * i)) & 3);
                    nat_note(fill * 1000003ull + route * 7919 + len * 131 + code);
                    end();
                }
    /* rotation: keep the size near a boundary while the head walks all around, then cross it */
    for (int base = 1; base <= 70 && nat_time_left(0.5); base++)
        for (int rot = 0; rot < 40; rot++) {
            begin();
            for (int i = 0; i < base; i++) op(rnd(2));
            for (int i = 0; i < rot; i++) { if (rot & 1) { op(3); op(0); } else { op(2); op(1); } }
            for (int i = 0; i < 40; i++) op(rnd(2));
            nat_note(base * 65537ull + rot);
            end();
        }
    /* long random walks with drifting bias, reaching thousands of elements and back */
    while (nat_time_left(1.0)) {
        begin();
        uint64_t h = 0; int n = 200 + rnd(rnd(8) ? 600 : 60000), bias = 2;
        for (int i = 0; i < n; i++) {
            if (rnd(64) == 0) bias = rnd(5);
            int k = (rnd(4) < (uint64_t)bias) ? rnd(2) : 2 + rnd(2);
            op(k);
            h = h * 31 + k;
        }
        nat_note(h);
        if (nat_cases % 4001 == 0) SAMPLE("random walk of %d operations ending at size %zu capacity %zu", n, d.size, d.capacity);
        end();
    }
    SAMPLE("every fill 0..40 x 3 routes x all histories of length <= 3; rotations; %llu cases", (unsigned long long)nat_cases);
    return nat_done();
}
