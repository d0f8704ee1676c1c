/* Shared code of the native contract runs: seeded PRNG, op trace, failure report. */
#ifndef NAT_H
#define NAT_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
static uint64_t nat_s[2] = {1, 2};
static uint64_t nat_seed = 1;
static double   nat_budget = 10;
static uint64_t nat_cases, nat_distinct;
static struct timespec nat_t0;
static char  nat_trace[1 << 16];
static size_t nat_tl;
static int    nat_fd = 1;
static inline uint64_t
rnd64(void)
{
    uint64_t a = nat_s[0], b = nat_s[1];
    nat_s[0] = b;
    a ^= a << 23;
    nat_s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return nat_s[1] + b;
}
static inline uint64_t rnd(uint64_t n) { return n ? rnd64() % n : 0; }
static void
nat_reseed(uint64_t s)
{
    nat_s[0] = s * 0x9E3779B97F4A7C15ull + 1;
    nat_s[1] = (s ^ 0xD1B54A32D192ED03ull) * 0xBF58476D1CE4E5B9ull + 3;
    for (int i = 0; i < 8; i++) rnd64();
}
static double
nat_elapsed(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (t.tv_sec - nat_t0.tv_sec) + (t.tv_nsec - nat_t0.tv_nsec) * 1e-9;
}
static int nat_time_left(double frac) { return nat_elapsed() < nat_budget * frac; }
static void TR0(void) { nat_tl = 0; nat_trace[0] = 0; }
static void
TR(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    if (nat_tl > sizeof nat_trace - 600) { /* keep the tail */
        memmove(nat_trace, nat_trace + sizeof nat_trace / 2, nat_tl - sizeof nat_trace / 2);
        nat_tl -= sizeof nat_trace / 2;
    }
    int n = vsnprintf(nat_trace + nat_tl, 500, f, ap);
    va_end(ap);
    if (n > 499) n = 499;
    nat_tl += n;
}
static void
nat_dump(const char *what)
{
    size_t st = nat_tl > 4000 ? nat_tl - 4000 : 0;
    dprintf(nat_fd, "FAIL: %s\nseed %llu case %llu; operations of the failing case (tail):\n%s\n", what, (unsigned long long)nat_seed,
           (unsigned long long)nat_cases, nat_trace + st);
}
#define NFAIL(...)                                                                                                      \
    do {                                                                                                               \
        char b_[800];                                                                                                  \
        snprintf(b_, sizeof b_, __VA_ARGS__);                                                                          \
        fflush(stdout);                                                                                                \
        nat_dump(b_);                                                                                                  \
        _exit(1);                                                                                                      \
    } while (0)
#define CHECK(c, ...) do { if (!(c)) NFAIL(__VA_ARGS__); } while (0)
void __sanitizer_set_death_callback(void (*)(void));
static void nat_death(void) { nat_dump("memory error (AddressSanitizer)"); }
static void
nat_sig(int s)
{
    nat_dump(s == SIGALRM ? "operation does not terminate (45 s)" : s == SIGFPE ? "SIGFPE" : "fatal signal");
    _exit(1);
}
static void
nat_init(int argc, char **argv)
{
    for (int i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--seed")) nat_seed = strtoull(argv[i + 1], 0, 10);
        if (!strcmp(argv[i], "--time")) nat_budget = atof(argv[i + 1]);
    }
    clock_gettime(CLOCK_MONOTONIC, &nat_t0);
    nat_reseed(nat_seed);
    __sanitizer_set_death_callback(nat_death);
    signal(SIGALRM, nat_sig);
    signal(SIGFPE, nat_sig);
    signal(SIGABRT, nat_sig);
    alarm(45);
}
static void nat_case(void) { nat_cases++; alarm(45); }
static uint64_t *nat_hs; static uint64_t nat_hn, nat_hc;
static void
nat_note(uint64_t h) /* count distinct cases by hash */
{
    if (nat_hn > 4000000) return;
    if (nat_hn * 2 >= nat_hc) {
        uint64_t oc = nat_hc, *o = nat_hs;
        nat_hc = oc ? oc * 2 : 1 << 16;
        nat_hs = calloc(nat_hc, 8);
        for (uint64_t i = 0; i < oc; i++)
            if (o[i]) { uint64_t j = o[i] % nat_hc; while (nat_hs[j]) j = (j + 1) % nat_hc; nat_hs[j] = o[i]; }
        free(o);
    }
    h = h * 0x9E3779B97F4A7C15ull; h ^= h >> 29; if (!h) h = 1;
    uint64_t j = h % nat_hc;
    while (nat_hs[j]) { if (nat_hs[j] == h) return; j = (j + 1) % nat_hc; }
    nat_hs[j] = h; nat_hn++; nat_distinct++;
}
static uint64_t
nat_hash(const void *p, size_t n, uint64_t h)
{
    const unsigned char *c = p;
    h ^= 0xcbf29ce484222325ull;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
    return h;
}
#define SAMPLE(...) do { printf("SAMPLE " __VA_ARGS__); printf("\n"); } while (0)
static int
nat_done(void)
{
    printf("STATS {\"cases\": %llu, \"distinct\": %llu}\n", (unsigned long long)nat_cases, (unsigned long long)nat_distinct);
    fflush(stdout);
    return 0;
}
#endif
