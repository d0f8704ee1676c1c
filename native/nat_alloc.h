/* Allocation accounting and failure injection for code included after this header. */
#ifndef NAT_ALLOC_H
#define NAT_ALLOC_H
static long na_live, na_fail_after = -1, na_failed;
static int na_die(void) { if (na_fail_after < 0) return 0; if (na_fail_after-- == 0) { na_fail_after = -1; na_failed++; return 1; } return 0; }
static void *na_malloc(size_t n) { if (na_die()) return NULL; void *p = malloc(n); na_live++; if (p) memset(p, 0xA5, n); return p; }
static void *na_calloc(size_t a, size_t b) { if (na_die()) return NULL; na_live++; return calloc(a, b); }
static void *na_realloc(void *p, size_t n) { if (na_die()) return NULL; if (!p) na_live++; return realloc(p, n); }
static void na_free(void *p) { if (p) na_live--; free(p); }
static char *na_strdup(const char *s) { if (na_die()) return NULL; na_live++; return strdup(s); }
static void *na_pm(size_t n) { return na_malloc(n); }
static void *na_pc(size_t a, size_t b) { return na_calloc(a, b); }
#endif
