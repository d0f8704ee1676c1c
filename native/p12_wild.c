/* native contract run for P12: wildcard matching and tag lists against reference models */
#define _GNU_SOURCE
#include "nat.h"
#include "query_utils.h"
#include "string_utils.h"
static char *
rs(int maxlen, const char *abc)
{
    int n = rnd(maxlen + 1), m = strlen(abc);
    char *s = malloc(n + 1); /* exact size: overreads are caught */
    for (int i = 0; i < n; i++) s[i] = abc[rnd(m)];
    s[n] = 0;
    return s;
}
static int
ref_contains(const char *s, int ls, const char *t, int lt)
{
    for (int p = 0; p + lt <= ls; p++)
        if (!memcmp(s + p, t, lt)) return 1;
    return 0;
}
static int
ref_match(const char *s, const char *p)
{
    if (!s || !p) return 0;
    int ls = strlen(s), lp = strlen(p);
    int lead = lp >= 2 && p[0] == '*', trail = lp >= 1 && p[lp - 1] == '*';
    const char *t = p + lead;
    int lt = lp - lead - trail;
    if (lead && trail) return ref_contains(s, ls, t, lt);
    if (lead) return ls >= lt && !memcmp(s + ls - lt, t, lt);
    if (trail) return ls >= lt && !memcmp(s, t, lt);
    return ls == lt && !memcmp(s, t, lt);
}
static char *
ref_kv(const char *list, const char *kp, const char *vp, char *val)
{
    static char tok[512];
    if (!list || !kp) return NULL;
    for (const char *q = list; *q;) {
        int n = 0;
        while (q[n] && q[n] != ',') n++;
        memcpy(tok, q, n), tok[n] = 0;
        q += n + (q[n] == ',');
        char *e = strchr(tok, '=');
        if (!n || !e) continue;
        *e = 0;
        int ok = ref_match(tok, kp) && (!vp || ref_match(e + 1, vp));
        strcpy(val, e + 1);
        *e = '=';
        if (ok) return tok;
    }
    return NULL;
}
static void
t_match(void)
{
    const char *abc = rnd(3) ? "ab*" : "a*\x80\xff=,";
    char *s = rs(rnd(4) ? 8 : 200, abc), *p = rs(rnd(4) ? 6 : 30, abc);
    if (!rnd(4)) { /* derive the pattern from the string */
        int n = strlen(s), a = rnd(n + 1), b = a + rnd(n - a + 1);
        free(p);
        p = malloc(n + 3);
        int k = 0;
        if (rnd(2)) p[k++] = '*'; else a = 0;
        memcpy(p + k, s + a, b - a), k += b - a;
        if (rnd(2)) p[k++] = '*';
        p[k] = 0;
    }
    TR0(), TR("match string \"%s\" pattern \"%s\"\n", s, p);
    int ls = strlen(s), lp = strlen(p);
    char *s0 = strdup(s), *p0 = strdup(p);
    int r = simple_matches(s, p), e = ref_match(s, p);
    CHECK(!!r == e, "simple_matches returned %d, expected %d", r, e);
    CHECK(!!startsWith(s, p) == (ls >= lp && !memcmp(s, p, lp)), "startsWith");
    CHECK(!!endsWith(s, p) == (ls >= lp && !memcmp(s + ls - lp, p, lp)), "endsWith");
    CHECK(!!contains(s, p) == ref_contains(s, ls, p, lp), "contains");
    CHECK(!!equals(s, p) == !strcmp(s, p), "equals");
    CHECK(!simple_matches(NULL, p) && !simple_matches(s, NULL), "matches without string");
    int a = (int)rnd(ls + 4) - 1, b = (int)rnd(ls + 4) - 1;
    TR("substring %d..%d\n", a, b);
    char *t = substring(s, a, b);
    if (a < 0 || b < a || a > ls) CHECK(t == NULL, "substring of an invalid range is not NULL");
    else {
        int n = (b < ls ? b : ls) - a;
        CHECK(t && (int)strlen(t) == n && !memcmp(t, s + a, n), "substring");
    }
    free(t);
    t = reverse_str(s);
    for (int i = 0; i < ls; i++) CHECK(t[i] == s[ls - 1 - i], "reverse_str");
    CHECK(t[ls] == 0, "reverse_str end");
    free(t);
    char d = abc[rnd(strlen(abc))];
    char *x = strchr(s, d);
    CHECK(indexOf(s, d) == (x ? x - s : -1), "indexOf");
    char *k = get_key(s, d), *v = get_value(s, d);
    if (!x) CHECK(!k && !v, "get_key/get_value without delimiter");
    else {
        CHECK(k && strlen(k) == (size_t)(x - s) && !memcmp(k, s, x - s), "get_key");
        CHECK(v && !strcmp(v, x + 1), "get_value");
    }
    free(k), free(v);
    x = strstr(s, p);
    CHECK(indexOfStr(s, p) == (x ? x - s : -1), "indexOfStr");
    CHECK(!strcmp(s, s0) && !strcmp(p, p0), "an argument was changed");
    nat_note(nat_hash(s, ls, nat_hash(p, lp, 1)));
    free(s), free(p), free(s0), free(p0);
}
static void
t_list(void)
{
    char *l = rs(rnd(3) ? 20 : 100, rnd(2) ? "ab=,=,12" : "ab=,"), *kp = rs(4, "ab*"), *vp = rnd(3) ? rs(4, "ab12*=") : NULL;
    TR0(), TR("list \"%s\" key pattern \"%s\" value pattern %s%s%s\n", l, kp, vp ? "\"" : "", vp ? vp : "none", vp ? "\"" : "");
    char val[512], val2[512], *l0 = strdup(l);
    char *e = ref_kv(l, kp, vp, val);
    char *r = k_v_matches_p(l, kp, vp);
    CHECK(!r == !e, "k_v_matches_p returned %s, expected %s", r ? r : "nothing", e ? e : "nothing");
    if (r) CHECK(!strcmp(r, e), "k_v_matches_p returned %s, expected %s", r, e);
    CHECK(!!has_tag(l, kp) == !!ref_kv(l, kp, NULL, val2) && !!has_tag_p(l, kp) == !!has_tag(l, kp), "has_tag");
    if (vp) CHECK(!!is_value_match(l, kp, vp) == !!e && !!is_value_match_p(l, kp, vp) == !!e, "is_value_match");
    int lo = (int)rnd(40) - 5, hi = lo + rnd(30), in = 0;
    if (ref_kv(l, kp, NULL, val2)) in = atoi(val2) >= lo && atoi(val2) <= hi;
    TR("range %d..%d\n", lo, hi);
    CHECK(!!is_value_in_range(l, kp, lo, hi) == in, "is_value_in_range, expected %d", in);
    CHECK(!strcmp(l, l0), "the list was changed");
    CHECK(!k_v_matches_p(NULL, kp, vp) && !k_v_matches_p(l, NULL, vp), "k_v_matches_p without list or pattern");
    nat_note(nat_hash(l, strlen(l), nat_hash(kp, strlen(kp), 2)));
    free(l), free(l0), free(kp), free(vp);
}
static void
t_split(void)
{
    static const char *D[] = {",", "ab", "=", "a", "xyz"};
    char *s = rs(rnd(3) ? 10 : 60, rnd(2) ? "ab," : "ab,=xyz");
    const char *d = D[rnd(5)];
    if (!rnd(8)) d = "a*";
    TR0(), TR("split \"%s\" by \"%s\"\n", s, d);
    char **out = NULL;
    int n = 0, r = split_string(s, d, &out, &n);
    CHECK(r == n && n >= 1, "split_string returned %d, count %d", r, n);
    if (strcmp(d, "a*")) {
        const char *q = s;
        int i = 0;
        for (;;) {
            const char *e = strstr(q, d);
            size_t m = e ? (size_t)(e - q) : strlen(q);
            CHECK(i < n && strlen(out[i]) == m && !memcmp(out[i], q, m), "piece %d", i);
            i++;
            if (!e) break;
            q = e + strlen(d);
        }
        CHECK(i == n, "%d pieces, expected %d", n, i);
    }
    for (int i = 0; i < n; i++) free(out[i]);
    free(out);
    nat_note(nat_hash(s, strlen(s), 3));
    free(s);
}
static void
affix(const char *t, int kind, size_t al, char *out)
{
    size_t n = strlen(t), l = al < n ? al : n;
    if (kind == 0) strcpy(out, t);
    else if (kind == 1) sprintf(out, "%.*s*", (int)l, t);
    else if (kind == 2) sprintf(out, "*%s", t + n - l);
    else sprintf(out, "*%s*", t + n - l);
}
static void
t_gen(void)
{
    pdc_kvtag_t tag;
    memset(&tag, 0, sizeof tag);
    char *name, *sv = NULL;
    do name = rs(12, "abcd"); while (strlen(name) < 3 && (free(name), 1));
    int iv = (int)rnd64();
    query_gen_input_t in = {.base_tag = &tag, .key_query_type = rnd(4), .affix_len = rnd(8)};
    query_gen_output_t out = {0};
    tag.name = name;
    if (rnd(2)) {
        do sv = rs(12, "wxyz"); while (strlen(sv) < 3 && (free(sv), 1));
        tag.type = PDC_STRING, tag.value = sv, tag.size = strlen(sv) + 1, in.value_query_type = rnd(4);
    }
    else
        tag.type = PDC_INT, tag.value = &iv, tag.size = 4, in.value_query_type = 4 + rnd(2), in.range_lo = (int)rnd64(), in.range_hi = (int)rnd64();
    TR0(), TR("generate name %s type %d key query %d value query %d affix %d\n", name, tag.type, in.key_query_type, in.value_query_type, in.affix_len);
    gen_query_key_value(&in, &out);
    char k[64], v[64], q[256];
    affix(name, in.key_query_type, in.affix_len, k);
    if (sv) affix(sv, in.value_query_type, in.affix_len, v);
    else if (in.value_query_type == 4) sprintf(v, "%d", iv);
    else sprintf(v, "%d~%d", in.range_lo, in.range_hi);
    CHECK(out.key_query && !strcmp(out.key_query, k) && out.key_query_len == strlen(k), "key query %s, expected %s", out.key_query, k);
    CHECK(out.value_query && !strcmp(out.value_query, v) && out.value_query_len == strlen(v), "value query %s, expected %s", out.value_query, v);
    char *s = gen_query_str(&out);
    sprintf(q, "%s=%s", k, v);
    CHECK(!strcmp(s, q), "query %s, expected %s", s, q);
    /* the generated query matches the tag it was generated from */
    CHECK(simple_matches(name, out.key_query), "the key query does not match the key");
    if (sv) CHECK(simple_matches(sv, out.value_query), "the value query does not match the value");
    free(s), free_query_output(&out);
    nat_note(nat_hash(q, strlen(q), 4));
    free(name), free(sv);
}
int
main(int argc, char **argv)
{
    nat_init(argc, argv);
    static const char *P[] = {"", "*", "**", "***", "a", "a*", "*a", "*a*", "ab", "b*a"};
    for (int i = 0; i < 10; i++)
        for (int j = 0; j < 10; j++) {
            nat_case(), TR0(), TR("match \"%s\" \"%s\"\n", P[i], P[j]);
            CHECK(!!simple_matches(P[i], P[j]) == ref_match(P[i], P[j]), "simple_matches, expected %d", ref_match(P[i], P[j]));
        }
    for (uint64_t n = 0; (n & 63) || nat_time_left(1); n++) {
        nat_case();
        switch (rnd(8)) {
            case 0: case 1: case 2: t_match(); break;
            case 3: case 4: t_list(); break;
            case 5: t_split(); break;
            default: t_gen();
        }
        if (n < 3) SAMPLE("%s", nat_trace);
    }
    return nat_done();
}
