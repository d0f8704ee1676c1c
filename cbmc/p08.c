#include <stdlib.h>
#include <string.h>
/* allocation: a fresh zeroed object of the requested type (statically allocated, which cbmc resolves best) */
#define free(p) vf_free(p)
/* memcpy/memmove within nodes: element by element for pointers, byte by byte otherwise (same effect, cheaper for cbmc than
   its own model of a move of symbolic size) */
static void vf_move(void *d, const void *s, size_t n, size_t width);
#ifndef REALMEM
#define memmove(d, s, n) vf_move(d, s, n, sizeof(*(d)))
#define memcpy(d, s, n) vf_move(d, s, n, sizeof(*(d)))
#endif
static void vf_free(void *p);
#include SRC_C
#undef free
#undef memmove
#undef memcpy
static void vf_move(void *d, const void *s, size_t n, size_t width)
{
        if (width == 8) {
        art_node *t[48]; art_node **dp = d, *const *sp = s;
        __CPROVER_assert(n % 8 == 0, "TOOL LIMIT whole pointers are moved");
        for (int i = 0; i < 16; i++) if (i < n / 8) t[i] = sp[i];
        for (int i = 0; i < 16; i++) if (i < n / 8) dp[i] = t[i];
        __CPROVER_assert(n <= 16 * 8, "TOOL LIMIT size of a move");
    } else {
        unsigned char t[16], *dp = d; const unsigned char *sp = s;
        for (int i = 0; i < 16; i++) if (i < n) t[i] = sp[i];
        for (int i = 0; i < 16; i++) if (i < n) dp[i] = t[i];
        __CPROVER_assert(n <= 16, "TOOL LIMIT size of a move");
    }
}
static void *freed;
static void vf_free(void *p) { __CPROVER_assert(!freed, "one node is freed"); freed = p; }
static art_node4 P4; static art_node16 P16; static art_node48 P48; static art_node256 P256; static int pool_used;
#ifndef LIM
#define LIM 256
#endif
#define A __CPROVER_assert
#define ASM __CPROVER_assume
void *PDC_malloc(size_t n) { return malloc(n); }
void *PDC_calloc(size_t a, size_t b)
{
    pool_used++;
    if (b == sizeof P4) return &P4;
    if (b == sizeof P16) return &P16;
    if (b == sizeof P48) return &P48;
    if (b == sizeof P256) return &P256;
    return calloc(a, b);
}
/* the abstract value of a node: the child found under every byte */
static art_node *at(art_node *n, unsigned char c) { art_node **p = find_child(n, c); return p ? *p : 0; }
static art_node4 N4; static art_node16 N16; static art_node48 N48; static art_node256 N256;
typedef unsigned short child_t; /* children are opaque to the node operations */
/* an arbitrary well-formed node of each type */
static void header(art_node *n, int type, int num)
{
    unsigned pl; unsigned char pa[MAX_PREFIX_LEN];
    ASM(pl < 1u << 31);
    n->type = type; n->num_children = num; n->partial_len = pl;
    for (int i = 0; i < MAX_PREFIX_LEN; i++) n->partial[i] = pa[i];
}
static art_node4 *any4(int lo, int hi)
{
    art_node4 *n = &N4; unsigned char num, ks[4]; child_t ch[4];
    ASM(num >= lo && num <= hi);
    header(&n->n, NODE4, num);
    for (int i = 0; i < 4; i++) { n->keys[i] = ks[i]; n->children[i] = 0; if (i < num) { ASM(ch[i] != 0); n->children[i] = (art_node *)(size_t)ch[i]; if (i) ASM(ks[i - 1] < ks[i]); } }
    return n;
}
static art_node16 *any16(int lo, int hi)
{
    art_node16 *n = &N16; unsigned char num, ks[16]; child_t ch[16];
    ASM(num >= lo && num <= hi);
    header(&n->n, NODE16, num);
    for (int i = 0; i < 16; i++) { n->keys[i] = ks[i]; n->children[i] = 0; if (i < num) { ASM(ch[i] != 0); n->children[i] = (art_node *)(size_t)ch[i]; if (i) ASM(ks[i - 1] < ks[i]); } }
    return n;
}
/* node48: the bytes are mapped to slots; only what the contract needs is assumed, at the bytes c and q it speaks about:
   a mapped slot is occupied and belongs to one byte; `all` assumes the number of mapped bytes as well */
static art_node48 *any48(int lo, int hi, unsigned char c, unsigned char q, int all)
{
    art_node48 *n = &N48; unsigned char num, ks[256], z; child_t ch[48];
    ASM(num >= lo && num <= hi);
    header(&n->n, NODE48, num);
    for (int i = 0; i < 48; i++) n->children[i] = (art_node *)(size_t)ch[i];
    int used = 0;
    for (int i = 0; i < 256; i++) { if (i >= LIM) { n->keys[i] = 0; continue; } n->keys[i] = ks[i]; ASM(ks[i] <= 48); if (ks[i]) used++; }
    if (all) ASM(used == num);
    if (all) for (int i = 0; i < LIM; i++) ASM(!ks[i] || ch[ks[i] - 1]);
    ASM(!n->keys[c] || n->children[n->keys[c] - 1]); ASM(!n->keys[q] || n->children[n->keys[q] - 1]); ASM(c == q || !n->keys[c] || n->keys[c] != n->keys[q]);
    ASM(num == 48 || (z < 48 && ch[z] == 0));
    return n;
}
static art_node256 *any256(int lo, int hi)
{
    art_node256 *n = &N256; child_t ch[256]; int used = 0;
    for (int i = 0; i < 256; i++) { if (i >= LIM) { n->children[i] = 0; continue; } n->children[i] = (art_node *)(size_t)ch[i]; if (ch[i]) used++; }
    ASM(used >= lo && used <= hi);
    header(&n->n, NODE256, used);
    return n;
}
static void shape(art_node *n, int num, int type)
{
    A(n->num_children == (unsigned char)num, "number of children");
    type = n->type;
    if (type == NODE4) for (int i = 1; i < 4; i++) A(i >= num || ((art_node4 *)n)->keys[i - 1] < ((art_node4 *)n)->keys[i], "keys in byte order");
    if (type == NODE16) for (int i = 1; i < 16; i++) A(i >= num || ((art_node16 *)n)->keys[i - 1] < ((art_node16 *)n)->keys[i], "keys in byte order");
}
#define HDR0(N) unsigned pl0 = (N)->partial_len; unsigned char pi; ASM(pi < MAX_PREFIX_LEN && pi < pl0); unsigned char pb0 = (N)->partial[pi]
#define HDR(N) A((N)->partial_len == pl0 && (N)->partial[pi] == pb0, "the compressed prefix is kept")
#define ADD(TYPE, ANY, NEWTYPE, CNT)                                                                                   \
    unsigned char c, q; child_t child; art_node##TYPE *n = ANY; art_node *ref = &n->n;                                  \
    int num = CNT; n->n.num_children = CNT;                                                                            \
    ASM(child != 0 && !at(&n->n, c));                                                                                  \
    art_node *old = at(&n->n, q); HDR0(&n->n);                                                                         \
    add_child(&n->n, &ref, c, (void *)(size_t)child);                                                                  \
    A(at(ref, q) == (q == c ? (art_node *)(size_t)child : old), "the new child is found under its byte and every other byte as before"); \
    shape(ref, num + 1, NEWTYPE); HDR(ref); A(ref == &n->n ? !freed : freed == (void *)n, "a replaced node is freed, once");
#ifndef NUM
#define NUM 0
#endif
/* node4 and node16: one run per number of children (NUM) */
void add4(void) { ADD(4, any4(NUM, NUM), NODE4, NUM) }
void add4full(void) { ADD(4, any4(4, 4), NODE16, 4) }
void add16(void) { ADD(16, any16(NUM, NUM), NODE16, NUM) }
void add16full(void) { ADD(16, any16(16, 16), NODE48, 16) }
void add48(void) { ADD(48, any48(0, 47, c, q, 0), NODE48, n->n.num_children) A(!n->keys[q] || n->children[n->keys[q] - 1], "a mapped slot is occupied"); A(q == c || !n->keys[q] || n->keys[q] != n->keys[c], "a slot belongs to one byte"); }
void add48full(void) { ADD(48, any48(48, 48, c, q, 0), NODE256, 48) }
void add256(void) { ADD(256, any256(0, 255), NODE256, n->n.num_children) }
#define REM(TYPE, ANY, NEWTYPE, CNT)                                                                                   \
    unsigned char c, q; art_node##TYPE *n = ANY; art_node *ref = &n->n;                                                 \
    int num = CNT; n->n.num_children = CNT;                                                                            \
    art_node **slot = find_child(&n->n, c); ASM(slot && *slot);                                                        \
    art_node *old = at(&n->n, q); HDR0(&n->n);                                                                         \
    remove_child(&n->n, &ref, c, slot);                                                                                \
    A(at(ref, q) == (q == c ? (art_node *)0 : old), "the child is gone and every other byte is as before");             \
    shape(ref, num - 1, NEWTYPE); HDR(ref); A(ref == &n->n ? !freed : freed == (void *)n, "a replaced node is freed, once");
void rem4(void) { REM(4, any4(NUM, NUM), NODE4, NUM) }
void rem16(void) { REM(16, any16(NUM, NUM), NODE16, NUM) }
void rem16small(void) { REM(16, any16(4, 4), NODE4, 4) }
void rem48(void) { REM(48, any48(14, 48, c, q, 0), NODE48, n->n.num_children) A(!n->keys[c], "the byte is unmapped"); A(!n->keys[q] || n->children[n->keys[q] - 1], "a mapped slot is occupied"); }
void rem48small(void) { REM(48, any48(13, 13, c, q, 1), NODE16, 13) }
void rem256(void) { REM(256, any256(39, 256), NODE256, n->n.num_children) }
void rem256small(void) { REM(256, any256(38, 38), NODE48, 38) art_node48 *m = (art_node48 *)ref; A(!m->keys[q] || m->children[m->keys[q] - 1], "a mapped slot is occupied"); A(q == c || !m->keys[q] || m->keys[q] != m->keys[c], "a slot belongs to one byte"); }
/* removing the second but last child of a node4 hands its prefix to the child that remains */
void rem4last(void)
{
    static art_node4 M4; art_node4 *n = &N4, *m = &M4; art_node *ref = &n->n; unsigned char k0, k1, which, i; unsigned pl0, pl1; child_t other;
    unsigned char a[MAX_PREFIX_LEN], b[MAX_PREFIX_LEN];
    _Bool leaf;
    header(&n->n, NODE4, 2); header(&m->n, NODE4, 2);
    ASM(k0 < k1 && which < 2 && other != 0 && n->n.partial_len < 1000000 && m->n.partial_len < 1000000);
    n->keys[0] = k0; n->keys[1] = k1;
    pl0 = n->n.partial_len; pl1 = m->n.partial_len;
    for (int j = 0; j < MAX_PREFIX_LEN; j++) { a[j] = n->n.partial[j]; b[j] = m->n.partial[j]; }
    art_node *keep = leaf ? (art_node *)SET_LEAF(m) : &m->n;
    n->children[which] = (art_node *)(size_t)other; n->children[1 - which] = keep;
    remove_child(&n->n, &ref, which ? k1 : k0, &n->children[which]);
    A(ref == keep, "replaced by the child that remains");
    if (leaf) return;
    A(m->n.partial_len == pl0 + pl1 + 1, "the prefixes and the byte between them are concatenated");
    ASM(i < MAX_PREFIX_LEN && i < pl0 + pl1 + 1);
    A(m->n.partial[i] == (i < pl0 ? a[i] : i == pl0 ? (which ? k0 : k1) : b[i - pl0 - 1]), "bytes of the concatenated prefix");
}
void find(void)
{
    unsigned char t, q, i; art_node *n = 0;
    ASM(t < 4);
    if (t == 0) { art_node4 *m = any4(0, 4); n = &m->n; ASM(i < m->n.num_children); A(at(n, m->keys[i]) == m->children[i], "node4 child"); _Bool in = 0; for (int j = 0; j < 4; j++) if (j < m->n.num_children && m->keys[j] == q) in = 1; A(in || !at(n, q), "node4 absent byte"); }
    if (t == 1) { art_node16 *m = any16(0, 16); n = &m->n; ASM(i < m->n.num_children); A(at(n, m->keys[i]) == m->children[i], "node16 child"); _Bool in = 0; for (int j = 0; j < 16; j++) if (j < m->n.num_children && m->keys[j] == q) in = 1; A(in || !at(n, q), "node16 absent byte"); }
    if (t == 2) { art_node48 *m = any48(0, 48, q, q, 0); A(at(&m->n, q) == (m->keys[q] ? m->children[m->keys[q] - 1] : 0), "node48 child"); }
    if (t == 3) { art_node256 *m = any256(0, 256); A(at(&m->n, q) == m->children[q], "node256 child"); }
}
void leaf(void)
{
    unsigned char ka[12], kb[13]; int na, nb, p, depth; void *v; unsigned char j;
    ASM(na >= 0 && na <= 12 && nb >= 0 && nb <= 12 && p >= 0 && p <= 12);
    art_leaf *l = make_leaf(ka, na, v);
    A(l->value == v && l->key_len == na && (j >= na || l->key[j] == ka[j]), "a leaf holds a copy of its key, and the value");
    _Bool eq = na == nb, pre = p <= na;
    for (int i = 0; i < 12; i++) { if (i < na && i < nb && ka[i] != kb[i]) eq = 0; if (i < p && i < na && ka[i] != kb[i]) pre = 0; }
    A((leaf_matches(l, kb, nb, depth) == 0) == eq, "a leaf matches its own key only");
    A((leaf_prefix_matches(l, kb, p) == 0) == pre, "prefix match of a leaf");
}
