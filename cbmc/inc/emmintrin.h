/* C definitions of the SSE2 intrinsics used by art.c (Intel SDM): trusted library model. */
#ifndef VF_EMM
#define VF_EMM
typedef struct { signed char b[16]; } __m128i;
#define VFE(I) r.b[I] = OP(a.b[I], b.b[I]);
#define VFALL VFE(0) VFE(1) VFE(2) VFE(3) VFE(4) VFE(5) VFE(6) VFE(7) VFE(8) VFE(9) VFE(10) VFE(11) VFE(12) VFE(13) VFE(14) VFE(15)
static inline __m128i _mm_loadu_si128(const __m128i *p) { const signed char *c = (const signed char *)p; __m128i r; for (int i = 0; i < 16; i++) r.b[i] = c[i]; return r; }
static inline __m128i _mm_set1_epi8(char c) { __m128i r; for (int i = 0; i < 16; i++) r.b[i] = c; return r; }
static inline __m128i _mm_cmpeq_epi8(__m128i a, __m128i b) { __m128i r; for (int i = 0; i < 16; i++) r.b[i] = a.b[i] == b.b[i] ? -1 : 0; return r; }
static inline __m128i _mm_cmplt_epi8(__m128i a, __m128i b) { __m128i r; for (int i = 0; i < 16; i++) r.b[i] = a.b[i] < b.b[i] ? -1 : 0; return r; }
static inline __m128i _mm_cmpgt_epi8(__m128i a, __m128i b) { __m128i r; for (int i = 0; i < 16; i++) r.b[i] = a.b[i] > b.b[i] ? -1 : 0; return r; }
static inline __m128i _mm_xor_si128(__m128i a, __m128i b) { __m128i r; for (int i = 0; i < 16; i++) r.b[i] = a.b[i] ^ b.b[i]; return r; }
static inline __m128i _mm_and_si128(__m128i a, __m128i b) { __m128i r; for (int i = 0; i < 16; i++) r.b[i] = a.b[i] & b.b[i]; return r; }
static inline __m128i _mm_min_epu8(__m128i a, __m128i b) { __m128i r; for (int i = 0; i < 16; i++) r.b[i] = (unsigned char)a.b[i] < (unsigned char)b.b[i] ? a.b[i] : b.b[i]; return r; }
static inline __m128i _mm_max_epu8(__m128i a, __m128i b) { __m128i r; for (int i = 0; i < 16; i++) r.b[i] = (unsigned char)a.b[i] > (unsigned char)b.b[i] ? a.b[i] : b.b[i]; return r; }
static inline __m128i _mm_subs_epu8(__m128i a, __m128i b) { __m128i r; for (int i = 0; i < 16; i++) r.b[i] = (unsigned char)a.b[i] > (unsigned char)b.b[i] ? a.b[i] - b.b[i] : 0; return r; }
static inline int _mm_movemask_epi8(__m128i a) { int m = 0; for (int i = 0; i < 16; i++) if (a.b[i] < 0) m |= 1 << i; return m; }
#endif
