/* Contract of mbus_hex2bin (C18).  BIG (proof back end): any lengths; the loop is cut at its head, where the state
 * (i, result) must take exactly the step of the specification.  Otherwise: SRC bytes of any content, the whole function. */
#include "vp.h"
#include "mbus-protocol-aux.h"
#define NA 3u
static int hexv(u8 c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int blank(u8 c) { return c == ' ' || (c >= 9 && c <= 13); }
#ifdef VP_CBMC
unsigned long vp_strtoul(const char *s, char **end, int base)        /* base 16, the C library's rules */
{
    size_t k = 0; int neg = 0, any = 0; unsigned long v = 0;
    VP_ASSERT(base == 16, "model-limit base");
    while (blank((u8)s[k])) k++;
    if (s[k] == '+') k++; else if (s[k] == '-') { neg = 1; k++; }
    if (s[k] == '0' && (s[k + 1] == 'x' || s[k + 1] == 'X') && hexv((u8)s[k + 2]) >= 0) k += 2;
    while (hexv((u8)s[k]) >= 0) { v = v * 16 + (unsigned long)hexv((u8)s[k]); k++; any = 1; }
    if (end) *end = (char *)(any ? s + k : s);
    return neg ? 0 - v : v;
}
#endif
#ifdef BIG
#ifdef VP_NATIVE
#define SRC 48
#endif
#endif
#if defined(BIG) && defined(VP_CBMC)
static size_t N, M, i0, r0, K; static u8 *S, *D; static int phase; static u8 dk; static int tm[9];
void vp_cut(void **v, int n)
{
    size_t *i = v[0], *r = v[1]; int k;
    if (phase == 0) {
        phase = 1;
        VP_ASSERT(*i == 0 && *r == 0, "the conversion starts at the first character with no byte");
        if (K < M) VP_ASSERT(D[K] == 0, "the destination is cleared");
        for (k = 0; k < n; k++) {
            size_t z = __CPROVER_OBJECT_SIZE(v[k]); u8 *last = (u8 *)v[k] + z - 1;
            int term = k >= 2 && k < 9 && (z & (z - 1)) && *last == 0;      /* a terminated character array stays terminated */
            __CPROVER_havoc_object(v[k]);
            if (term) { VP_ASSUME(*last == 0); tm[k] = 1; }
        }
        i0 = vp_size(); r0 = vp_size();
        VP_ASSUME(i0 <= N && r0 <= M && r0 <= i0 / 2);
        *i = i0; *r = r0;
        if (i0 < N) S[i0] = vp_u8(); if (i0 + 1 < N) S[i0 + 1] = vp_u8();
        if (K < M) { dk = K < r0 ? vp_u8() : 0; D[K] = dk; }
    } else {
        for (k = 0; k < 9; k++) if (k < n && tm[k]) VP_ASSERT(((u8 *)v[k])[__CPROVER_OBJECT_SIZE(v[k]) - 1] == 0, "terminated character arrays stay terminated");
        VP_ASSERT(i0 + 1 < N, "no step without a full pair left");
        if (blank(S[i0])) VP_ASSERT(*i == i0 + 1 && *r == r0, "a blank between pairs is skipped");
        else {
            VP_ASSERT(hexv(S[i0]) >= 0 && hexv(S[i0 + 1]) >= 0 && r0 < M, "only a pair of hexadecimal digits that fits is converted");
            VP_ASSERT(*i == i0 + 2 && *r == r0 + 1, "a pair gives one byte");
            VP_ASSERT(D[r0] == hexv(S[i0]) * 16 + hexv(S[i0 + 1]), "the byte the pair spells");
        }
        if (K < M && K != r0) VP_ASSERT(D[K] == dk, "the other bytes stay");
        VP_COVER(*r == r0 + 1, "pair"); VP_COVER(*r == r0, "blank");
        VP_ASSUME(0);
    }
}
void harness(void)
{
    size_t r;
    N = vp_size(); M = vp_size(); K = vp_size(); VP_ASSUME(N <= BIG && M <= BIG && M >= 1);
    S = malloc(N + 1); D = malloc(M);
    r = mbus_hex2bin(D, M, S, N);
    VP_ASSERT(phase == 1, "the loop was reached");
    VP_ASSERT(r == r0, "the number of bytes");
    if (i0 + 1 < N) VP_ASSERT(!blank(S[i0]) && (hexv(S[i0]) < 0 || hexv(S[i0 + 1]) < 0 || r0 >= M), "stops only at the end, at a wrong pair, or when full");
    if (K < M) VP_ASSERT(D[K] == dk, "nothing changes at the end");
    VP_COVER(i0 + 1 < N, "early stop"); VP_COVER(i0 + 1 >= N, "end of text");
}
#else
void harness(void)
{
    size_t n = vp_range(0, SRC), m = vp_range(0, SRC), i, r = 0, got; u8 *src = malloc(n + !n), *dst = malloc(m + !m), e[SRC + 1];
    size_t mk = vp_mark();
    vp_fill(src, n); vp_fill(dst, m);
    if (VP_SEARCHING) {
        for (i = 0; i < n; i++) src[i] = "0123456789abcdefABCDEF  \n"[vp_rnd(25)];
        while (vp_rnd(2) && n) src[vp_rnd(n)] = (u8)" +-xXgG:/@`\0\xff"[vp_rnd(13)];
        vp_relog(mk, src, n);
    }
    got = mbus_hex2bin(dst, m, src, n);
    for (i = 0; i < SRC; i++) e[i] = 0;
    for (i = 0; i + 1 < n; ) {
        if (blank(src[i])) { i++; continue; }
        if (hexv(src[i]) < 0 || hexv(src[i + 1]) < 0 || r >= m) break;
        e[r++] = (u8)(hexv(src[i]) * 16 + hexv(src[i + 1])); i += 2;
    }
    VP_ASSERT(got == r, "the number of bytes");
    for (i = 0; i < SRC; i++) if (i < r) VP_ASSERT(dst[i] == e[i], "the bytes the pairs spell");
    VP_ASSERT(mbus_hex2bin(NULL, m, src, n) == 0 && mbus_hex2bin(dst, m, NULL, n) == 0, "null arguments");
    VP_COVER(r == SRC / 2, "all"); VP_COVER(r < n / 2, "stops");
    free(src); free(dst);
}
#endif
