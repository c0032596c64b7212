/* Contract of mbus_str_xml_encode (C16).  BIG (proof back end): any text and size; the loop is cut at its head, where the
 * state (len, i) must take exactly the step of the specification.  Otherwise: texts up to SRC characters, the whole function. */
#include "vp.h"
#include "mbus-protocol.h"
#ifdef VP_CBMC
#include "vp_printf.h"
#endif
static unsigned esc(u8 c, const char **t)
{
    if (c < 32 || c == 127) { *t = " "; return 1; }
    if (c == '&') { *t = "&amp;"; return 5; }
    if (c == '<') { *t = "&lt;"; return 4; }
    if (c == '>') { *t = "&gt;"; return 4; }
    if (c == '"') { *t = "&quot;"; return 6; }
    *t = 0; return 1;
}
#ifdef BIG
#ifdef VP_NATIVE
#define SRC 48
#endif
#endif
#if defined(BIG) && defined(VP_CBMC)
static size_t N, M, i0, l0, K; static u8 *S, *D; static int phase; static u8 dk;
void vp_cut(void **v, int n)
{
    size_t *len = v[0], *i = v[1]; int k;
    if (phase == 0) {
        phase = 1;
        VP_ASSERT(*i == 0 && *len == 0, "starts at the first character with no output");
        for (k = 0; k < n; k++) __CPROVER_havoc_object(v[k]);
        i0 = vp_size(); l0 = vp_size();
        VP_ASSUME(i0 <= N && l0 < M && l0 <= 6 * i0 && l0 >= i0);
        *i = i0; *len = l0;
        S[i0] = i0 == N ? 0 : vp_u8(); if (i0 < N) VP_ASSUME(S[i0]);
        if (K < M) { dk = vp_u8(); D[K] = dk; }
    } else {
        const char *t; unsigned w = esc(S[i0], &t), k;
        VP_ASSERT(i0 < N, "no step behind the text");
        VP_ASSERT(*i == i0 + 1 && *len == l0 + w, "one character gives its escape");
        VP_ASSERT(*len < M, "room for the terminator is kept");
        for (k = 0; k < 6; k++) if (k < w) VP_ASSERT(D[l0 + k] == (t ? (u8)t[k] : S[i0]), "the escape of the character");
        if (K < l0) VP_ASSERT(D[K] == dk, "the text written before stays");
        VP_COVER(w == 6, "quote"); VP_COVER(!t, "plain character");
        VP_ASSUME(0);
    }
}
void harness(void)
{
    int r; const char *t;
    N = vp_size(); M = vp_size(); K = vp_size(); VP_ASSUME(N <= BIG && M <= BIG && M >= 1);
    S = malloc(N + 1); D = malloc(M); S[N] = 0;
    r = mbus_str_xml_encode(D, S, M);
    VP_ASSERT(r == 0 && phase == 1, "success");
    VP_ASSERT(D[l0] == 0, "terminated");
    VP_ASSERT(i0 == N || l0 + 6 >= M, "cut only when the room is used up");
    if (K < l0) VP_ASSERT(D[K] == dk, "the text written before stays");
    VP_COVER(i0 == N, "complete"); VP_COVER(i0 < N, "cut");
}
#else
void harness(void)
{
    
#ifdef MFIX
    size_t m = MFIX,
#else
    size_t m = vp_range(1, 6 * SRC + 10),
#endif
        n = vp_range(0, SRC), k, j, l = 0; u8 *s = malloc(n + 1), *d = malloc(m), *e = malloc(6 * SRC + 10); int r;
    size_t mk = vp_mark();
    vp_fill(s, n);
    if (VP_SEARCHING) { for (k = 0; k < n; k++) if (vp_rnd(3)) s[k] = (u8)"&<>\"'a0\n\x7f\x80\xff\x1f"[vp_rnd(12)]; vp_relog(mk, s, n); }
    for (k = 0; k < n; k++) if (!s[k]) s[k] = 'x';
    s[n] = 0;
    r = mbus_str_xml_encode(d, s, m);
    VP_ASSERT(r == 0, "success");
    for (k = 0; k < n; k++) {
        const char *t; unsigned w = esc(s[k], &t);
        if (l + 6 >= m) break;
        for (j = 0; j < w; j++) e[l + j] = t ? (u8)t[j] : s[k];
        l += w;
    }
    for (j = 0; j < 6 * SRC; j++) if (j < l) VP_ASSERT(d[j] == e[j], "escaped text");
    VP_ASSERT(d[l] == 0, "terminated");
    VP_ASSERT(mbus_str_xml_encode(NULL, s, m) != 0 && mbus_str_xml_encode(d, NULL, m) != 0 && d[0] == 0, "null arguments");
    VP_COVER(r == 0, "end");
    free(s); free(d); free(e);
}
#endif
