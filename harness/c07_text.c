/* Contracts of the real, text and binary payload decoders (C07). */
#include "vp.h"
#include "mbus-protocol.h"
#ifdef VP_CBMC
#include <stdarg.h>
/* snprintf for formats made of literal characters and one two-digit upper-case hexadecimal conversion
 * of a byte (that it is a byte is an obligation); any other format is a failed obligation */
int vp_snprintf(char *dst, size_t n, const char *f, ...)
{
    const char *hx = "0123456789ABCDEF"; char o[8]; int w = 0, k; unsigned v; va_list ap;
    va_start(ap, f); v = va_arg(ap, unsigned); va_end(ap);
    while (*f) {
        if (*f != '%') { o[w++] = *f++; continue; }
        __CPROVER_assert((f[1] == '0' || f[1] == '.') && f[2] == '2' && f[3] == 'X' && v <= 255, "VP:two upper-case hexadecimal digits of a byte");
        o[w++] = hx[(v >> 4) & 15]; o[w++] = hx[v & 15]; f += 4;
    }
    for (k = 0; k < w; k++) if (k + 1 < n) dst[k] = o[k];
    if (n) dst[w < n ? w : n - 1] = 0;
    return w;
}
#endif
#if MODE == 1                   /* real */
void harness(void)
{
    u8 b[4]; uint32_t w, g; float f;
    vp_fill(b, 4);
    w = b[0] | (uint32_t)b[1] << 8 | (uint32_t)b[2] << 16 | (uint32_t)b[3] << 24;
    f = mbus_data_float_decode(b);
    memcpy(&g, &f, 4);
    if ((w & 0x7F800000) == 0x7F800000 && (w & 0x7FFFFF)) VP_ASSERT(f != f, "not a number stays not a number");
    else VP_ASSERT(g == w, "IEEE 754 single of the bytes");
    VP_ASSERT(mbus_data_float_decode(NULL) == -1.0f, "null gives -1");
    VP_COVER(w == 0x3F800000, "one");
}
#elif MODE == 2                 /* text: every size N..N2, both buffers end where the contract says */
void harness(void)
{
    static u8 src[256], dst[256]; size_t n, k; int ok = 1;
    vp_fill(src, 256); vp_fill(dst, 256);
    for (n = N; n <= N2; n++) {
        u8 *s = src + (256 - n), *d = dst + (256 - (n + 1));
        mbus_data_str_decode(d, s, n);
        for (k = 0; k < n; k++) if (d[k] != s[n - 1 - k]) ok = 0;
        VP_ASSERT(ok, "bytes in reverse order");
        VP_ASSERT(d[n] == 0, "terminated, and nothing behind");
    }
    mbus_data_str_decode(NULL, src, 5); mbus_data_str_decode(dst, NULL, 5);
    VP_COVER(ok, "reached");
}
#elif MODE == 3                 /* text: buffers exactly as large as the contract says */
void harness(void)
{
    static u8 src[N + 1], dst[N + 1]; size_t k; int ok = 1;
    vp_fill(src + 1, N);
    mbus_data_str_decode(dst, src + 1, N);
    for (k = 0; k < N; k++) if (dst[k] != src[N - k]) ok = 0;
    VP_ASSERT(ok && dst[N] == 0, "bytes in reverse order, terminated");
    VP_COVER(ok, "reached");
}
#elif MODE == 4                 /* binary: every size N..N2 into a buffer of M bytes, at an arbitrary pair q */
void harness(void)
{
    static u8 src[N2 + 1], dst[M + 2]; size_t n, q, p; u8 o1, o2, sq; const char *h = "0123456789ABCDEF";
    n = vp_range(N, N2); q = vp_range(0, 255);
    vp_fill(src, N2); vp_fill(dst, M + 2); o1 = dst[M]; o2 = dst[M + 1];
    p = 3 * n <= M - 1 ? n : (M - 1) / 3;               /* whole pairs that fit, each with its blank */
    sq = q < p ? src[n - 1 - q] : 0;
    mbus_data_bin_decode(dst, src, n, M);
    VP_ASSERT(q >= p || (dst[3 * q] == h[sq >> 4] && dst[3 * q + 1] == h[sq & 15]), "upper-case pairs, last byte first");
    VP_ASSERT(q + 1 >= p || dst[3 * q + 2] == ' ', "separated by single blanks");
    VP_ASSERT(dst[p ? 3 * p - 1 : 0] == 0, "terminated after the last whole pair");
    VP_ASSERT(dst[M] == o1 && dst[M + 1] == o2, "nothing behind the given size");
    mbus_data_bin_decode(NULL, src, n, M); mbus_data_bin_decode(dst, NULL, n, M);
    VP_COVER(n == N2, "reached");
}
#endif
