/* Contracts of the BCD and binary-integer codecs (C05, C06); N = number of bytes. */
#include "vp.h"
#include "mbus-protocol.h"
static u8 buf[N + 2];           /* one guard byte on either side */

static void draw(void)
{
    size_t k, m = vp_mark();
    vp_fill(buf, N + 2);
    if (VP_SEARCHING) {         /* digits most of the time */
        if (vp_rnd(4)) for (k = 1; k <= N; k++) buf[k] = (vp_rnd(10) << 4) | vp_rnd(10);
        if (!vp_rnd(3)) buf[N] |= 0xF0;
        if (!vp_rnd(8)) for (k = 1; k <= N; k++) buf[k] = vp_rnd(3) ? 0xFF : 0x7F;
        vp_relog(m, buf, N + 2);
    }
}
static void unchanged(const u8 *c)
{
    VP_ASSERT(!memcmp(buf, c, N + 2), "input unchanged");
}

#if MODE == 1                   /* decimal BCD decode */
void harness(void)
{
    u8 c[N + 2]; size_t k; long long want = 0, got; int valid = 1, neg = 0;
    draw(); memcpy(c, buf, N + 2);
    for (k = N; k >= 1; k--) {
        unsigned hi = c[k] >> 4, lo = c[k] & 15;
        if (k == N && hi == 15) { neg = 1; hi = 0; }
        if (hi > 9 || lo > 9) valid = 0;
        want = want * 10;           /* Horner's rule: the value sum of digit_k * 10^k */
        if (hi < 10) want += hi;
        want = want * 10 + lo;
    }
    if (neg) want = -want;
    got = mbus_data_bcd_decode(buf + 1, N);
    VP_ASSERT(!valid || got == want, "decimal value of the digits");
    VP_COVER(valid && neg, "negative number"); VP_COVER(valid && !neg, "non-negative number");
    unchanged(c);
    VP_ASSERT(mbus_data_bcd_decode(NULL, N) == -1, "null rejected");
}
#elif MODE == 2                 /* hexadecimal decode */
void harness(void)
{
    u8 c[N + 2]; size_t k; u64 want = 0; long long got;
    draw(); memcpy(c, buf, N + 2);
    for (k = 1; k <= N; k++) want |= (u64)c[k] << (8 * (k - 1));
    got = mbus_data_bcd_decode_hex(buf + 1, N);
    VP_ASSERT((u64)got == want, "little-endian number");
    unchanged(c);
    VP_ASSERT(mbus_data_bcd_decode_hex(NULL, N) == -1, "null rejected");
    VP_COVER(got != 0, "reached");
}
#elif MODE == 3                 /* BCD encode: digit by digit, every int that fits */
void harness(void)
{
    u8 c[N + 2]; size_t k; int v = vp_int(), r; unsigned long long a; u8 d[2 * N];
    a = v < 0 ? 0ULL - (long long)v : (unsigned)v;
    draw(); memcpy(c, buf, N + 2);
    { unsigned q = (unsigned)a; for (k = 0; k < 2 * N; k++) { unsigned t = q / 10; d[k] = q - t * 10; q = t; }   /* q mod 10 */
      /* fits: all digits representable, the top digit free for the sign when negative */
      VP_ASSUME(q == 0 && (v >= 0 || d[2 * N - 1] == 0)); }
    if (v < 0) d[2 * N - 1] = 15;
    r = mbus_data_bcd_encode(buf + 1, N, v);
    VP_ASSERT(r == 0, "accepted");
    for (k = 0; k < N; k++)
        VP_ASSERT(buf[1 + k] == ((d[2 * k + 1] << 4) | d[2 * k]), "digits, least significant byte first, sign in the top digit");
    VP_ASSERT(buf[0] == c[0] && buf[N + 1] == c[N + 1], "nothing outside");
    VP_ASSERT(mbus_data_bcd_encode(NULL, N, v) == -1 && mbus_data_bcd_encode(buf + 1, 0, v) == -1, "null and empty rejected");
    VP_COVER(v < 0, "negative"); VP_COVER(v > 0, "positive");
}
#elif MODE == 4                 /* empty input */
void harness(void)
{
    u8 x[1]; x[0] = vp_u8();
    VP_ASSERT(mbus_data_bcd_decode(x, 0) <= 0 , "empty decimal input");
    VP_ASSERT(mbus_data_bcd_decode_hex(x, 0) <= 0, "empty hexadecimal input");
    VP_COVER(x[0] == 7, "reached");
}
#elif MODE == 5                 /* two's complement decode */
#if N <= 4
#define INT 1
#else
#define INT 0
#endif
void harness(void)
{
    u8 c[N + 2]; size_t k; long long want; u64 u = 0; int iv = vp_int(); long lv = iv; long long llv = iv;
    draw(); memcpy(c, buf, N + 2);
    for (k = 1; k <= N; k++) u |= (u64)c[k] << (8 * (k - 1));
    if (c[N] & 0x80) for (k = N; k < 8; k++) u |= (u64)0xFF << (8 * k);
    want = (long long)u;
#if INT
    VP_ASSERT(mbus_data_int_decode(buf + 1, N, &iv) == 0 && iv == want, "int value");
#endif
    VP_ASSERT(mbus_data_long_decode(buf + 1, N, &lv) == 0 && lv == want, "long value");
    VP_ASSERT(mbus_data_long_long_decode(buf + 1, N, &llv) == 0 && llv == want, "long long value");
    unchanged(c);
    VP_ASSERT(mbus_data_int_decode(NULL, N, &iv) == -1 && mbus_data_int_decode(buf + 1, 0, &iv) == -1, "int: null and empty rejected");
    VP_ASSERT(mbus_data_long_decode(NULL, N, &lv) == -1 && mbus_data_long_decode(buf + 1, 0, &lv) == -1, "long: null and empty rejected");
    VP_ASSERT(mbus_data_long_long_decode(NULL, N, &llv) == -1 && mbus_data_long_long_decode(buf + 1, 0, &llv) == -1, "long long: null and empty rejected");
    VP_COVER(want < 0, "negative"); VP_COVER(want > 0, "positive");
}
#elif MODE == 6                 /* int encode */
void harness(void)
{
    u8 c[N + 2]; size_t k; int v = vp_int(), back = 0;
    draw(); memcpy(c, buf, N + 2);
    VP_ASSERT(mbus_data_int_encode(buf + 1, N, v) == 0, "accepted");
    for (k = 0; k < N; k++) VP_ASSERT(buf[1 + k] == (u8)((unsigned)v >> (8 * k)), "little-endian bytes");
    VP_ASSERT(buf[0] == c[0] && buf[N + 1] == c[N + 1], "nothing outside");
    if (N == 4 || (v >= -(1 << (8 * N - 1)) && v < (1 << (8 * N - 1)))) {
        mbus_data_int_decode(buf + 1, N, &back);
        VP_ASSERT(back == v, "decoding returns the encoded number");
        VP_COVER(v < 0, "negative that fits");
    }
    VP_ASSERT(mbus_data_int_encode(NULL, N, v) == -1, "null rejected");
}
#endif
