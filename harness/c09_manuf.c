/* Contracts of the manufacturer code functions (C09). */
#include "vp.h"
#include "mbus-protocol.h"
static int up(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int alpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
#if MODE == 1                   /* numeric id of every terminated text of up to 6 characters */
void harness(void)
{
    static char s[7], o[7]; size_t m = vp_mark(), len; unsigned want = 0, got; int k;
    vp_fill(s, 6); s[6] = 0;
    if (VP_SEARCHING && vp_rnd(8)) { for (k = 0; k < 6; k++) s[k] = (vp_rnd(2) ? 'A' : 'a') + vp_rnd(26); if (vp_rnd(2)) s[vp_rnd(6)] = vp_rnd(3) ? 0 : '@' + vp_rnd(64); vp_relog(m, s, 6); }
    memcpy(o, s, 7);
    for (len = 0; s[len]; len++) ;
    if (len >= 3 && alpha(s[0]) && alpha(s[1]) && alpha(s[2]))
        want = ((up(s[0]) - 64) << 10) + ((up(s[1]) - 64) << 5) + (up(s[2]) - 64);
    got = mbus_manufacturer_id(s);
    VP_ASSERT(got == want, "five-bit packing of the letters, else zero");
    VP_ASSERT(!memcmp(o, s, 7), "text unchanged");
    VP_ASSERT(mbus_manufacturer_id(NULL) == 0, "null gives zero");
    VP_COVER(want != 0, "letters"); VP_COVER(want == 0, "no letters");
}
#elif MODE == 3                 /* short texts in exactly sized buffers */
void harness(void)
{
    static char s[N + 1]; int k; vp_fill(s, N);
    for (k = 0; k < N; k++) VP_ASSUME(s[k] != 0);
    s[N] = 0;
    VP_ASSERT(N >= 3 || mbus_manufacturer_id(s) == 0, "too short");
    VP_COVER(1, "reached");
}
#else                           /* encode and decode */
void harness(void)
{
    u8 code[3], c0[3], d[4], d0[4]; unsigned id; const char *t; int k, letters = 1;
    vp_fill(code, 3); vp_fill(d, 4); memcpy(c0, code, 3); memcpy(d0, d, 4);
    if (VP_SEARCHING) { size_t m = vp_mark(); (void)m; }
    for (k = 0; k < 3; k++) if (!alpha(code[k])) letters = 0;
    VP_ASSERT(mbus_data_manufacturer_encode(d + 1, code) == 0, "accepted");
    VP_ASSERT(d[0] == d0[0] && d[3] == d0[3] && !memcmp(code, c0, 3), "only the two bytes written");
    if (letters) {
        char txt[4]; txt[0] = code[0]; txt[1] = code[1]; txt[2] = code[2]; txt[3] = 0;
        id = mbus_manufacturer_id(txt);
        VP_ASSERT(d[1] == (id & 255) && d[2] == id >> 8, "the numeric id, little-endian");
        t = mbus_decode_manufacturer(d[1], d[2]);
        VP_ASSERT(t[0] == up(code[0]) && t[1] == up(code[1]) && t[2] == up(code[2]) && t[3] == 0, "decoding returns the upper-case letters");
        VP_COVER(1, "letters");
    }
    { u8 a = vp_u8(), b = vp_u8(); unsigned w = a | b << 8;
      t = mbus_decode_manufacturer(a, b);
      VP_ASSERT(t[0] == 64 + ((w >> 10) & 31) && t[1] == 64 + ((w >> 5) & 31) && t[2] == 64 + (w & 31) && t[3] == 0, "text of any two bytes"); }
    VP_ASSERT(mbus_data_manufacturer_encode(NULL, code) == -1 && mbus_data_manufacturer_encode(d, NULL) == -1, "null rejected");
}
#endif
