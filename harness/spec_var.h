/* Specification of one step of splitting variable data b[0..n) into records at position p (EN 13757-3, 6.3):
 * the oracle of C10 (parsing) and C29 (packing back). */
#ifndef SPEC_VAR_H
#define SPEC_VAR_H
#include "vp.h"
struct spec_rec { int kind;     /* 0 error, 1 filler, 2 special (0F/1F), 3 record */
    size_t nd, vifpos, clen, cpos, nv, vpos, dpos, dlen, next; u8 dif, vif; };
static const u8 spec_LEN[16] = { 0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 8 };
static size_t spec_lvar(unsigned c)     /* bytes announced by an LVAR byte, the byte itself included */
{
    if (c <= 0xBF) return 1 + c;
    if (c <= 0xC9) return 1 + 2 * (c - 0xC0);
    if (c >= 0xD0 && c <= 0xD9) return 1 + 2 * (c - 0xD0);
    if (c >= 0xE0 && c <= 0xEF) return 1 + (c - 0xE0);
    if (c >= 0xF0 && c <= 0xF4) return 1 + 4 * (c - 0xEC);
    if (c == 0xF5) return 49;
    if (c == 0xF6) return 65;
    return 1;
}
/* p < n */
static struct spec_rec spec_step(const u8 *b, size_t n, size_t p)
{
    struct spec_rec r = {0}; size_t q = p, k; u8 c;
    r.dif = b[p];
    if (r.dif == 0x2F) { r.kind = 1; r.next = p + 1; return r; }
    if (r.dif == 0x0F || r.dif == 0x1F) { r.kind = 2; r.dpos = p + 1; r.dlen = n - p - 1; r.next = n; return r; }
    c = r.dif;
    for (k = 0; k < 11 && (c & 0x80); k++) { q++; if (k == 10 || q >= n) return r; c = b[q]; }
    r.nd = k; q++;
    if (q >= n) return r;
    r.vifpos = q; r.vif = b[q]; q++;
    if ((r.vif & 0x7F) == 0x7C) {
        if (q >= n) return r;
        r.clen = b[q]; q++; r.cpos = q;
        if (r.clen > 127 || q + r.clen > n) return r;
        q += r.clen;
    }
    r.vpos = q; c = r.vif;
    for (k = 0; k < 11 && (c & 0x80); k++) { if (k == 10 || q >= n) return r; c = b[q]; q++; }
    r.nv = k; r.dpos = q;
    r.dlen = spec_LEN[r.dif & 15];
    if ((r.dif & 15) == 13) { if (q >= n) return r; r.dlen = spec_lvar(b[q]); }
    if (q + r.dlen > n) return r;
    r.next = q + r.dlen; r.kind = 3;
    return r;
}
#endif
