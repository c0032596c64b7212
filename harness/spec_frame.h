/* Specification of M-Bus frames (EN 13757-2 link layer as documented in mbus-protocol.h) */
#ifndef SPEC_FRAME_H
#define SPEC_FRAME_H
#include "mbus-protocol.h"
enum { S_INVALID = -1, S_NEED = 0, S_ACK = 1, S_SHORT = 2, S_CONTROL = 3, S_LONG = 4 };

static inline int spec_short_cc(unsigned c)
{ return c == 0x40 || c == 0x5A || c == 0x7A || c == 0x5B || c == 0x7B; }
static inline int spec_long_cc(unsigned c)
{ return c == 0x53 || c == 0x73 || c == 0x08 || c == 0x18 || c == 0x28 || c == 0x38; }

/* classify the n bytes d; *need = bytes the parser may ask for (0: none) */
static inline int spec_classify(const u8 *d, size_t n, size_t *need, size_t *exact)
{
    size_t k, tot;
    u8 ck;
    *need = 0; *exact = 0;
    if (d[0] == 0xE5) return S_ACK;
    if (d[0] == 0x10) {
        if (n < 5) { *need = *exact = 5 - n; return S_NEED; }
        if (n > 5 || d[4] != 0x16 || d[3] != (u8)(d[1] + d[2]) || !spec_short_cc(d[1])) return S_INVALID;
        return S_SHORT;
    }
    if (d[0] != 0x68) return S_INVALID;
    if (n < 3) { *need = 9 - n; return S_NEED; }           /* length unknown: at least 9 bytes in all */
    if (d[1] != d[2] || d[1] < 3) return S_INVALID;
    tot = (size_t)d[1] + 6;
    if (n < tot) { *need = *exact = tot - n; return S_NEED; }
    if (n > tot) return S_INVALID;
    if (d[3] != 0x68 || d[n - 1] != 0x16 || !spec_long_cc(d[4])) return S_INVALID;
    ck = 0;
    for (k = 4; k < n - 2; k++) ck += d[k];
    if (ck != d[n - 2]) return S_INVALID;
    return d[1] == 3 ? S_CONTROL : S_LONG;
}
#endif
