/* Contract of mbus_parse over complete and over-long buffers (C01) and prefixes (C02).
 * The buffer is exactly data_size bytes long, so an over-read is a failed obligation. */
#include "vp.h"
#include "spec_frame.h"
int vp_snprintf_any(char *s, size_t n, const char *f, ...) { (void)s; (void)n; (void)f; return 0; }

static void check(u8 *d, size_t n)
{
    static mbus_frame f;
    size_t need, exact, k;
    int r, c, eq = 1;
    vp_fill(&f.start1, 9);
    f.type = vp_int(); f.data_size = vp_size(); f.next = NULL;
    if (VP_SEARCHING && (n & 1)) memset(f.data, vp_rnd(256), sizeof f.data);
    c = spec_classify(d, n, &need, &exact);
    r = mbus_parse(&f, d, n);
#if MODE_NEED
    VP_ASSERT(!(c == S_NEED) || r > 0, "prefix gives a positive count");
    VP_ASSERT(!(c == S_NEED) || (size_t)r <= need, "count never exceeds the missing bytes");
    VP_ASSERT(!(c == S_NEED && exact) || (size_t)r == exact, "count is the number of missing bytes");
    VP_ASSERT(!(r > 0) || c == S_NEED, "positive only for a buffer shorter than announced");
    VP_COVER(c == S_NEED, "need");
#else
    if (c == S_NEED) return;
    VP_ASSERT((r == 0) == (c > 0), "accepted exactly when valid");
    VP_ASSERT(c > 0 || r < 0, "anything else is negative");
    VP_COVER(c < 0, "invalid");
#if !defined(NOACC)
    VP_COVER(c > 0, "accepted");
#endif
    if (c > 0) {
        VP_ASSERT(f.type == c, "type");
        VP_ASSERT(f.start1 == d[0], "start1");
        VP_ASSERT(f.next == NULL, "next");
        if (c == S_SHORT) {
            VP_ASSERT(f.control == d[1] && f.address == d[2] && f.checksum == d[3] && f.stop == d[4], "short fields");
        }
        if (c >= S_CONTROL) {
            VP_ASSERT(f.length1 == d[1] && f.length2 == d[2] && f.start2 == d[3], "length fields");
            VP_ASSERT(f.control == d[4] && f.address == d[5] && f.control_information == d[6], "header fields");
            VP_ASSERT(f.checksum == d[n - 2] && f.stop == d[n - 1], "checksum and stop fields");
            VP_ASSERT(f.data_size == n - 9, "data size");
            for (k = 0; k + 9 < n; k++) if (f.data[k] != d[7 + k]) eq = 0;
            VP_ASSERT(eq, "data bytes");
        }
    }
#endif
}

void harness(void)
{
    size_t n;
    u8 *d;
#if defined(LEN1)               /* complete control/long frames, length byte LEN1 */
    static u8 buf[LEN1 + 6];
    size_t k, m = vp_mark();
    n = sizeof buf; d = buf;
    for (k = 0; k < n; k++) d[k] = (k == 0) ? 0x68 : (k == 1) ? LEN1 : vp_u8();
    if (VP_SEARCHING && vp_rnd(8)) {
        static const u8 cc[6] = {0x53, 0x73, 8, 0x18, 0x28, 0x38};
        u8 ck = 0;
        d[2] = LEN1; d[3] = 0x68; d[n - 1] = 0x16; d[4] = cc[vp_rnd(6)];
        for (k = 4; k < n - 2; k++) ck += d[k];
        d[n - 2] = ck;
        if (!vp_rnd(2)) d[vp_rnd(n)] ^= 1u << vp_rnd(8);
        d[0] = 0x68; d[1] = LEN1;
        vp_relog(m, d + 2, n - 2);
    }
    check(d, n);
#elif defined(FIXN)             /* all byte strings of one small size */
    static u8 buf[FIXN];
    n = FIXN;
    d = buf;
#ifdef VP_CBMC
    vp_fill(d, n);
#else
    { size_t m = vp_mark(), k; vp_fill(d, n);
      if (VP_SEARCHING && vp_rnd(4)) { static const u8 cc[5] = {0x40, 0x5a, 0x7a, 0x5b, 0x7b};
        d[0] = 0x10; if (n > 1) d[1] = cc[vp_rnd(5)]; if (n > 3) d[3] = (n > 2 ? d[1] + d[2] : 0); if (n > 4) d[4] = 0x16;
        if (!vp_rnd(3)) d[vp_rnd(n)] ^= 1u << vp_rnd(8); vp_relog(m, d, n); } }
#endif
    check(d, n);
#else                           /* every size NLO..NHI, any contents */
    static u8 buf[300];
    size_t m = vp_mark();
    vp_fill(buf, sizeof buf);
    n = vp_range(NLO, NHI);
#if ENDBASE
    d = buf + (300 - n);        /* ends at the end of the object: an over-read is out of bounds */
#else
    d = buf;                    /* bytes past n are arbitrary: the result cannot depend on them */
#endif
    if (VP_SEARCHING) {
        if (vp_rnd(4)) { d[0] = vp_rnd(4) ? 0x68 : 0x10; if (n > 2 && vp_rnd(8)) { d[1] = vp_rnd(3) ? vp_rnd(256) : n - 6; d[2] = d[1]; }
            if (vp_rnd(2) && n >= 9) { static const u8 cc[6] = {0x53, 0x73, 8, 0x18, 0x28, 0x38}; u8 ck = 0; size_t k;
                d[3] = 0x68; d[n - 1] = 0x16; d[4] = cc[vp_rnd(6)]; for (k = 4; k < n - 2; k++) ck += d[k]; d[n - 2] = ck;
                if (!vp_rnd(2)) d[vp_rnd(n)] ^= 1u << vp_rnd(8); } }
        vp_relog(m, buf, sizeof buf);
    }
    check(d, n);
#endif
}
