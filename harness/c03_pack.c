/* Contract of mbus_frame_pack (C03): exact wire image, nothing behind it; the image is a valid frame. */
#include "vp.h"
#include "spec_frame.h"
#define BUF 272
static int vp_badtype;
void harness(void)
{
    static mbus_frame f, f0; static u8 b[BUF], old[BUF];
    size_t n, size, k, need, ex, m; int r, ok = 1; u8 ck; long want = -1;
    vp_badtype = vp_int(); VP_ASSUME(vp_badtype < 1 || vp_badtype > 4);
    m = vp_mark(); vp_fill(&f.start1, 9);
    f.type = TYPE;
    f.data_size = vp_range(NLO, NHI);
    size = vp_range(0, BUF);
    vp_fill(f.data, 252); vp_fill(b, BUF);
    if (VP_SEARCHING) {
        static const u8 cc[6] = {0x53, 0x73, 8, 0x18, 0x28, 0x38}; static const u8 sc[5] = {0x40, 0x5a, 0x7a, 0x5b, 0x7b};
        f.start1 = TYPE == 1 ? 0xE5 : TYPE == 2 ? 0x10 : 0x68; f.start2 = 0x68; f.stop = 0x16;
        f.control = TYPE == 2 ? sc[vp_rnd(5)] : cc[vp_rnd(6)];
        vp_relog(m, &f.start1, 9);
    }
    n = f.data_size; f0 = f; memcpy(old, b, BUF);
    r = mbus_frame_pack(&f, b, size);
#if TYPE == 1
    want = 1;
    ok = b[0] == f0.start1;
#elif TYPE == 2
    want = 5;
    ok = b[0] == f0.start1 && b[1] == f0.control && b[2] == f0.address && b[3] == (u8)(f0.control + f0.address) && b[4] == f0.stop;
#elif TYPE == 3 || TYPE == 4
    want = TYPE == 3 ? 9 : n <= 252 ? 9 + (long)n : -1;
    if (want > 0) {
        u8 L = (u8)(want - 6);
        ck = f0.control; ck += f0.address; ck += f0.control_information;
        if (TYPE == 4) for (k = 0; k < n; k++) ck += f0.data[k];
        ok = b[0] == f0.start1 && b[1] == L && b[2] == L && b[3] == f0.start2 && b[4] == f0.control && b[5] == f0.address
            && b[6] == f0.control_information && b[want - 2] == ck && b[want - 1] == f0.stop;
        if (TYPE == 4) for (k = 0; k < n; k++) if (b[7 + k] != f0.data[k]) ok = 0;
    }
#endif
    if (want > 0 && size >= (size_t)want) {
        VP_ASSERT(r == want, "returns the wire length");
        VP_ASSERT(ok, "writes exactly the wire image");
        for (k = 0; k < BUF; k++) if (k >= (size_t)want && b[k] != old[k]) ok = 0;
        VP_ASSERT(ok, "nothing behind the frame");
        /* the image is a valid frame: with the contract of mbus_parse (C01) it parses back */
        if ((TYPE == 1 && f0.start1 == 0xE5) || (TYPE == 2 && f0.start1 == 0x10 && f0.stop == 0x16 && spec_short_cc(f0.control)) ||
            (TYPE >= 3 && f0.start1 == 0x68 && f0.start2 == 0x68 && f0.stop == 0x16 && spec_long_cc(f0.control))) {
            int t = spec_classify(b, want, &need, &ex);
            VP_ASSERT(t == (TYPE == 4 && n == 0 ? S_CONTROL : TYPE), "the image is a valid frame of that type");
#ifdef VP_NATIVE
            { mbus_frame g; memset(&g, 0, sizeof g);
              VP_ASSERT(mbus_parse(&g, b, want) == 0 && g.type == t, "parses back");
              VP_ASSERT(TYPE < 2 || (g.control == f0.control && g.address == f0.address), "parses back to the same header");
              VP_ASSERT(TYPE < 4 || (g.data_size == n && !memcmp(g.data, f0.data, n)), "parses back to the same data"); }
#endif
            VP_COVER(1, "valid image");
        }
    } else {
        VP_ASSERT(r < 0, "rejected");
        for (k = 0; k < BUF; k++) if (k >= size && b[k] != old[k]) ok = -1;
        VP_ASSERT(ok != -1, "nothing outside the buffer");
        VP_COVER(1, "rejected");
    }
    VP_ASSERT(!memcmp(f.data, f0.data, 252) && f.data_size == n && f.control == f0.control && f.address == f0.address
              && f.control_information == f0.control_information && f.start1 == f0.start1 && f.stop == f0.stop && f.type == f0.type, "frame content unchanged");
    VP_ASSERT(mbus_frame_pack(NULL, b, size) < 0 && mbus_frame_pack(&f, NULL, size) < 0, "null rejected");
}
