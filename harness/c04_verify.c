/* Contract of mbus_frame_verify (C04): 0 exactly on a consistent frame, frame unchanged. */
#include "vp.h"
#include "spec_frame.h"
int vp_snprintf_any(char *s, size_t n, const char *f, ...) { (void)s; (void)n; (void)f; return 0; }

static int spec_consistent(const mbus_frame *f)
{
    u8 ck = 0; size_t k;
    if (f->type == MBUS_FRAME_TYPE_ACK) return f->start1 == 0xE5;
    if (f->type == MBUS_FRAME_TYPE_SHORT)
        return f->start1 == 0x10 && spec_short_cc(f->control) && f->stop == 0x16
            && f->checksum == (u8)(f->control + f->address);
    if (f->type != MBUS_FRAME_TYPE_CONTROL && f->type != MBUS_FRAME_TYPE_LONG) return 0;
    if (f->start1 != 0x68 || f->start2 != 0x68 || f->stop != 0x16 || !spec_long_cc(f->control)) return 0;
    if (f->length1 != f->length2) return 0;
    if (f->type == MBUS_FRAME_TYPE_CONTROL) {
        if (f->length1 != 3) return 0;
        return f->checksum == (u8)(f->control + f->address + f->control_information);
    }
    if (f->length1 != (u8)(f->data_size + 3)) return 0;
    ck = f->control; ck += f->address; ck += f->control_information;
    for (k = 0; k < f->data_size; k++) ck += f->data[k];
    return f->checksum == ck;
}

void harness(void)
{
    static mbus_frame f; static u8 copy[MBUS_FRAME_DATA_LENGTH]; u8 h[9];
    size_t k, m = vp_mark(); int r, same = 1, type; size_t ds;
    vp_fill(&f.start1, 9);
#ifdef TYPE
    f.type = TYPE;
#else
    f.type = vp_int();
    VP_ASSUME(f.type < 1 || f.type > 4);
#endif
#ifdef SIZE
    f.data_size = SIZE;
    vp_fill(f.data, SIZE);
#else
    f.data_size = vp_range(0, 252);
    vp_fill(f.data, 252);
#endif
    if (VP_SEARCHING) {
        static const u8 cc[6] = {0x53, 0x73, 8, 0x18, 0x28, 0x38};
        static const u8 sc[5] = {0x40, 0x5a, 0x7a, 0x5b, 0x7b};
        f.start1 = f.type == 1 ? 0xE5 : f.type == 2 ? 0x10 : 0x68; f.start2 = 0x68; f.stop = 0x16;
        f.control = f.type == 2 ? sc[vp_rnd(5)] : cc[vp_rnd(6)];
        f.length1 = f.length2 = f.type == 3 ? 3 : f.data_size + 3;
        f.checksum = f.control + f.address + (f.type > 2 ? f.control_information : 0);
        if (f.type == 4) for (k = 0; k < f.data_size; k++) f.checksum += f.data[k];
        if (!vp_rnd(4)) f.control = vp_rnd(256);
        if (!vp_rnd(2)) (&f.start1)[vp_rnd(9)] ^= 1u << vp_rnd(8);
        if (vp_rnd(2)) { f.checksum = f.control + f.address + (f.type > 2 ? f.control_information : 0);
            if (f.type == 4) for (k = 0; k < f.data_size; k++) f.checksum += f.data[k]; }
        vp_relog(m, &f.start1, 9);
    }
    memcpy(h, &f.start1, 9); memcpy(copy, f.data, 252); type = f.type; ds = f.data_size;
    r = mbus_frame_verify(&f);
    VP_ASSERT((r == 0) == spec_consistent(&f), "zero exactly on a consistent frame");
    for (k = 0; k < 252; k++) if (f.data[k] != copy[k]) same = 0;
    VP_ASSERT(same && !memcmp(h, &f.start1, 9) && f.type == type && f.data_size == ds && f.next == NULL, "frame unchanged");
    VP_ASSERT(mbus_frame_verify(NULL) != 0, "null is not a frame");
#ifdef TYPE
    VP_COVER(r == 0, "consistent frame exists");
#endif
    VP_COVER(r != 0, "inconsistent frame exists");
}
