/* Contracts of mbus_frame_data_parse, mbus_data_fixed_parse, the header part of mbus_data_variable_parse and
 * mbus_frame_direction (C11).  MODE 1: every frame, mbus_data_variable_parse replaced by its contract (C10);
 * MODE 2: variable replies of 0..12 bytes, nothing replaced; MODE 3: direction and null arguments. */
#include "vp.h"
#include "mbus-protocol.h"
static mbus_frame F, F0; static mbus_frame_data D, D0;
static int vcalls, vret; static mbus_frame *vf; static mbus_data_variable *vd;
#if MODE == 1 && defined(VP_CBMC)
int mbus_data_variable_parse(mbus_frame *f, mbus_data_variable *d) { vcalls++; vf = f; vd = d; return vret; }
#endif
#if MODE == 2 && defined(VP_CBMC)       /* replies without data behind the header make no record */
mbus_data_record *mbus_data_record_new(void) { VP_ASSERT(0, "no record in an empty reply"); return NULL; }
void mbus_data_record_free(mbus_data_record *r) { VP_ASSERT(r == NULL, "no record in an empty reply"); }
#endif
static int same_frame(void)
{
    size_t k; int ok = 1;
    for (k = 0; k < 252; k++) if (F.data[k] != F0.data[k]) ok = 0;
    return ok && F.start1 == F0.start1 && F.length1 == F0.length1 && F.length2 == F0.length2 && F.start2 == F0.start2 && F.control == F0.control && F.address == F0.address
        && F.control_information == F0.control_information && F.checksum == F0.checksum && F.stop == F0.stop && F.data_size == F0.data_size && F.type == F0.type && F.timestamp == F0.timestamp && F.next == F0.next;
}
static int same_fix(void)
{
    const u8 *a = (const u8 *)&D.data_fix, *b = (const u8 *)&D0.data_fix; size_t k; int ok = 1;
    for (k = 0; k < sizeof D.data_fix; k++) if (a[k] != b[k]) ok = 0;
    return ok;
}
#if MODE != 3
void harness(void)
{
    int r, s2m, ci; size_t n, k;
#if MODE == 1
    n = vp_range(0, 252);
#else
    n = vp_range(0, 12);
#endif
    for (k = 0; k < 252; k++) F.data[k] = vp_u8();
    F.control = vp_u8(); F.address = vp_u8(); F.control_information = vp_u8(); F.type = vp_range(1, 4); F.data_size = n;
    F.start1 = vp_u8(); F.checksum = vp_u8(); F.timestamp = vp_int(); F.next = NULL;
    if (VP_SEARCHING && vp_rnd(2)) { }
    vp_fill(&D.data_fix, sizeof D.data_fix); D.type = vp_int(); D.error = vp_int(); D.data_var.nrecords = vp_size(); vp_fill(&D.data_var.header, 12);
    vret = vp_range(0, 2); vret = -vret;
    F0 = F; D0 = D;
    r = mbus_frame_data_parse(&F, &D);
    s2m = !(F0.control & 0x40); ci = F0.control_information;
    VP_ASSERT(same_frame(), "the frame is unchanged");
    if (s2m && ci == 0x70) {
        VP_ASSERT(r == 0 && D.type == MBUS_DATA_TYPE_ERROR, "error report");
        VP_ASSERT(D.error == (n ? (int)F0.data[0] : 0), "error code, 0 when empty");
        VP_ASSERT(vcalls == 0, "no other parser");
    } else if (s2m && ci == 0x73) {
        VP_ASSERT((r == 0) == (n == 16) && r <= 0, "fixed data needs exactly 16 bytes");
        if (n == 16) {
            const u8 *b = F0.data;
            VP_ASSERT(D.type == MBUS_DATA_TYPE_FIXED, "fixed type");
            VP_ASSERT(!memcmp(D.data_fix.id_bcd, b, 4) && D.data_fix.tx_cnt == b[4] && D.data_fix.status == b[5] && D.data_fix.cnt1_type == b[6] && D.data_fix.cnt2_type == b[7]
                && !memcmp(D.data_fix.cnt1_val, b + 8, 4) && !memcmp(D.data_fix.cnt2_val, b + 12, 4), "fixed fields");
        }
        VP_ASSERT(vcalls == 0, "no other parser");
    } else if (s2m && ci == 0x72) {
#if MODE == 1 && defined(VP_CBMC)
        VP_ASSERT(vcalls == (n > 0) && (!vcalls || (vf == &F && vd == &D.data_var)), "the variable parser decides");
        VP_ASSERT(n == 0 ? r < 0 : r == vret, "its result is the result");
        if (r == 0) VP_ASSERT(D.type == MBUS_DATA_TYPE_VARIABLE, "variable type");
#else
        if (n <= 12) VP_ASSERT((r == 0) == (n == 12) && r <= 0, "the header needs 12 bytes");
        if (r == 0) {
            const u8 *b = F0.data; mbus_data_variable_header *h = &D.data_var.header;
            VP_ASSERT(D.type == MBUS_DATA_TYPE_VARIABLE, "variable type");
            if (n == 12) VP_ASSERT(D.data_var.nrecords == 0 && D.data_var.record == NULL && !D.data_var.more_records_follow, "no record");
            VP_ASSERT(!memcmp(h->id_bcd, b, 4) && h->manufacturer[0] == b[4] && h->manufacturer[1] == b[5] && h->version == b[6] && h->medium == b[7]
                && h->access_no == b[8] && h->status == b[9] && h->signature[0] == b[10] && h->signature[1] == b[11], "header fields");
        }
#endif
    } else VP_ASSERT(r < 0 && vcalls == 0, "other directions and control information codes are rejected");
    if (ci != 0x73) VP_ASSERT(same_fix(), "fixed block untouched");
    VP_COVER(s2m && ci == 0x70, "error"); VP_COVER(s2m && ci == 0x72 && r == 0, "variable");
#if MODE == 1
    VP_COVER(s2m && ci == 0x73 && r == 0, "fixed");
#endif
#ifdef VP_NATIVE
    if (s2m && ci == 0x72) mbus_data_record_free(D.data_var.record);
    D.data_var.record = NULL;
#endif
}
#else
void harness(void)
{
    F.type = vp_range(0, 6); F.control = vp_u8();
    F.type = F.type == 0 ? 0 : F.type;
    VP_ASSERT(mbus_frame_direction(&F) == (F.type == MBUS_FRAME_TYPE_ACK ? 0 : (F.control & 0x40)), "direction");
    VP_ASSERT(mbus_frame_direction(NULL) == -1, "null frame");
    VP_ASSERT(mbus_frame_data_parse(NULL, &D) < 0 && mbus_frame_data_parse(&F, NULL) < 0, "null arguments");
    VP_ASSERT(mbus_data_fixed_parse(NULL, &D.data_fix) < 0 && mbus_data_fixed_parse(&F, NULL) < 0, "null arguments");
    VP_ASSERT(mbus_data_variable_parse(NULL, &D.data_var) < 0 && mbus_data_variable_parse(&F, NULL) < 0, "null arguments");
    VP_COVER(F.type == 1, "reached");
}
#endif
