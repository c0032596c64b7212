/* Contracts of the secondary address functions (C19).  MODE 1: mbus_is_secondary_address, texts of any length;
 * MODE 2: mbus_frame_select_secondary_pack; MODE 3: mbus_frame_get_secondary_address, and packing its result. */
#include "vp.h"
#include "mbus-protocol.h"
#ifdef VP_CBMC
#define VP_HEXBYTE
#define VP_HEX8
#include "vp_printf.h"
#endif
#define VPM_N 4
#include "vp_mem.h"
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static char T[40]; static size_t L;
#ifdef VP_CBMC
size_t vp_strlen(const char *s) { VP_ASSERT(s == T, "the length of the text"); return L; }
char *vp_strncpy(char *d, const char *s, size_t n)
{
    size_t k; int end = 0;
    VP_ASSERT(n <= 16 && __CPROVER_w_ok(d, n), "room for the copy");
    for (k = 0; k < n; k++) { if (!end && !s[k]) end = 1; d[k] = end ? 0 : s[k]; }
    return d;
}
long vp_strtol(const char *s, char **e, int base)
{
    long v = 0; int k;
    VP_ASSERT(base == 16 && e == NULL, "model-limit strtol");
    for (k = 0; k < 4 && hexv(s[k]) >= 0; k++) v = v * 16 + hexv(s[k]);
    VP_ASSERT(s[k] == 0 && k > 0, "model-limit strtol");
    return v;
}
#endif
static void text(void)
{
    size_t k;
#ifdef VP_CBMC
    L = vp_size();
    for (k = 0; k < 20; k++) { T[k] = (char)vp_u8(); if (k < L) VP_ASSUME(T[k] != 0); if (k == L) VP_ASSUME(T[k] == 0); }
#else
    size_t m;
    L = (size_t)vp_raw(); m = vp_mark();
    for (k = 0; k < 20; k++) T[k] = (char)vp_u8();
    if (VP_SEARCHING) { for (k = 0; k < 16; k++) T[k] = "0123456789abcdefABCDEFF00gG@`/:"[vp_rnd(vp_rnd(9) ? 25 : 31)]; T[16] = vp_rnd(9) ? 0 : 'A'; if (!vp_rnd(9)) T[vp_rnd(16)] = 0; vp_relog(m, T, 20); }
    T[20] = 0; L = strlen(T);
#endif
}
static mbus_frame F, G;
static int same(void)
{
    size_t k; int s = F.start1 == G.start1 && F.length1 == G.length1 && F.length2 == G.length2 && F.start2 == G.start2 && F.control == G.control && F.address == G.address
        && F.control_information == G.control_information && F.checksum == G.checksum && F.stop == G.stop && F.data_size == G.data_size && F.type == G.type && F.timestamp == G.timestamp && F.next == G.next;
    for (k = 0; k < MBUS_FRAME_DATA_LENGTH; k++) if (F.data[k] != G.data[k]) s = 0;
    return s;
}
static void packed(const char *t)
{
    int k;
    VP_ASSERT(F.control == 0x73 && F.address == 0xFD && F.control_information == 0x52 && F.data_size == 8, "a selection to the network layer address");
    for (k = 0; k < 4; k++) VP_ASSERT(F.data[k] == hexv(t[6 - 2 * k]) * 16 + hexv(t[7 - 2 * k]), "the id, least significant byte first");
    for (k = 4; k < 8; k++) VP_ASSERT(F.data[k] == hexv(t[2 * k]) * 16 + hexv(t[2 * k + 1]), "manufacturer, version and medium");
    G.control = F.control; G.address = F.address; G.control_information = F.control_information; G.data_size = 8; memcpy(G.data, F.data, 8);
    VP_ASSERT(same(), "nothing else of the frame changes");
}
#if MODE == 3
static u8 hd[12]; static int pr, parses;
#ifdef VP_CBMC
int mbus_frame_data_parse(mbus_frame *frame, mbus_frame_data *data)
{
    VP_ASSERT(frame == &F && data->data_var.record == NULL && data->type == 0, "the frame of the caller, empty data"); parses++;
    if (pr != 0 && pr != -2) return pr;
    data->type = MBUS_DATA_TYPE_VARIABLE;
    memcpy(data->data_var.header.id_bcd, hd, 4); memcpy(data->data_var.header.manufacturer, hd + 4, 2);
    data->data_var.header.version = hd[6]; data->data_var.header.medium = hd[7];
    return pr;
}
#endif
#endif
void harness(void)
{
    int r, ok, k;
#if MODE < 3
    text();
    ok = L == 16;
    for (k = 0; k < 16; k++) if (k < (int)L && hexv(T[k]) < 0) ok = 0;
#endif
#if MODE == 1
    r = mbus_is_secondary_address(T);
    VP_ASSERT((r != 0) == ok, "exactly 16 hexadecimal digits");
    VP_ASSERT(mbus_is_secondary_address(NULL) == 0, "no text");
    VP_COVER(ok, "address"); VP_COVER(L == 17, "long"); VP_COVER(L == 0, "empty");
#elif MODE == 2
    vp_fill(&F.start1, 9); vp_fill(F.data, MBUS_FRAME_DATA_LENGTH); F.data_size = vp_range(0, 252); F.type = vp_int(); F.timestamp = (time_t)vp_raw();
    memcpy(&G, &F, sizeof F);
    r = mbus_frame_select_secondary_pack(&F, T);
    VP_ASSERT((r == 0) == ok, "success exactly for an address");
    if (!ok) VP_ASSERT(r == -1 && same(), "an invalid text is rejected and the frame unchanged");
    else packed(T);
    VP_ASSERT(mbus_frame_select_secondary_pack(NULL, T) == -1 && mbus_frame_select_secondary_pack(&F, NULL) == -1, "null arguments");
    VP_COVER(ok, "address"); VP_COVER(!ok, "other");
#else
    char *t; int fl = (int)(vp_raw() & 7); u8 ci = vp_u8(); static char keep[17];
    vp_fill(hd, 12); pr = -(int)vp_range(0, 4);
    memset(&F, 0, sizeof F); F.type = 4; F.control = 8; F.control_information = 0x72; F.data_size = 12; memcpy(F.data, hd, 12);
    if (fl == 1) F.control_information = ci;
    vpm_reset(fl == 0 ? 0 : -1);
#ifdef VP_NATIVE
    pr = 0; hd[10] = hd[11] = 0; F.data[10] = F.data[11] = 0;
#endif
    t = mbus_frame_get_secondary_address(&F);
    VP_ASSERT(vpm_live == 0, "nothing leaks");
    ok = fl != 0 && F.control_information == 0x72 && pr != -1;
    if (pr != 0 && pr != -1) { VP_ASSERT(ok || t == NULL, "no address"); return; }      /* a reply cut short: unspecified */
    VP_ASSERT((t != NULL) == ok, "an address exactly for a variable-data reply");
    if (!ok) return;
    for (k = 0; k < 16; k++) { VP_ASSERT(hexv(t[k]) >= 0, "sixteen hexadecimal digits"); keep[k] = t[k]; }
    VP_ASSERT(t[16] == 0, "sixteen hexadecimal digits");
    for (k = 0; k < 4; k++) VP_ASSERT(hd[k] == hexv(t[6 - 2 * k]) * 16 + hexv(t[7 - 2 * k]), "the id");
    for (k = 4; k < 8; k++) VP_ASSERT(hd[k] == hexv(t[2 * k]) * 16 + hexv(t[2 * k + 1]), "manufacturer, version and medium");
    VP_ASSERT(mbus_frame_get_secondary_address(NULL) == NULL, "no frame");
    VP_COVER(1, "address");
#endif
}
