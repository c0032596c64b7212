/* Contracts of the unit, medium, error and length look-ups (C14): every code of every table, LO..HI, against the
 * tables of spec_units.h.  MODE 1 primary VIF, 2 FB, 3 FD, 4 medium / fixed data / error / length, 5 plain text VIF. */
#include "vp.h"
#include "mbus-protocol.h"
#ifdef VP_CBMC
#include "vp_printf.h"
#endif
#include "spec_units.h"
#ifndef LO
#define LO 0
#define HI 255
#endif
static mbus_value_information_block V;
static char E[300]; static size_t el;
VP_SPEC_BEGIN
static void e0(void) { el = 0; E[0] = 0; }
static void es(const char *s) { size_t k; for (k = 0; s[k]; k++) E[el++] = s[k]; E[el] = 0; }
static void eh(unsigned v, int up) { const char *d = up ? "0123456789ABCDEF" : "0123456789abcdef"; E[el++] = d[(v >> 4) & 15]; E[el++] = d[v & 15]; E[el] = 0; }
static int is(const char *t)
{
    size_t k;
    if (!t) return 0;
    for (k = 0; k < 256; k++) { if (t[k] != E[k]) return 0; if (!t[k]) break; }
    return k < 256;
}
VP_SPEC_END
static void spec_vif(unsigned c) { e0(); if (T_VIF[c & 127]) es(T_VIF[c & 127]); else { es("Unknown (VIF=0x"); eh(c, 1); es(")"); } }
static void spec_fb(unsigned c) { e0(); if (T_FB[c & 127]) es(T_FB[c & 127]); else { es("Reserved (0x"); eh(c, 0); es(")"); } }
static void spec_fd(unsigned c) { e0(); es(T_FD[c & 127]); }
static void spec_med(unsigned c) { e0(); if (T_MED[c]) es(T_MED[c]); else { es("Unknown medium (0x"); eh(c, 0); es(")"); } }
static void spec_err(unsigned c) { e0(); if (c < 16 && T_ERR[c]) es(T_ERR[c]); else { es("Unknown error (0x"); eh(c, 1); es(")"); } }
void harness(void)
{
    unsigned c; size_t k;
    vp_fill(V.vife, 10); V.nvife = vp_range(0, 10); V.vif = vp_u8();
#if MODE == 1
    for (c = LO; c <= HI; c++) {
        spec_vif(c);
        VP_ASSERT(is(mbus_vif_unit_lookup((unsigned char)c)), "primary VIF text");
        V.vif = (u8)c;
        if (c != 0x7C && c != 0xFB && c != 0xFC && c != 0xFD) VP_ASSERT(is(mbus_vib_unit_lookup(&V)), "VIB text is that of the primary VIF");
    }
    e0(); VP_ASSERT(is(mbus_vib_unit_lookup(NULL)), "null VIB");
#elif MODE == 2 || MODE == 3
    for (c = LO; c <= HI; c++) {
        V.vif = MODE == 2 ? 0xFB : 0xFD; V.nvife = 1 + (V.nvife + c) % 10; V.vife[0] = (u8)c;
#if MODE == 2
        spec_fb(c);
#else
        spec_fd(c);
#endif
        VP_ASSERT(is(mbus_vib_unit_lookup(&V)), "extended VIF text");
    }
    V.nvife = 0; e0(); es("Missing VIF extension"); VP_ASSERT(is(mbus_vib_unit_lookup(&V)), "missing extension");
#elif MODE == 4
    static const u8 len[16] = { 0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 8 };
    static const char *fm[16] = { "Other", "Oil", "Electricity", "Gas", "Heat", "Steam", "Hot Water", "Water", "H.C.A.", "Reserved", "Gas Mode 2", "Heat Mode 2", "Hot Water Mode 2", "Water Mode 2", "H.C.A. Mode 2", "Reserved" };
    static mbus_data_fixed X;
    for (c = LO; c <= HI; c++) {
        spec_med(c); VP_ASSERT(is(mbus_data_variable_medium_lookup((unsigned char)c)), "medium text");
        spec_err(c); VP_ASSERT(is(mbus_data_error_lookup((int)c)), "application error text");
        e0(); es(T_FIX[c & 63]); VP_ASSERT(is(mbus_data_fixed_unit((int)c)), "fixed data unit text");
        VP_ASSERT(mbus_dif_datalength_lookup((unsigned char)c) == len[c & 15], "data length of the DIF");
        e0(); es(c & 0x40 ? "Stored value" : "Actual value"); VP_ASSERT(is(mbus_data_fixed_function((int)c)), "fixed data function text");
        X.cnt1_type = (u8)((c << 6) | (c >> 4)); X.cnt2_type = (u8)((c & 0x0C) << 4 | (c >> 3));
        e0(); es(fm[c & 15]); VP_ASSERT(is(mbus_data_fixed_medium(&X)), "fixed data medium text");
    }
    VP_ASSERT(mbus_data_fixed_medium(NULL) == NULL, "null");
#elif MODE == 5
    static const char *pre[8] = { "my", "1e-5 ", "1e-4 ", "m", "1e-2 ", "1e-1 ", "", "10 " };
    size_t n = vp_range(0, 127);
    V.vif = VIF;
    if (V.vif & 0x80) VP_ASSUME(V.nvife > 0);
    vp_fill(V.custom_vif, sizeof V.custom_vif);
    for (k = 0; k < 127; k++) if (k < n && !V.custom_vif[k]) V.custom_vif[k] = 'x';
    V.custom_vif[n] = 0;
    for (c = LO; c <= HI; c++) {
        const char *t; size_t p = 0;
        V.vife[0] = (u8)c;
        t = mbus_vib_unit_lookup(&V);
        VP_ASSERT(t != NULL, "a text");
        e0();
        if (VIF == 0xFC && (c & 0x78) == 0x70) { es(pre[c & 7]); es(" "); }
        p = el;
        for (k = 0; k < p; k++) VP_ASSERT(t[k] == E[k], "decimal multiplier before the own text");
        for (k = 0; k <= 127; k++) if (k <= n) VP_ASSERT((u8)t[p + k] == V.custom_vif[k], "own text of the VIF");
    }
    VP_COVER(n == 127, "longest text");
#endif
    VP_COVER(1, "end");
}
