/* Contracts of the normalization functions (C15).  MODE 1: mbus_vif_unit_normalize, every code LO..HI of the tables;
 * MODE 2: mbus_fixed_normalize, every unit code; MODE 3: mbus_vib_unit_normalize over the contract of MODE 1;
 * MODE 4: the same for codes without a table entry / missing extension / plain text. */
#include "vp.h"
#include "mbus-protocol-aux.h"
#include "spec_norm.h"
int mbus_fixed_normalize(int medium_unit, long medium_value, char **unit_out, double *value_out, char **quantity_out);
static u64 dbits(double d) { u64 v; memcpy(&v, &d, 8); return v; }
VP_SPEC_BEGIN
static int eq(const char *a, const char *b) { size_t k; if (!a) return 0; for (k = 0; k < 200; k++) { if (a[k] != b[k]) return 0; if (!b[k]) break; } return k < 200; }
VP_SPEC_END
#ifdef VP_CBMC
char *vp_strdup(const char *s) { VP_ASSERT(s != NULL, "text to copy"); return (char *)s; }   /* the copy has the same text */
double vp_pow(double x, double y)
{
    static const double P[10] = { 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1e0, 1e1, 1e2, 1e3 };
    VP_ASSERT(x == 10.0 && y >= -6.0 && y <= 3.0 && y == (double)(int)y, "model-limit pow: whole powers of ten");
    return P[(int)y + 6];
}
#define SAME(a, b) (dbits(a) == dbits(b) || (a) == (b) || ((a) != (a) && (b) != (b)))
#else
static double absd(double x) { return x < 0 ? -x : x; }
static int SAME(double a, double b) { return a == b || (a != a && b != b) || absd(a - b) <= 1e-12 * absd(b); }
#endif
static double drawd(void) {
#ifdef VP_CBMC
    u64 r = vp_raw(); double d; memcpy(&d, &r, 8); return d;
#else
    u64 r = vp_raw(); double d; if (!vp_replaying) return (double)(long long)r; memcpy(&d, &r, 8); return d;
#endif
}
static char *u0, *q0;
#ifdef VP_NATIVE
#define FREE(x) free(x)
#else
#define FREE(x) do { } while (0)
#endif
#if MODE == 3 && defined(VP_CBMC)
static int calls, code, res; static double given, made; static char *mu, *mq;
int mbus_vif_unit_normalize(int vif, double value, char **unit_out, double *value_out, char **quantity_out)
{
    calls++; code = vif; given = value;
    VP_ASSERT(unit_out == &u0 && quantity_out == &q0, "results go to the caller");
    *unit_out = "u"; *quantity_out = "q"; *value_out = made;
    return res;
}
#endif
void harness(void)
{
    double v = drawd(), o; int c, r;
#if MODE == 1
    for (c = LO; c <= HI; c++) {
        const struct norm *n = &T_NORM[(c >> 8) * 128 + (c & 127)];
        u0 = q0 = NULL;
        r = mbus_vif_unit_normalize(c, v, &u0, &o, &q0);
        if (n->u) {
            VP_ASSERT(r == 0, "a code of the tables is known");
            VP_ASSERT(SAME(o, v * n->f), "value times the power of ten of the code");
            VP_ASSERT(eq(u0, n->u) && eq(q0, n->q), "base unit and quantity of the code");
        } else VP_ASSERT(r != 0, "a code outside the tables is reported");
        FREE(u0); FREE(q0);
    }
    VP_ASSERT(mbus_vif_unit_normalize(0, v, NULL, &o, &q0) != 0 && mbus_vif_unit_normalize(0, v, &u0, NULL, &q0) != 0 && mbus_vif_unit_normalize(0, v, &u0, &o, NULL) != 0, "null arguments");
#elif MODE == 2
    long m = (long)vp_raw(); unsigned up = (unsigned)vp_range(0, 3);
    for (c = LO; c <= HI; c++) {
        const struct norm *n = &T_FIXN[c];
        u0 = q0 = NULL; o = 0;
        r = mbus_fixed_normalize((int)(up << 6) | c, m, &u0, &o, &q0);
        if (n->u) {
            VP_ASSERT(r == 0, "a unit code of the table is known");
            VP_ASSERT(SAME(o, (double)m * n->f), "value times the power of ten of the code");
            VP_ASSERT(eq(u0, n->u) && eq(q0, n->q), "base unit and quantity of the code");
        } else VP_ASSERT(r != 0, "a code without number is reported");
        FREE(u0); FREE(q0);
    }
    VP_ASSERT(mbus_fixed_normalize(2, m, NULL, &o, &q0) != 0 && mbus_fixed_normalize(2, m, &u0, NULL, &q0) != 0 && mbus_fixed_normalize(2, m, &u0, &o, NULL) != 0, "null arguments");
#elif MODE == 3
    static const double P[8] = { 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1e0, 1e1 };
    static mbus_value_information_block V, V0; int e; double w;
    V.vif = vp_u8(); vp_fill(V.vife, 10); V.nvife = vp_range(0, 10); vp_fill(V.custom_vif, 128); V.custom_vif[127] = 0;
    if ((V.vif & 0x80) && V.vif != 0xFD && V.vif != 0xFB) VP_ASSUME(V.nvife > 0);
    if (!(V.vif & 0x80)) VP_ASSUME(V.nvife == 0);
#ifdef VIFE
    V.vife[0] = VIFE;
#if VC == 0
    VP_ASSUME(!(V.vif & 0x80) || V.vif == 0xFD || V.vif == 0xFB);
#elif VC == 1
    V.vif = 0xFC;
#else
    VP_ASSUME((V.vif & 0x80) && V.vif != 0xFD && V.vif != 0xFB && V.vif != 0xFC);
#endif
#else
    VP_ASSUME((V.vife[0] & 127) < 0x70 || (V.vife[0] & 127) == 0x7C || (V.vife[0] & 127) >= 0x7E);
#endif
    o = drawd(); r = 0; u0 = q0 = NULL;
    e = V.vife[0] & 127;
#ifdef VP_CBMC
    made = drawd();
#ifndef VIFE
    res = vp_bit() ? -1 : 0;
#endif
#endif
    V0 = V;
    r = mbus_vib_unit_normalize(&V, v, &u0, &o, &q0);
    VP_ASSERT(!memcmp(V.custom_vif, V0.custom_vif, 128) && V.vif == V0.vif && V.nvife == V0.nvife, "the block is not changed");
    if ((V.vif == 0xFD || V.vif == 0xFB) && V.nvife == 0) { VP_ASSERT(r != 0, "a missing extension is reported"); goto end; }
    if (V.vif == 0x7C || V.vif == 0xFC) {
        VP_ASSERT(r == 0 && u0 && q0 && eq(u0, "-"), "plain text");
        for (c = 0; c < 128; c++) { if ((u8)q0[c] != V.custom_vif[c]) VP_ASSERT(0, "plain text"); if (!q0[c]) break; }
        w = v;
    } else {
        c = V.vif == 0xFD ? 0x100 | e : V.vif == 0xFB ? 0x200 | e : V.vif & 127;
#ifdef VP_CBMC
        VP_ASSERT(calls == 1 && (code & 0xF7F) == c && (given == v || (given != given && v != v)), "the code of the block is looked up");
        VP_ASSERT((r == 0) == (res == 0), "an unknown code is reported");
        if (r != 0) goto end;
        VP_ASSERT(eq(u0, "u") && eq(q0, "q"), "unit and quantity of the code");
        w = made;
#else
        { const struct norm *n = &T_NORM[(c >> 8) * 128 + (c & 127)];
          VP_ASSERT((r == 0) == (n->u != NULL), "an unknown code is reported");
          if (r != 0) goto end;
          VP_ASSERT(eq(u0, n->u) && eq(q0, n->q), "unit and quantity of the code");
          w = v * n->f; }
#endif
    }
    if ((V.vif & 0x80) && V.vif != 0xFD && V.vif != 0xFB) {
        if (e >= 0x70 && e <= 0x77) w *= P[e & 7];
        else if (e >= 0x78 && e <= 0x7B) w += P[3 + (e & 3)];
        else if (e == 0x7D) w *= 1000.0;
    }
    VP_ASSERT(SAME(o, w), "the value with the correction of the extension");
    VP_ASSERT(mbus_vib_unit_normalize(NULL, v, &u0, &o, &q0) != 0 && mbus_vib_unit_normalize(&V, v, NULL, &o, &q0) != 0 && mbus_vib_unit_normalize(&V, v, &u0, NULL, &q0) != 0
        && mbus_vib_unit_normalize(&V, v, &u0, &o, NULL) != 0, "null arguments");
#ifndef VIFE
    VP_COVER((V.vif & 0x80) && V.vif != 0xFD, "extension"); VP_COVER(V.vif == 0xFB, "FB"); VP_COVER(V.vif == 0x7C, "plain text");
#else
    VP_COVER(1, "end");
#endif
end:
    FREE(u0); FREE(q0);
#endif
#if MODE < 3
    VP_COVER(1, "end");
#endif
}
