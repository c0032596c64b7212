/* Contract of mbus_frame_internal_pack (C29).  MODE 1: null arguments, error and fixed data and unknown types, packed and
 * parsed again by the real code; MODE 2: variable data, the record loop cut (position, data and record arbitrary), one
 * step compared with the encoding; MODE 3: lemma: splitting (contract of C10) gives back what the encoding wrote. */
#include "spec_var.h"
#include "mbus-protocol.h"
static mbus_frame F; static mbus_frame_data D, D2; static mbus_data_record R, E; static size_t K, K2;
static size_t enclen(const mbus_data_record *r, size_t cl)
{
    u8 d = r->drh.dib.dif;
    if (d == 0x0F || d == 0x1F) return 1 + r->data_len;
    return 1 + r->drh.dib.ndife + 1 + ((r->drh.vib.vif & 0x7F) == 0x7C ? 1 + cl : 0) + r->drh.vib.nvife + r->data_len;
}
static u8 encbyte(const mbus_data_record *r, size_t cl, size_t o)        /* byte o of the encoding of r; o < enclen */
{
    u8 d = r->drh.dib.dif;
    if (o == 0) return d;
    o--;
    if (d == 0x0F || d == 0x1F) return r->data[o];
    if (o < r->drh.dib.ndife) return r->drh.dib.dife[o];
    o -= r->drh.dib.ndife;
    if (o == 0) return r->drh.vib.vif;
    o--;
    if ((r->drh.vib.vif & 0x7F) == 0x7C) {
        if (o == 0) return (u8)cl;
        o--;
        if (o < cl) return r->drh.vib.custom_vif[cl - 1 - o];
        o -= cl;
    }
    if (o < r->drh.vib.nvife) return r->drh.vib.vife[o];
    return r->data[o - r->drh.vib.nvife];
}
#if MODE == 1
void harness(void)
{
    int r, k, what = (int)(vp_raw() & 7), t = vp_int();
    D.type = t; D.error = vp_u8(); vp_fill(&D.data_fix, sizeof D.data_fix); D.data_var.record = NULL;
    F.type = MBUS_FRAME_TYPE_LONG; F.control = 0x08; F.control_information = vp_bit() ? 0x73 : 0x77; F.data_size = 7; F.next = NULL;
    if (what == 0) { r = mbus_frame_internal_pack(NULL, &D); VP_ASSERT(r < 0, "null arguments are rejected"); return; }
    if (what == 1) { r = mbus_frame_internal_pack(&F, NULL); VP_ASSERT(r < 0, "null arguments are rejected"); return; }
    if (what == 2) { D.type = MBUS_DATA_TYPE_ERROR; F.control_information = 0x70; }
    else if (what < 6) D.type = MBUS_DATA_TYPE_FIXED;
    if (D.type == MBUS_DATA_TYPE_VARIABLE) return;                                   /* MODE 2 */
    r = mbus_frame_internal_pack(&F, &D);
    if (D.type != MBUS_DATA_TYPE_ERROR && D.type != MBUS_DATA_TYPE_FIXED) { VP_ASSERT(r < 0, "an unknown type is rejected"); return; }
    VP_ASSERT(r == 0, "packed");
    if (D.type == MBUS_DATA_TYPE_ERROR) {
        VP_ASSERT(F.data_size == 1 && F.data[0] == (u8)D.error, "the error code");
        if (F.control_information == 0x70) { r = mbus_frame_data_parse(&F, &D2); VP_ASSERT(r == 0 && D2.type == MBUS_DATA_TYPE_ERROR && (u8)D2.error == (u8)D.error, "parsed again"); VP_COVER(1, "error data"); }
    } else {
        mbus_data_fixed *f = &D.data_fix, *g = &D2.data_fix; const u8 *b = F.data;
        VP_ASSERT(F.data_size == 16, "16 bytes");
        for (k = 0; k < 4; k++) VP_ASSERT(b[k] == f->id_bcd[k] && b[8 + k] == f->cnt1_val[k] && b[12 + k] == f->cnt2_val[k], "identification and counters");
        VP_ASSERT(b[4] == f->tx_cnt && b[5] == f->status && b[6] == f->cnt1_type && b[7] == f->cnt2_type, "status and types");
        r = mbus_frame_data_parse(&F, &D2);
        if (F.control_information == 0x73) {
        VP_ASSERT(r == 0 && D2.type == MBUS_DATA_TYPE_FIXED, "parsed again");
        for (k = 0; k < 4; k++) VP_ASSERT(g->id_bcd[k] == f->id_bcd[k] && g->cnt1_val[k] == f->cnt1_val[k] && g->cnt2_val[k] == f->cnt2_val[k], "the same data");
        VP_ASSERT(g->tx_cnt == f->tx_cnt && g->status == f->status && g->cnt1_type == f->cnt1_type && g->cnt2_type == f->cnt2_type, "the same data");
        VP_COVER(1, "fixed data"); }
    }
}
#elif defined(VP_CBMC)
static size_t CL;
/* an arbitrary record as the parser makes it (C10): extension bits agree with the counts, the payload has the length of the DIF */
static void wf(mbus_data_record *r)
{
    u8 d; int k;
    d = vp_u8(); VP_ASSUME(d != 0x2F);
#if KIND == 1
    VP_ASSUME(d == 0x0F || d == 0x1F);
#else
    VP_ASSUME(d != 0x0F && d != 0x1F);
#endif
    r->drh.dib.dif = d; r->drh.dib.ndife = vp_range(0, 10); r->drh.vib.nvife = vp_range(0, 10); r->drh.vib.vif = vp_u8();
    vp_fill(r->drh.dib.dife, 10); vp_fill(r->drh.vib.vife, 10); vp_fill(r->data, 240);
    for (k = 0; k < 128; k++) r->drh.vib.custom_vif[k] = vp_u8();
    CL = vp_range(CLO, CHI);
    VP_ASSUME(r->drh.vib.custom_vif[CL] == 0);
    for (k = 0; k < 128; k++) VP_ASSUME((size_t)k >= CL || r->drh.vib.custom_vif[k] != 0);
#if KIND == 1
    r->data_len = vp_range(DLO, DHI);
#elif KIND == 2
    VP_ASSUME((d & 15) == 13); r->data_len = spec_lvar(r->data[0]); VP_ASSUME(r->data_len >= DLO && r->data_len <= DHI);
#else
    VP_ASSUME((d & 15) != 13); r->data_len = spec_LEN[d & 15];
#endif
#if KIND != 1
    VP_ASSUME(((d & 0x80) != 0) == (r->drh.dib.ndife > 0)); VP_ASSUME(((r->drh.vib.vif & 0x80) != 0) == (r->drh.vib.nvife > 0));
    for (k = 0; k < 10; k++) {
        VP_ASSUME((size_t)k >= r->drh.dib.ndife || ((r->drh.dib.dife[k] & 0x80) != 0) == ((size_t)k + 1 < r->drh.dib.ndife));
        VP_ASSUME((size_t)k >= r->drh.vib.nvife || ((r->drh.vib.vife[k] & 0x80) != 0) == ((size_t)k + 1 < r->drh.vib.nvife));
    }
    VP_ASSUME((r->drh.vib.vif & 0x7F) == 0x7C ? CUSTOM : !CUSTOM);
#endif
}
#if MODE == 2
static int phase, null0; static size_t P0; static u8 SK;
void vp_cut(void **v, int n)
{
    mbus_data_record **rec = v[0];
    VP_ASSERT(n >= 1, "loop state");
    if (phase++ == 0) {
        const mbus_data_variable_header *h = &D.data_var.header; int k;
        VP_ASSERT(*rec == D.data_var.record && F.data_size == 12, "starts with the first record behind the header");
        for (k = 0; k < 4; k++) VP_ASSERT(F.data[k] == h->id_bcd[k], "header");
        VP_ASSERT(F.data[4] == h->manufacturer[0] && F.data[5] == h->manufacturer[1] && F.data[6] == h->version && F.data[7] == h->medium && F.data[8] == h->access_no
               && F.data[9] == h->status && F.data[10] == h->signature[0] && F.data[11] == h->signature[1], "header");
        P0 = vp_range(12, 252); F.data_size = P0; for (k = 1; k < n; k++) __CPROVER_havoc_object(v[k]);
        null0 = vp_bit(); *rec = null0 ? NULL : &R; R.next = vp_bit() ? &E : NULL;
        SK = vp_u8(); if (K < P0) F.data[K] = SK;
    } else {
        size_t l = enclen(&R, CL);
        VP_ASSERT(!null0 && *rec == R.next, "the next record follows");
        VP_ASSERT(P0 + l <= 252, "a record that does not fit is rejected");
        VP_ASSERT(F.data_size == P0 + l, "the size of the data");
        if (K < P0) VP_ASSERT(F.data[K] == SK, "records packed before are kept");
        else if (K < P0 + l) VP_ASSERT(F.data[K] == encbyte(&R, CL, K - P0), "the bytes of the record");
        VP_COVER(1, "a record is packed");
        VP_ASSUME(0);
    }
}
void harness(void)
{
    int r;
    K = vp_range(0, 251); wf(&R);
    D.type = MBUS_DATA_TYPE_VARIABLE; D.data_var.record = vp_bit() ? &R : NULL; vp_fill(&D.data_var.header, 12); F.data_size = vp_size();
    r = mbus_frame_internal_pack(&F, &D);
    if (r < 0) VP_ASSERT(!null0 && P0 + enclen(&R, CL) > 252, "rejected only when it does not fit");
    else VP_ASSERT(r == 0 && null0 && F.data_size == P0 && (K >= P0 || F.data[K] == SK), "success after the last record");
    VP_COVER(r == 0, "end");
}
#else
static u8 B[252];
void harness(void)
{
    struct spec_rec s; size_t l, k;
    K = vp_range(0, 239); K2 = vp_range(0, 9); wf(&R);
    l = enclen(&R, CL); VP_ASSUME(l <= 240);
    /* B is the encoding: stated at the positions looked at */
#define AT(o) VP_ASSUME((size_t)(o) >= l || B[(o)] == encbyte(&R, CL, (o)))
    vp_fill(B, 252);
    for (k = 0; k < 13; k++) AT(k);
    AT(1 + K);
    if (KIND != 1) {
        size_t v = R.drh.dib.ndife + 2 + (CUSTOM ? 1 + CL : 0);
        for (k = 0; k < 12; k++) AT(v + k);
        AT(v + R.drh.vib.nvife + K); AT(1 + K2); AT(v + K2); if (CUSTOM && K < CL) AT(v - 1 - K);
    }
    s = spec_step(B, l, 0);
    VP_ASSERT(s.kind == (KIND == 1 ? 2 : 3) && s.next == l, "one record, all bytes");
    VP_ASSERT(s.dif == R.drh.dib.dif && s.dlen == R.data_len, "DIF and payload length");
    if (K < s.dlen) VP_ASSERT(B[s.dpos + K] == R.data[K], "payload");
    if (KIND != 1) {
        VP_ASSERT(s.nd == R.drh.dib.ndife && s.nv == R.drh.vib.nvife && s.vif == R.drh.vib.vif, "extensions");
        if (K2 < s.nd) VP_ASSERT(B[s.vifpos - s.nd + K2] == R.drh.dib.dife[K2], "DIF extensions");
        if (K2 < s.nv) VP_ASSERT(B[s.vpos + K2] == R.drh.vib.vife[K2], "VIF extensions");
        if ((s.vif & 0x7F) == 0x7C) { VP_ASSERT(s.clen == CL, "plain text VIF"); if (K < CL) VP_ASSERT(B[s.cpos + CL - 1 - K] == R.drh.vib.custom_vif[K], "plain text VIF"); }
    }
    VP_COVER(1, "record");
}
#endif
#else
static size_t wr(u8 *b, size_t p)
{
    unsigned k, n; u8 dif = (u8)(vp_rnd(256) & 0x7F), vif; static const u8 nn[] = {0, 0, 0, 1, 2, 9, 10};
    if ((dif & 15) == 15) dif &= ~1;
    n = nn[vp_rnd(7)]; b[p++] = dif | (n ? 0x80 : 0);
    for (k = 0; k < n; k++) b[p++] = (u8)(vp_rnd(128) | (k + 1 < n ? 0x80 : 0));
    n = nn[vp_rnd(7)]; vif = vp_rnd(4) ? (u8)vp_rnd(128) : 0x7C; b[p++] = vif | (n ? 0x80 : 0);
    if (vif == 0x7C) { unsigned l = vp_rnd(3) ? vp_rnd(12) : 120 + vp_rnd(8); b[p++] = (u8)l; for (k = 0; k < l; k++) b[p++] = (u8)(1 + vp_rnd(255)); }
    for (k = 0; k < n; k++) b[p++] = (u8)(vp_rnd(128) | (k + 1 < n ? 0x80 : 0));
    n = spec_LEN[dif & 15];
    if ((dif & 15) == 13) { b[p] = vp_rnd(3) ? (u8)vp_rnd(40) : (u8)vp_rnd(0xC0); n = spec_lvar(b[p]); }
    for (k = 0; k < n; k++) if (k || (dif & 15) != 13) b[p + k] = (u8)vp_rnd(256);
    return p + n;
}
static u8 RAW[3000];
void harness(void)
{
    mbus_data_record *a, *b; size_t k, p, n, nrec, m = vp_mark(); int r, cut; struct spec_rec s;
    static struct { u8 pre[8]; mbus_frame f; u8 post[8]; } G;
    static mbus_data_record pool[40]; mbus_data_record *head = NULL, **tail = &head; size_t total = 12;
    vp_fill(RAW, 600); nrec = vp_range(0, 8); cut = vp_bit();
    if (VP_SEARCHING) { p = 12; for (k = 0; k < nrec; k++) { p = wr(RAW, p); if (p > 560) break; } if (p < 570 && !vp_rnd(3)) { RAW[p++] = vp_rnd(2) ? 0x0F : 0x1F; }
        vp_relog(m, RAW, 600); }
    /* the records of RAW, within 252 bytes or beyond */
    memset(&D, 0, sizeof D); D.type = MBUS_DATA_TYPE_VARIABLE; memcpy(&D.data_var.header, RAW, 12);
    n = cut ? 252 : 500;
    for (p = 12, k = 0; p < n && k < 40 && k <= nrec; p = s.next) {
        mbus_data_record *x; size_t e;
        s = spec_step(RAW, n, p);
        if (s.kind == 0) break;
        if (s.kind == 1) continue;
        x = &pool[k++]; memset(x, 0, sizeof *x); x->drh.dib.dif = s.dif;
        if (s.kind == 2 && s.dlen > 60) { s.dlen = 60; }
        if (s.dlen > 240) break;
        x->data_len = s.dlen; memcpy(x->data, RAW + s.dpos, s.dlen);
        if (s.kind == 3) { x->drh.dib.ndife = s.nd; memcpy(x->drh.dib.dife, RAW + s.vifpos - s.nd, s.nd); x->drh.vib.vif = s.vif; x->drh.vib.nvife = s.nv; memcpy(x->drh.vib.vife, RAW + s.vpos, s.nv);
            if ((s.vif & 0x7F) == 0x7C) { for (e = 0; e < s.clen; e++) x->drh.vib.custom_vif[e] = RAW[s.cpos + s.clen - 1 - e]; } }
        *tail = x; tail = (mbus_data_record **)&x->next; total += enclen(x, strlen((char *)x->drh.vib.custom_vif));
        if (s.kind == 2) break;
    }
    D.data_var.record = head;
    memset(&G, 0xA5, sizeof G); G.f.next = NULL; G.f.type = MBUS_FRAME_TYPE_LONG; G.f.control = 0x08; G.f.control_information = 0x72;
    r = mbus_frame_internal_pack(&G.f, &D);
    if (total > 252) { VP_ASSERT(r < 0, "data that does not fit is rejected"); VP_COVER(1, "too long"); return; }
    VP_ASSERT(r == 0 && G.f.data_size == total, "packed");
    VP_ASSERT(!memcmp(G.f.data, &D.data_var.header, 12), "header");
    for (p = 12, a = head; a; a = a->next) { size_t cl = strlen((char *)a->drh.vib.custom_vif), l = enclen(a, cl), o; for (o = 0; o < l; o++) VP_ASSERT(G.f.data[p + o] == encbyte(a, cl, o), "the bytes of the record"); p += l; }
    r = mbus_frame_data_parse(&G.f, &D2);
    VP_ASSERT(r == 0 && D2.type == MBUS_DATA_TYPE_VARIABLE && !memcmp(&D2.data_var.header, &D.data_var.header, 12), "parsed again");
    for (a = head, b = D2.data_var.record; a && b; a = a->next, b = b->next) {
        VP_ASSERT(a->drh.dib.dif == b->drh.dib.dif && a->data_len == b->data_len && !memcmp(a->data, b->data, a->data_len), "the same record");
        VP_ASSERT(a->drh.dib.ndife == b->drh.dib.ndife && !memcmp(a->drh.dib.dife, b->drh.dib.dife, a->drh.dib.ndife), "the same record");
        VP_ASSERT(a->drh.vib.vif == b->drh.vib.vif && a->drh.vib.nvife == b->drh.vib.nvife && !memcmp(a->drh.vib.vife, b->drh.vib.vife, a->drh.vib.nvife), "the same record");
        VP_ASSERT(!strcmp((char *)a->drh.vib.custom_vif, (char *)b->drh.vib.custom_vif), "the same record");
    }
    VP_ASSERT(!a && !b, "the same number of records");
    mbus_data_record_free(D2.data_var.record);
    VP_COVER(head && head->next, "several records"); VP_COVER(total == 12, "no record");
}
#endif
