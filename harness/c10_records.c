/* Contract of mbus_data_variable_parse (C10).
 * Proof form: the outer loop is cut (lib/loopcut.py).  vp_cut is its invariant: before the first iteration it holds
 * (position 12, no record, no marker); then position, record list, count and marker are made arbitrary within it, one
 * iteration runs on arbitrary data, and the step is compared with spec_step.  Native form: whole parses against a loop
 * over spec_step. */
#include "spec_var.h"
#include "mbus-protocol.h"

static mbus_frame F; static mbus_data_variable V;
static size_t N, K, K2;

static void rec_check(const mbus_data_record *r, struct spec_rec s, const u8 *b, time_t ts)
{
    VP_ASSERT(r->drh.dib.dif == s.dif, "the record's DIF");
    VP_ASSERT(r->data_len == s.dlen, "the payload length");
    VP_ASSERT(r->timestamp == ts, "the frame's time stamp");
    VP_ASSERT(K >= s.dlen || r->data[K] == b[s.dpos + K], "the payload bytes");
    if (s.kind == 3) {
        VP_ASSERT(r->drh.dib.ndife == s.nd, "the number of DIF extensions");
        VP_ASSERT(r->drh.vib.vif == s.vif, "the VIF");
        VP_ASSERT(r->drh.vib.nvife == s.nv, "the number of VIF extensions");
        VP_ASSERT(K2 >= s.nd || r->drh.dib.dife[K2] == b[s.vifpos - s.nd + K2], "the DIF extensions");
        VP_ASSERT(K2 >= s.nv || r->drh.vib.vife[K2] == b[s.vpos + K2], "the VIF extensions");
        if ((s.vif & 0x7F) == 0x7C) {
            VP_ASSERT(r->drh.vib.custom_vif[s.clen] == 0, "plain-text VIF terminated");
            VP_ASSERT(K >= s.clen || r->drh.vib.custom_vif[K] == b[s.cpos + s.clen - 1 - K], "plain-text VIF");
        }
    }
}

#ifdef VP_CBMC
static struct spec_rec S; static int phase; static size_t P0; static mbus_data_record E; static size_t nrec0; static u8 more0; static mbus_data_record *list0;
/* callee contracts (proved in C30): a new record is zero; freeing takes a record that is not in the list */
static mbus_data_record G, ZERO; static int made, freed;
mbus_data_record *mbus_data_record_new(void) { VP_ASSERT(!made, "one record per step"); made = 1; G = ZERO; if (vp_bit()) { made = 2; return NULL; } return &G; }
void mbus_data_record_free(mbus_data_record *r) { VP_ASSERT(r == NULL || (r == &G && made && !freed && V.record != &G && E.next == NULL), "only the unfinished record is freed"); freed++; }
void mbus_data_str_decode(unsigned char *dst, const unsigned char *src, size_t len)   /* contract proved in C07 */
{
    if (dst == NULL || src == NULL) return;
    VP_ASSERT(__CPROVER_w_ok(dst, len + 1), "text decoding: destination holds the text and its terminator");
    VP_ASSERT(len == 0 || __CPROVER_r_ok(src, len), "text decoding: source");
    VP_ASSERT(len == 0 || (src >= F.data && src + len <= F.data + N), "text decoding: within the frame's data");
    if (K < len) dst[K] = src[len - 1 - K];         /* the other bytes are not looked at */
    dst[len] = 0;
}
/* invariant of the payload copying loops: i and j advance together, the bytes below j are copied (seen at index K) */
static int cphase; static size_t ci0, cj0; static mbus_data_record CG; static u8 cl, cn; static mbus_data_variable CV;
static int same_rec(void)
{
    return G.drh.dib.dif == CG.drh.dib.dif && G.drh.dib.ndife == CG.drh.dib.ndife && G.drh.dib.dife[K2] == CG.drh.dib.dife[K2]
        && G.drh.vib.vif == CG.drh.vib.vif && G.drh.vib.nvife == CG.drh.vib.nvife && G.drh.vib.vife[K2] == CG.drh.vib.vife[K2]
        && (K >= 128 || G.drh.vib.custom_vif[K] == CG.drh.vib.custom_vif[K]) && G.data_len == CG.data_len && G.timestamp == CG.timestamp && G.next == CG.next
        && V.nrecords == CV.nrecords && V.record == CV.record && V.more_records_follow == CV.more_records_follow && E.next == NULL;
}
void vp_copy(void **v, int n)
{
    size_t *j = v[0], *i = v[1];
    VP_ASSERT(n == 2, "loop variables");
    if (!cphase) {
        cphase = 1; ci0 = *i;
        VP_ASSERT(*j == 0, "copying starts at the first byte");
        CG = G; CV = V;
        cj0 = vp_range(0, 255); VP_ASSUME(cj0 <= G.data_len);
        *j = cj0; *i = ci0 + cj0;
        if (K < 240) G.data[K] = K < cj0 ? F.data[ci0 + K] : vp_u8();
    } else {
        VP_ASSERT(*j == cj0 + 1 && *i == ci0 + *j, "copying advances by one byte");
        VP_ASSERT(K >= *j || G.data[K] == F.data[ci0 + K], "the bytes copied so far");
        VP_ASSERT(same_rec(), "copying changes the payload only");
        VP_ASSUME(0);
    }
}
static void header_check(void)
{
    VP_ASSERT(V.header.id_bcd[0] == F.data[0] && V.header.id_bcd[1] == F.data[1] && V.header.id_bcd[2] == F.data[2] && V.header.id_bcd[3] == F.data[3]
        && V.header.manufacturer[0] == F.data[4] && V.header.manufacturer[1] == F.data[5] && V.header.version == F.data[6] && V.header.medium == F.data[7]
        && V.header.access_no == F.data[8] && V.header.status == F.data[9] && V.header.signature[0] == F.data[10] && V.header.signature[1] == F.data[11], "header fields");
}
void vp_cut(void **v, int n)
{
    size_t *i = v[0]; int k;
    if (phase == 0) {
        phase = 1;
        VP_ASSERT(*i == 12 && V.nrecords == 0 && V.record == NULL && V.more_records_follow == 0, "base: before the first record");
        header_check();
        for (k = 0; k < n; k++) __CPROVER_havoc_object(v[k]);
        P0 = PLO == PHI ? PLO : vp_range(PLO, PHI);
        VP_ASSUME(P0 <= N);
#if KIND == 1
        VP_ASSUME(P0 >= N || F.data[P0] == 0x0F || F.data[P0] == 0x1F || F.data[P0] == 0x2F);
#elif KIND == 2
        VP_ASSUME(P0 < N && (F.data[P0] & 15) == 13);
#elif KIND == 3
        VP_ASSUME(P0 < N && (F.data[P0] & 15) != 13 && F.data[P0] != 0x0F && F.data[P0] != 0x1F && F.data[P0] != 0x2F);
#endif
        *i = P0;
        if (P0 < N) S = spec_step(F.data, N, P0);
        list0 = vp_bit() ? &E : NULL; V.record = list0;
        nrec0 = vp_size(); V.nrecords = nrec0;
        more0 = vp_bit(); V.more_records_follow = more0;
    } else {
        struct spec_rec s = S; mbus_data_record *r = list0 ? E.next : V.record;
        VP_ASSERT(P0 < N, "no step behind the last byte");
        VP_ASSERT(s.kind != 0, "a record that does not fit is an error");
        VP_ASSERT(*i == s.next, "next position");
        VP_ASSERT(V.more_records_follow == (more0 || s.dif == 0x1F), "more-records marker");
        if (s.kind == 1) VP_ASSERT(V.nrecords == nrec0 && V.record == list0 && E.next == NULL, "a filler adds no record");
        else {
            VP_ASSERT(r != NULL && r->next == NULL && V.nrecords == nrec0 + 1 && (!list0 || V.record == list0), "one record, appended and counted");
            VP_ASSERT(r == &G && !freed, "the new record");
            rec_check(&G, s, F.data, F.timestamp);
        }
#if KIND == 1
        VP_COVER(s.kind == 1, "filler"); VP_COVER(s.kind == 2, "special");
#else
        VP_COVER(s.kind == 3 && s.nd == 2 && s.nv == 2, "record"); VP_COVER((s.vif & 0x7F) == 0x7C && s.clen > 9, "plain-text VIF");
#endif
        VP_ASSUME(0);
    }
}
void harness(void)
{
    int r; size_t k;
    for (k = 0; k < 252; k++) F.data[k] = vp_u8();
    N = vp_range(0, 252); F.data_size = N; F.timestamp = (time_t)vp_raw();
    K = vp_range(0, 240); K2 = vp_range(0, 9);
    r = mbus_data_variable_parse(&F, &V);
    if (phase == 0) VP_ASSERT(N < 12 && r < 0, "a header too short is an error");
    else {
        struct spec_rec s = S;
        if (made == 2) { VP_ASSERT(r < 0, "no memory is an error"); return; }
        VP_ASSERT((r == 0) == (P0 >= N) && r <= 0, "success only at the end of the data");
        VP_ASSERT(r == 0 || s.kind == 0, "an error only for a record that does not fit");
        VP_ASSERT(!made || freed == 1, "the unfinished record is freed");
        VP_ASSERT(V.nrecords == nrec0 && V.record == list0 && E.next == NULL && V.more_records_follow == more0, "nothing else changes at the end");
        #if KIND == 1
        VP_COVER(r == 0, "end");
#else
        VP_COVER(r < 0, "error");
#endif
    }
}
#else
static size_t wr_rec(u8 *b, size_t p, size_t end)
{
    unsigned k, n;
    if (vp_rnd(8) == 0) { b[p] = 0x2F; return p + 1; }
    if (vp_rnd(20) == 0) { b[p] = vp_rnd(2) ? 0x0F : 0x1F; return end; }
    u8 dif = (u8)(vp_rnd(256) & 0x7F), vif; static const u8 nn[] = {0, 0, 0, 1, 2, 9, 10, 10, 11};
    if ((dif & 15) == 15) dif &= ~1;
    n = nn[vp_rnd(9)];
    b[p++] = dif | (n ? 0x80 : 0);
    for (k = 0; k < n && p < end; k++) b[p++] = (u8)(vp_rnd(128) | (k + 1 < n ? 0x80 : 0));
    if (p >= end) return p;
    n = nn[vp_rnd(9)]; vif = vp_rnd(4) ? (u8)vp_rnd(128) : 0x7C;
    b[p++] = vif | (n ? 0x80 : 0);
    if (vif == 0x7C && p < end) { unsigned l = vp_rnd(3) ? vp_rnd(12) : 120 + vp_rnd(12); b[p++] = (u8)l; p += l; }
    for (k = 0; k < n && p < end; k++) b[p++] = (u8)(vp_rnd(128) | (k + 1 < n ? 0x80 : 0));
    if (p >= end) return p;
    n = spec_LEN[dif & 15];
    if ((dif & 15) == 13) { b[p] = vp_rnd(3) ? (u8)vp_rnd(40) : (u8)vp_rnd(256); n = spec_lvar(b[p]); }
    return p + n;
}
void harness(void)
{
    /* the payload must be readable exactly as far as data_size says: it lies at the end of its page as frame->data */
    int r; size_t k, p, m, cnt = 0; int err = 0; u8 more = 0; mbus_data_record *it; struct spec_rec s; u8 sp[16];
    m = vp_mark();
    for (k = 0; k < 252; k++) F.data[k] = vp_u8();
    { size_t m2 = vp_mark(); N = vp_range(0, 252);
      if (VP_SEARCHING && vp_rnd(4)) {
          p = 12; if (vp_rnd(3)) { size_t sk = 12 + vp_rnd(236); for (; p < sk; p++) F.data[p] = 0x2F; }
          while (p < 252 && vp_rnd(8)) p = wr_rec(F.data, p, 252);
          vp_relog(m, F.data, 252); (void)m2;
      } }
    F.data_size = N; F.timestamp = (time_t)vp_raw(); K = vp_range(0, 240); K2 = vp_range(0, 9);
#ifdef PLO
    if (vp_replaying) { p = vp_range(0, 252); for (k = 12; k < p && k < 252; k++) F.data[k] = 0x2F; }
#endif
    memset(&V, 0xA5, sizeof V);
    r = mbus_data_variable_parse(&F, &V);
    if (N < 12) { VP_ASSERT(r < 0, "a header too short is an error"); return; }
    VP_ASSERT(!memcmp(&V.header, F.data, 12), "header fields");
    it = V.record;
    for (p = 12; p < N; p = s.next) {
        s = spec_step(F.data, N, p);
        if (s.kind == 0) { err = 1; break; }
        if (s.kind == 1) continue;
        VP_ASSERT(it != NULL, "every record is in the list");
        for (K = 0; K < 240; K++) { K2 = K < 10 ? K : 9; rec_check(it, s, F.data, F.timestamp); }
        if (s.dif == 0x1F) more = 1;
        it = it->next; cnt++;
    }
    VP_ASSERT(it == NULL && V.nrecords == cnt, "no record beyond, counted");
    VP_ASSERT(V.more_records_follow == more, "more-records marker");
    VP_ASSERT((r == 0) == !err && (r == 0 || r < 0), "success exactly when every record fits");
    mbus_data_record_free(V.record);
    VP_COVER(r == 0, "ok"); VP_COVER(cnt > 1, "several"); VP_COVER(err, "err");
}
#endif
