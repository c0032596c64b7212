/* Ownership of frames and records (C30).  MODE 1: constructors; 2: record/frame chains over the contract of the recursive call;
 * 3: whole chains of up to N elements; 4: append to a list of up to N records; 5: mbus_record. */
#include "vp.h"
#include "mbus-protocol-aux.h"
#define VPM_N 8
#define VPM_STRDUP
#include "vp_mem.h"
static int zero(const void *p, size_t n) { size_t k; for (k = 0; k < n; k++) if (((const u8 *)p)[k]) return 0; return 1; }
#if MODE == 2 && defined(VP_CBMC)
static void *rest; static int recs;
int vp_rec_mbus_frame_free(mbus_frame *f) { VP_ASSERT(rest && (void *)f == rest && !recs, "the rest of the chain is released once"); recs++; vp_free(f); return 0; }
void vp_rec_mbus_data_record_free(mbus_data_record *f) { VP_ASSERT(rest && (void *)f == rest && !recs, "the rest of the chain is released once"); recs++; vp_free(f); }
#endif
void harness(void)
{
    int k, n = 0;
#if MODE == 1
    int t = (int)(signed char)vp_u8(), fl = vp_bit(); mbus_frame *f; mbus_data_record *r; mbus_frame_data *d;
    size_t G = vp_range(0, 251), G2 = vp_range(0, 239);
#if WHAT == 1
    vpm_reset(fl ? 0 : -1);
    f = mbus_frame_new(t);
    if (fl) { VP_ASSERT(f == NULL && vpm_live == 0, "null when memory is exhausted"); }
    else {
        int lc = t == MBUS_FRAME_TYPE_CONTROL || t == MBUS_FRAME_TYPE_LONG;
        VP_ASSERT(f && vpm_live == 1 && f->type == t && f->next == NULL && f->data_size == 0 && f->timestamp == 0, "an empty frame of the type");
        VP_ASSERT(f->control == 0 && f->address == 0 && f->control_information == 0 && f->checksum == 0 && f->data[G] == 0, "zero-initialised");
        VP_ASSERT(f->start1 == (t == MBUS_FRAME_TYPE_ACK ? 0xE5 : t == MBUS_FRAME_TYPE_SHORT ? 0x10 : lc ? 0x68 : 0) && f->start2 == (lc ? 0x68 : 0), "start bytes of the type");
        VP_ASSERT(f->stop == (lc || t == MBUS_FRAME_TYPE_SHORT ? 0x16 : 0), "stop byte of the type");
        VP_ASSERT(f->length1 == (t == MBUS_FRAME_TYPE_CONTROL ? 3 : 0) && f->length2 == f->length1, "length bytes of the type");
        VP_ASSERT(mbus_frame_free(f) == 0 && vpm_live == 0, "released once");
    }
    VP_ASSERT(mbus_frame_free(NULL) == -1, "null frame reported");
    VP_COVER(!fl && t == 3, "control");
#elif WHAT == 2
    vpm_reset(fl ? 0 : -1);
    r = mbus_data_record_new();
    if (fl) { VP_ASSERT(r == NULL && vpm_live == 0, "null when memory is exhausted"); }
    else {
        VP_ASSERT(r && vpm_live == 1 && r->next == NULL && r->data_len == 0 && r->timestamp == 0 && r->data[G2] == 0 && zero(&r->drh.dib, sizeof r->drh.dib)
            && r->drh.vib.vif == 0 && r->drh.vib.nvife == 0 && r->drh.vib.custom_vif[0] == 0, "an empty record");
        mbus_data_record_free(r); VP_ASSERT(vpm_live == 0, "released once");
    }
#else
    vpm_reset(fl ? 0 : -1);
    d = mbus_frame_data_new();
    if (fl) { VP_ASSERT(d == NULL && vpm_live == 0, "null when memory is exhausted"); }
    else {
        VP_ASSERT(d && vpm_live == 1 && zero(&d->data_var, sizeof d->data_var) && d->type == 0 && d->error == 0, "empty frame data");
        if (vp_bit()) { d->data_var.record = mbus_data_record_new(); VP_ASSERT(vpm_live == 2, "one record"); }
        mbus_frame_data_free(d); VP_ASSERT(vpm_live == 0, "released once, with its records");
    }
    mbus_data_record_free(NULL); mbus_frame_data_free(NULL);
#endif
#elif MODE == 2
    int has = vp_bit();
    vpm_reset(-1);
#ifdef VP_CBMC
    rest = NULL;
#endif
#if KIND == 1
    mbus_frame *f = vp_malloc(sizeof *f), *g = has ? vp_malloc(sizeof *f) : NULL;
    f->next = g; if (g) g->next = NULL;
#ifdef VP_CBMC
    rest = g;
#endif
    VP_ASSERT(mbus_frame_free(f) == 0, "success");
#else
    mbus_data_record *f = vp_malloc(sizeof *f), *g = has ? vp_malloc(sizeof *f) : NULL;
    f->next = g; if (g) g->next = NULL;
#ifdef VP_CBMC
    rest = g;
#endif
    mbus_data_record_free(f);
#endif
    VP_ASSERT(vpm_live == 0, "every element is released exactly once");
    VP_COVER(has, "chain");
#elif MODE == 3
    n = (int)vp_range(1, 5);
    vpm_reset(-1);
    { mbus_frame *h = NULL, *f; for (k = 0; k < n; k++) { f = mbus_frame_new(4); f->next = h; h = f; }
      VP_ASSERT(mbus_frame_free(h) == 0 && vpm_live == 0, "every frame is released exactly once"); }
    vpm_reset(-1);
    { mbus_data_record *h = NULL, *f; for (k = 0; k < n; k++) { f = mbus_data_record_new(); f->next = h; h = f; }
      mbus_data_record_free(h);
      VP_ASSERT(vpm_live == 0, "every record is released exactly once"); }
    VP_COVER(n == 5, "five");
#elif MODE == 4
    static mbus_data_variable V; static mbus_data_record R[6]; mbus_data_record *it;
    n = N; memset(&V, 0, sizeof V);
    for (k = 0; k < 6; k++) { R[k].next = NULL; R[k].data_len = 100 + k; }
    for (k = 0; k < n; k++) mbus_data_record_append(&V, &R[k]);
    if (vp_bit()) { mbus_data_record_append(NULL, &R[5]); mbus_data_record_append(&V, NULL); }
    mbus_data_record_append(&V, &R[5]);
    for (k = 0, it = V.record; k < n && it; k++, it = it->next) VP_ASSERT(it == &R[k] && it->data_len == 100 + k, "earlier records in order");
    VP_ASSERT(k == n && it == &R[5] && it->next == NULL, "the new record is last");
    VP_COVER(1, "end");
#elif MODE == 5
    int fl = vp_bit(), m = (int)(vp_raw() & 15), num = vp_bit(); mbus_record *r;
    vpm_reset(fl ? 0 : -1);
    r = mbus_record_new();
    if (fl) { VP_ASSERT(r == NULL && vpm_live == 0, "null when memory is exhausted"); }
    else {
        VP_ASSERT(r && vpm_live == 1 && r->is_numeric && r->value.real_val == 0.0 && !r->unit && !r->function_medium && !r->quantity && r->device == -1 && r->tariff == -1 && r->storage_number == 0, "an empty record");
        if (m & 1) r->unit = vp_malloc(3); if (m & 2) r->function_medium = vp_malloc(4); if (m & 4) r->quantity = vp_malloc(5);
        if (!num) { r->is_numeric = 0; r->value.str_val.value = (m & 8) ? vp_malloc(6) : NULL; }
        mbus_record_free(r);
        VP_ASSERT(vpm_live == 0, "the record and its texts are released exactly once");
    }
    mbus_record_free(NULL);
    VP_COVER(!fl && !num && m == 15, "all texts");
#endif
}
