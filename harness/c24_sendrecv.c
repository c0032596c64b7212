/* Contract of mbus_sendrecv_request (C24) over the contracts of sending, receiving, purging, parsing and allocating
 * (C10, C11, C20..C22, C27, C30).  The exchange is followed by a ghost state machine; the request loop is cut at its
 * condition, so that every number of telegrams and repetitions is covered. */
#include "vp.h"
#include "mbus-protocol-aux.h"
#define VPM_N 64
#define VPM_STRDUP
#include "vp_mem.h"
static mbus_handle H; static mbus_frame REPLY; static int addr, maxf;
enum { G_OPEN, G_OK, G_BAD };
static int g_ok, g_fail, g_exp, nsend, nrecv;
static int wantmore(int variable, int more) { return variable && more && (maxf == 0 || g_ok < maxf); }
static void missed(void) { g_fail++; if (g_fail > H.max_data_retry) g_exp = G_BAD; }
static void chk_send(const mbus_frame *f)
{
    VP_ASSERT(g_exp == G_OPEN, "no request after the end of the exchange"); VP_ASSERT(nrecv == nsend, "one request, one reply");
    nsend = 1; nrecv = 0;
    VP_ASSERT(f->type == MBUS_FRAME_TYPE_SHORT && f->start1 == 0x10 && f->stop == 0x16 && f->address == (u8)addr, "REQ_UD2 to the address");
    VP_ASSERT(f->control == (g_ok & 1 ? 0x5B : 0x7B), "the frame count bit flips exactly for a further telegram");
}
#ifdef VP_CBMC
static mbus_frame REQ, A, B, C; static mbus_frame *g_tail, *g_new; static int g_pnew, g_more, reqlive, live, fail1; static mbus_data_record REC;
mbus_frame *mbus_frame_new(int type)
{
    if (type == MBUS_FRAME_TYPE_SHORT) { VP_ASSERT(!reqlive, "one request frame"); if (fail1) return NULL; reqlive = 1; REQ.type = type; REQ.start1 = 0x10; REQ.stop = 0x16; REQ.control = REQ.address = 0; return &REQ; }
    VP_ASSERT(type == MBUS_FRAME_TYPE_ANY && g_more, "a further telegram is wanted");
    g_more = 0;
    if (vp_bit()) { g_exp = G_BAD; return NULL; }
    g_pnew = 1; g_new = g_tail == &B ? &C : &B; g_new->next = NULL; return g_new;
}
int mbus_frame_free(mbus_frame *f) { VP_ASSERT(f == &REQ && reqlive, "frees the request, once"); reqlive = 0; return 0; }
int mbus_send_frame(mbus_handle *h, mbus_frame *f) { VP_ASSERT(h == &H && f == &REQ && reqlive, "the request"); chk_send(f); VP_ASSERT(!g_more, "the next telegram has a frame"); if (vp_bit()) { g_exp = G_BAD; return -1; } return 0; }
int mbus_recv_frame(mbus_handle *h, mbus_frame *f)
{
    int r = -(int)vp_range(0, 5);
    VP_ASSERT(h == &H && nsend == 1 && !nrecv, "a reply to the request"); nrecv = 1;
    if (g_pnew) { VP_ASSERT(g_tail->next == g_new, "the telegram is chained behind the previous one"); g_tail = g_new; g_pnew = 0; }
    VP_ASSERT(f == g_tail, "received into the last telegram of the chain");
    if (r == MBUS_RECV_RESULT_OK) { g_ok++; g_fail = 0; }
    else if (r == MBUS_RECV_RESULT_TIMEOUT || r == MBUS_RECV_RESULT_INVALID) missed();
    else g_exp = G_BAD;
    return r;
}
int mbus_purge_frames(mbus_handle *h) { VP_ASSERT(h == &H, "the handle"); return vp_bit(); }
int mbus_frame_data_parse(mbus_frame *f, mbus_frame_data *d)
{
    int k = (int)vp_range(0, 4), more = vp_bit();
    VP_ASSERT(f == g_tail && nrecv == 1 && g_exp == G_OPEN, "the telegram received"); VP_ASSERT(!live, "records of the previous telegram are released");
    d->type = k == 1 ? MBUS_DATA_TYPE_FIXED : k == 2 ? MBUS_DATA_TYPE_ERROR : MBUS_DATA_TYPE_VARIABLE;
    if (k >= 3) { d->data_var.more_records_follow = (char)more; d->data_var.record = vp_bit() ? &REC : NULL; live = d->data_var.record != NULL; }
    if (k == 0 || k == 4) { g_exp = G_BAD; return vp_bit() ? -1 : -2; }
    if (wantmore(k == 3, more)) g_more = 1; else g_exp = G_OK;
    return 0;
}
void mbus_data_record_free(mbus_data_record *r) { if (!r) return; VP_ASSERT(r == &REC && live, "releases records once"); live = 0; }
void mbus_error_str_set(char *m) { (void)m; }
char *mbus_error_str(void) { return ""; }
static int cuts;
static int inv(void **v)
{
    int mf = *(int *)v[0], fc = *(int *)v[1], retry = *(int *)v[3], rv = *(int *)v[4]; mbus_frame *nf = *(mbus_frame **)v[5]; mbus_frame_data *rd = v[6];
    if (live || rd->data_var.record || !reqlive || nsend < 0 || nsend > 1 || nrecv != nsend || g_more) return 0;
    if (g_ok < 0 || g_ok > 0x7FFFFFF0 || g_fail < 0 || g_fail > H.max_data_retry + 1) return 0;
    if (g_tail != &REPLY && g_tail != &A && g_tail != &B) return 0;
    if (g_pnew && g_new == g_tail) return 0;
    if (g_exp == G_BAD && g_fail > H.max_data_retry) return mf == 1 && rv == 0 && retry == g_fail;       /* gives up at the next turn */
    if (mf == 0) return g_exp == G_OK ? rv == 0 : g_exp == G_BAD && rv == -1;
    if (mf != 1 || g_exp != G_OPEN || rv != 0 || fc != g_ok || retry != g_fail || g_fail > H.max_data_retry) return 0;
    if (REQ.type != MBUS_FRAME_TYPE_SHORT || REQ.start1 != 0x10 || REQ.stop != 0x16 || REQ.address != (u8)addr || REQ.control != (g_ok & 1 ? 0x5B : 0x7B)) return 0;
    if (g_pnew ? g_tail->next != g_new || g_new->next || nf != g_new || g_ok == 0 : g_tail->next || nf != g_tail) return 0;
    return 1;
}
void vp_cut(void **v, int n)
{
    VP_ASSERT(n == 7, "loop state"); VP_ASSERT(inv(v), "loop invariant");
    if (cuts++) VP_ASSUME(0);
    *(int *)v[0] = vp_bit(); *(int *)v[1] = vp_int(); *(int *)v[2] = vp_int(); *(int *)v[3] = vp_int(); *(int *)v[4] = vp_int();
    __CPROVER_havoc_object(v[6]); ((mbus_frame_data *)v[6])->data_var.record = NULL;
    g_ok = (int)vp_range(0, 0x7FFFFFEF); g_new = &B; g_fail = vp_int(); g_exp = (int)vp_range(0, 2); g_pnew = vp_bit(); nsend = nrecv = vp_bit();
    g_tail = g_ok - g_pnew <= 0 ? &REPLY : &A; REPLY.next = A.next = B.next = NULL; if (g_pnew) g_tail->next = &B;
    *(mbus_frame **)v[5] = g_pnew ? &B : g_tail; REQ.control = vp_u8(); REQ.address = vp_u8();
    VP_ASSUME(inv(v));
}
void harness(void)
{
    int r, hn = (vp_raw() & 7) == 1;
    addr = vp_int(); maxf = vp_int(); VP_ASSUME(maxf >= 0); fail1 = (vp_raw() & 7) == 1; H.max_data_retry = (int)vp_range(0, 9);
    g_ok = g_fail = g_pnew = g_more = reqlive = live = nsend = nrecv = 0; g_exp = G_OPEN; g_tail = &REPLY; REPLY.next = NULL; cuts = 0;
    r = mbus_sendrecv_request(hn ? NULL : &H, addr, &REPLY, maxf);
    VP_ASSERT(!reqlive && !live, "nothing leaks");
    if (hn || addr < 0 || addr > 255 || fail1) { VP_ASSERT(r != 0 && !nsend, "bad arguments or no memory: an error, nothing is sent"); return; }
    VP_ASSERT(g_exp != G_OPEN, "ends only when the answer is complete or has failed"); VP_ASSERT((r == 0) == (g_exp == G_OK), "success exactly on a complete answer");
    if (g_exp == G_OK && maxf > 0) VP_ASSERT(g_ok <= maxf || cuts, "never more than the maximum");
    VP_COVER(r == 0 && g_ok == 7, "seven telegrams"); VP_COVER(r == 1 && g_fail == 3, "gives up"); VP_COVER(r == -1, "no memory");
}
#else
int vp_rnd_bit(int z);
static int kind, script[6], ns, answered, fresh, injected;
static int snd(mbus_handle *h, mbus_frame *f) { (void)h; chk_send(f); answered = 0; if (vp_rnd_bit(0)) { g_exp = G_BAD; return -1; } return 0; }
static int rcv(mbus_handle *h, mbus_frame *f)
{
    int c, k; static mbus_frame_data D;
    (void)h;
    if (answered) return MBUS_RECV_RESULT_TIMEOUT;
    answered = 1; nrecv = 1; c = (int)vp_range(0, 15);
    if (c == 0) { g_exp = G_BAD; return MBUS_RECV_RESULT_ERROR; }
    if (c == 1) { g_exp = G_BAD; return MBUS_RECV_RESULT_RESET; }
    if (c < 4) { missed(); return MBUS_RECV_RESULT_TIMEOUT; }
    if (c < 6) { missed(); return MBUS_RECV_RESULT_INVALID; }
    g_ok++; g_fail = 0;
    VP_ASSERT(g_ok == 1 ? f == &REPLY : f != &REPLY, "received into the last telegram of the chain");
    f->type = MBUS_FRAME_TYPE_LONG; f->control = 0x08; f->control_information = 0x72; f->data_size = 12; memset(f->data, 0, 252);
    for (k = 0; k < (c & 3); k++) { f->data[f->data_size++] = 1; f->data[f->data_size++] = 0x13; f->data[f->data_size++] = (u8)g_ok; }
    f->timestamp = g_ok; injected = g_ok;
    k = (int)vp_range(0, 11);
    if (g_ok >= 6) k = 5;
    if (k == 0) { f->control_information = 0x73; f->data_size = 16; g_exp = G_OK; }
    else if (k == 1) { f->control_information = 0x70; f->data_size = 1; g_exp = G_OK; }
    else if (k == 2) { f->data[f->data_size++] = 0x02; f->data[f->data_size++] = 0x13; g_exp = G_BAD; }
    else if (k == 3) { f->data_size = 5; g_exp = G_BAD; }
    else if (k < 6) g_exp = G_OK;
    else { f->data[f->data_size++] = 0x1F; if (!wantmore(1, 1)) g_exp = G_OK; }
    return MBUS_RECV_RESULT_OK;
}
int vp_rnd_bit(int z) { (void)z; return vp_range(0, 31) == 7; }
void harness(void)
{
    int r, n = 0; mbus_frame *f;
    addr = (int)vp_range(0, 260) - 2; maxf = (int)vp_range(0, 3); H.max_data_retry = (int)vp_range(0, 3); H.send = snd; H.recv = rcv; H.purge_first_frame = 0;
    g_ok = g_fail = nsend = nrecv = 0; g_exp = G_OPEN; memset(&REPLY, 0, sizeof REPLY);
    vpm_reset(vp_range(0, 7) == 1 ? (int)vp_range(0, 9) : -1);
    r = mbus_sendrecv_request(&H, addr, &REPLY, maxf);
    for (f = REPLY.next; f; f = f->next) { n++; if (n < g_ok) VP_ASSERT(f->timestamp != 0 && f->data_size, "telegrams are chained in order"); }
    if (g_ok > 0) VP_ASSERT(n == g_ok - 1 || n == g_ok, "every telegram received is in the chain");
    if (r == 0 && g_ok > 0) VP_ASSERT(n == g_ok - 1, "nothing but the telegrams received is in the chain");
    if (REPLY.next) mbus_frame_free(REPLY.next);
    VP_ASSERT(vpm_live == 0, "nothing leaks");
    if (addr < 0 || addr > 255) { VP_ASSERT(r != 0 && !nsend, "bad arguments"); return; }
    if (vpm_failed) { VP_ASSERT(r != 0, "no memory"); return; }
    VP_ASSERT(g_exp != G_OPEN, "ends only when the answer is complete or has failed"); VP_ASSERT((r == 0) == (g_exp == G_OK), "success exactly on a complete answer");
    if (maxf > 0) VP_ASSERT(g_ok <= maxf, "never more than the maximum");
    VP_COVER(r == 0 && g_ok == 3, "telegrams"); VP_COVER(r == 1 && g_fail == 3, "gives up"); VP_COVER(r == 0 && g_ok == 6, "no limit");
}
#endif
