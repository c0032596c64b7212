/* Contracts of the request primitives (C23), of selection and probing (C25) and of reading a slave, over the contract
 * of the transport (C20..C22): what is sent is recorded, the result of every transport call is drawn. */
#include "vp.h"
#include <ctype.h>
#include "mbus-protocol-aux.h"
#define VPM_N 6
#define VPM_STRDUP
#include "vp_mem.h"
static mbus_handle H;
static int nsend, sret; static mbus_frame SENT; static const mbus_frame *sentp;
#if MODE == 1
static u8 D[252], SK; static size_t K; static int packret;
#endif
static int snd(mbus_handle *h, mbus_frame *f)
{
    VP_ASSERT(h == &H, "the handle"); VP_ASSERT(f != NULL, "a frame");
    VP_ASSERT(!nsend++, "one telegram");
    SENT.type = f->type; SENT.start1 = f->start1; SENT.start2 = f->start2; SENT.control = f->control; SENT.address = f->address; SENT.control_information = f->control_information;
    SENT.stop = f->stop; SENT.data_size = f->data_size; sentp = f;
#if MODE == 1
#ifdef VP_CBMC
    if (K < f->data_size && K < 252) SENT.data[K] = f->data[K];
    SENT.data[0] = f->data[0]; SENT.data[1] = f->data[1]; SENT.data[2] = f->data[2];
#else
    memcpy(SENT.data, f->data, sizeof SENT.data);
#endif
#endif
    return sret;
}
static int npurge, pend;
#if MODE == 1
#ifdef VP_CBMC
int mbus_frame_select_secondary_pack(mbus_frame *f, char *a)
{
    if (!f || !a) return -1;
    if (packret) return -1;                           /* contract of C19 */
    f->control = 0x73; f->address = 0xFD; f->control_information = 0x52; f->data_size = 8; f->data[0] = D[0]; f->data[1] = D[1]; f->data[2] = D[2];
    if (K < 8) f->data[K] = D[K];
    return 0;
}
void mbus_error_str_set(char *m) { (void)m; }
#endif
void harness(void)
{
    int what = (int)vp_range(WHAT, WHAT), a, ok, r, fl = (int)(vp_raw() & 3), err = -1, type = MBUS_FRAME_TYPE_LONG, ctl = 0x53, ci = -1, nh = (vp_raw() & 15) == 1;
    size_t n = 0;
    H.send = snd; nsend = 0; sret = vp_bit() ? 0 : -1; sentp = NULL;
    a = vp_int();
#ifdef VP_NATIVE
    if (VP_SEARCHING && vp_rnd(8)) a = (int)vp_rnd(258) - 1;
#endif
    ok = a >= 0 && a <= 255;
    vpm_reset(fl == 1 ? 0 : -1);
    K = vp_range(0, 251); SK = vp_u8();
    if (what == 1) { type = MBUS_FRAME_TYPE_SHORT; ctl = 0x5B; r = mbus_send_request_frame(nh ? NULL : &H, a); }
    else if (what == 2) {
        char pr = (char)vp_u8(); pend = 0; npurge = 0;
        type = MBUS_FRAME_TYPE_SHORT; ctl = 0x40; err = 1; r = mbus_send_ping_frame(nh ? NULL : &H, a, pr);
        VP_ASSERT(npurge == (pr && nsend && sret == 0), "the answer is purged on request, after a successful send");
    }
    else if (what == 3) {
        int sub = vp_int();
#ifdef VP_NATIVE
        if (VP_SEARCHING && vp_rnd(8)) sub = (int)vp_rnd(260) - 2;
#endif
        ok = ok && sub <= 255; ci = 0x50; n = sub >= 0; D[0] = (u8)sub; r = mbus_send_application_reset_frame(nh ? NULL : &H, a, sub);
    }
    else if (what == 4) {
        static const long B[8] = {300, 600, 1200, 2400, 4800, 9600, 19200, 38400}; long b = (long)vp_raw(); int k, hit = 0;
        if (vp_bit()) b = B[vp_range(0, 7)];
        for (k = 0; k < 8; k++) if (B[k] == b) { ci = 0xB8 + k; hit = 1; }
        ok = ok && hit; type = MBUS_FRAME_TYPE_CONTROL; r = mbus_send_switch_baudrate_frame(nh ? NULL : &H, a, b);
    }
    else if (what == 5) {
        int null = (vp_raw() & 15) == 1; n = vp_size();
#ifdef VP_NATIVE
        if (VP_SEARCHING && vp_rnd(8)) n = vp_rnd(256);
        vp_fill(D, 252);
#else
        D[K] = SK; D[0] = vp_u8(); D[1] = vp_u8(); D[2] = vp_u8();
#endif
        ok = ok && !null && n >= 1 && n <= 252; ci = 0x51; r = mbus_send_user_data_frame(nh ? NULL : &H, a, null ? NULL : D, n);
    }
    else if (what == 6) {
        int b = vp_int();
#ifdef VP_NATIVE
        if (VP_SEARCHING && vp_rnd(8)) b = (int)vp_rnd(258) - 1;
#endif
        ok = ok && b >= 0 && b <= 250; ci = 0x51; n = 3; D[0] = 1; D[1] = 0x7A; D[2] = (u8)b; r = mbus_set_primary_address(nh ? NULL : &H, a, b);
    }
    else {
        char m[18]; int k; size_t l = vp_range(0, 17); int null = (vp_raw() & 15) == 1;
        a = 0xFD; ctl = 0x73; ci = 0x52; n = 8;
#ifdef VP_CBMC
        packret = vp_bit(); ok = !null && !packret; D[0] = vp_u8(); D[1] = vp_u8(); D[2] = vp_u8(); if (K < 8) D[K] = SK; SK = D[K]; m[0] = 0;
#else
        vp_fill(m, 16); if (VP_SEARCHING && vp_rnd(8)) { for (k = 0; k < 16; k++) m[k] = "0123456789abcdefABCDEFg"[vp_rnd(23)]; l = 16; }
        m[17] = 0; m[l] = 0; ok = !null && strlen(m) == 16; for (k = 0; ok && k < 16; k++) if (!isxdigit((unsigned char)m[k])) ok = 0;
#endif
        r = mbus_send_select_frame(nh ? NULL : &H, null ? NULL : m);
    }
#ifdef VP_CBMC
    if (nh && ok && !vpm_failed) { VP_ASSERT(r == -1 && !nsend && vpm_live == 0, "a null handle is an error"); return; }
#else
    if (nh) { VP_ASSERT(r != 0 && !nsend && vpm_live == 0, "a null handle is an error"); return; }
#endif
    VP_ASSERT(vpm_live == 0, "the temporary frame is released");
    if (!ok) { VP_ASSERT(nsend == 0, "nothing is sent for arguments out of range"); VP_ASSERT(r != 0 && (r == err || vpm_failed), "arguments out of range are an error"); return; }
    if (vpm_failed) { VP_ASSERT(nsend == 0 && r == -1, "out of memory"); return; }
    VP_ASSERT(nsend == 1, "the telegram is sent");
    VP_ASSERT(r == sret, "the result of the transport is reported");
    VP_ASSERT((int)SENT.type == type, "frame type"); VP_ASSERT(SENT.control == ctl, "control code"); VP_ASSERT(SENT.address == (u8)a, "address");
    VP_ASSERT(SENT.start1 == (type == MBUS_FRAME_TYPE_SHORT ? 0x10 : 0x68) && SENT.stop == 0x16, "start and stop");
    if (type != MBUS_FRAME_TYPE_SHORT) VP_ASSERT(SENT.start2 == 0x68 && SENT.control_information == ci, "control information");
    if (type == MBUS_FRAME_TYPE_LONG) {
        VP_ASSERT(SENT.data_size == n, "data size");
#ifdef VP_CBMC
        if (K < n) VP_ASSERT(SENT.data[K] == D[K], "data");
#else
        if (what == 5) VP_ASSERT(!memcmp(SENT.data, D, n), "data");
#endif
        if (what != 5 && what != 7) { size_t k; for (k = 0; k < n; k++) VP_ASSERT(SENT.data[k] == D[k], "data"); }
    }
    VP_COVER(r == 0, "sent"); VP_COVER(r == -1, "transport failure");
}
int mbus_purge_stub(mbus_handle *h) { VP_ASSERT(h == &H && nsend == 1, "purged after the request"); npurge++; return 0; }
#ifdef VP_CBMC
int mbus_purge_frames(mbus_handle *h) { return mbus_purge_stub(h); }
#else
static int rcv(mbus_handle *h, mbus_frame *f) { (void)f; mbus_purge_stub(h); return MBUS_RECV_RESULT_TIMEOUT; }
__attribute__((constructor)) static void init(void) { H.recv = rcv; }
#endif
#endif
#if MODE >= 2
#ifdef VP_CBMC
#include "vp_printf.h"
#endif
/* ghost script: the outcome of every step; CBMC: drawn by the contracts of the callees, native: played on a handle */
enum { P_ERROR = MBUS_PROBE_ERROR, P_NOTHING = MBUS_PROBE_NOTHING, P_SINGLE = MBUS_PROBE_SINGLE, P_COLL = MBUS_PROBE_COLLISION };
static char MASK[20]; static size_t K; static int hasmask;
static int sendret, rret, rtype, pendr, reqret, nsel, nreq, nrecv, nfound, lastsel, addrnull, retry; static char ADDR[17]; static mbus_frame *rframe;
static int reqaddr; static mbus_frame R;
static void found(mbus_handle *h, mbus_frame *f) { VP_ASSERT(h == &H && f != NULL, "found callback"); nfound++; }
#ifdef VP_CBMC
static int selres(int k) { int r = (int)(vp_raw() & 3) - 1; return r; }
void mbus_error_str_set(char *m) { (void)m; }
char *mbus_error_str(void) { return ADDR; }
int mbus_send_select_frame(mbus_handle *h, const char *m) { VP_ASSERT(h == &H, "the handle"); VP_ASSERT(!nsend++, "one selection"); VP_ASSERT(m[K] == MASK[K], "the mask given"); return sendret; }
int mbus_send_request_frame(mbus_handle *h, int a) { VP_ASSERT(h == &H, "the handle"); VP_ASSERT(!nreq++, "one request"); reqaddr = a; return reqret; }
int mbus_recv_frame(mbus_handle *h, mbus_frame *f) { VP_ASSERT(h == &H && f != NULL, "the handle and a frame"); VP_ASSERT(MODE == 2 ? nsend == 1 : nreq == 1, "received after the request"); VP_ASSERT(!nrecv++, "one reply"); f->type = rtype; rframe = f; return rret; }
int mbus_purge_frames(mbus_handle *h) { VP_ASSERT(h == &H, "the handle"); VP_ASSERT(nrecv == 1, "purged after the reply"); npurge++; return pendr; }
char *mbus_frame_get_secondary_address(mbus_frame *f) { VP_ASSERT(f == rframe && nrecv == 1, "the address of the reply"); return addrnull ? NULL : ADDR; }
#if MODE >= 3
int mbus_select_secondary_address(mbus_handle *h, const char *m) { VP_ASSERT(h == &H, "the handle"); VP_ASSERT(m[K] == MASK[K], "the mask given"); VP_ASSERT(!nreq, "no selection after the request"); nsel++; lastsel = selres(nsel); return lastsel; }
#endif
#else
static int st, step, selret_send, extra;           /* what the bus does, drawn when a telegram is sent */
static int nsnd(mbus_handle *h, mbus_frame *f)
{
    VP_ASSERT(h == &H, "the handle"); step = 0;
    if (f->type == MBUS_FRAME_TYPE_LONG && f->control_information == 0x52) {
        st = 1;
        if (MODE == 2) { VP_ASSERT(!nsend++, "one selection"); return sendret; }
        VP_ASSERT(!nreq, "no selection after the request"); nsel++; lastsel = (int)(vp_raw() & 3) - 1; selret_send = vp_bit();
        return lastsel == P_ERROR && selret_send ? -1 : 0;
    }
    VP_ASSERT(f->type == MBUS_FRAME_TYPE_SHORT && f->control == 0x5B, "a request"); VP_ASSERT(!nreq++, "one request"); reqaddr = f->address; st = 2; return reqret;
}
static int nrcv(mbus_handle *h, mbus_frame *f)
{
    VP_ASSERT(h == &H && st, "received after a telegram");
    if (st == 1 && MODE >= 3) {
        if (step++) return lastsel == P_COLL && selret_send && step == 2 ? MBUS_RECV_RESULT_OK : MBUS_RECV_RESULT_TIMEOUT;
        f->type = MBUS_FRAME_TYPE_ACK;
        if (lastsel == P_NOTHING) return MBUS_RECV_RESULT_TIMEOUT;
        if (lastsel == P_ERROR) return MBUS_RECV_RESULT_RESET;
        return lastsel == P_COLL && !selret_send ? MBUS_RECV_RESULT_INVALID : MBUS_RECV_RESULT_OK;
    }
    if (step++) { npurge = 1; return pendr && step == 2 ? MBUS_RECV_RESULT_OK : MBUS_RECV_RESULT_TIMEOUT; }
    nrecv++; { mbus_frame *nx = f->next; *f = R; f->next = nx; } f->type = rtype; return rret;
}
#endif
void harness(void)
{
    int r, ok, k, withev = vp_bit(); size_t l = vp_range(0, 18); char *out;
    H.found_event = withev ? found : 0; H.max_search_retry = (int)vp_range(0, 9);
    nsend = nsel = nreq = nrecv = npurge = nfound = 0; lastsel = -7; rframe = 0;
    hasmask = (vp_raw() & 15) != 1; K = vp_range(0, 15);
    sendret = (vp_raw() & 7) == 1 ? -1 : 0; reqret = (vp_raw() & 7) == 1 ? -1 : 0; rtype = (int)vp_range(0, 5); pendr = vp_bit(); addrnull = vp_bit();
    rret = -(int)vp_range(0, 4);
#ifdef VP_CBMC
    vp_fill(MASK, 19); for (k = 0; k < 16; k++) ADDR[k] = (char)vp_range(1, 255); ADDR[16] = 0;
#else
    if (VP_SEARCHING) { if (vp_rnd(8)) l = 16; if (vp_rnd(2)) rret = 0; if (vp_rnd(3)) rtype = MBUS_FRAME_TYPE_LONG; if (vp_rnd(3)) pendr = 0; }
    for (k = 0; k < 19; k++) MASK[k] = "0123456789abcdefABCDEF"[vp_range(0, 21)];
    H.send = nsnd; H.recv = nrcv; H.purge_first_frame = MBUS_FRAME_PURGE_NONE; st = 0;
    memset(&R, 0, sizeof R); R.control = vp_bit() ? 0x08 : 0x53; R.control_information = vp_bit() ? 0x72 : 0x73; R.data_size = vp_range(0, 30); vp_fill(R.data, 30);
    for (k = 12; k < 30; k++) R.data[k] = 0x2F;
    R.type = rtype; { char *a = mbus_frame_get_secondary_address(&R); addrnull = a == NULL; if (a) memcpy(ADDR, a, 17); }
#endif
    if (l < 18) MASK[l] = 0; MASK[18] = 0;
    ok = hasmask; for (k = 0; k < 16; k++) if (!MASK[k]) ok = 0; if (MASK[16]) ok = 0;
#if MODE == 2
    r = mbus_select_secondary_address(&H, hasmask ? MASK : NULL);
    if (!ok) { VP_ASSERT(r == P_ERROR && !nsend && !nrecv, "a malformed mask is an error"); return; }
    VP_ASSERT(nsend == 1, "the selection is sent");
    if (sendret) { VP_ASSERT(r == P_ERROR && !nrecv, "a failed transmission is an error"); return; }
    VP_ASSERT(nrecv == 1, "the reply is received");
    if (rret == MBUS_RECV_RESULT_TIMEOUT) VP_ASSERT(r == P_NOTHING, "silence: nothing");
    else if (rret == MBUS_RECV_RESULT_INVALID) VP_ASSERT(r == P_COLL && npurge, "a garbled answer: collision");
    else if (rret != MBUS_RECV_RESULT_OK) VP_ASSERT(r == P_ERROR, "a failed reception is an error");
    else if (rtype != MBUS_FRAME_TYPE_ACK) VP_ASSERT(r == P_NOTHING, "another frame: nothing");
    else { VP_ASSERT(npurge, "looks for further answers"); VP_ASSERT(r == (pendr ? P_COLL : P_SINGLE), "one acknowledge: single, more: collision"); }
    VP_COVER(r == P_SINGLE, "single"); VP_COVER(r == P_COLL && rret == 0, "collision"); VP_COVER(r == P_ERROR, "error");
#elif MODE == 3
    out = (vp_raw() & 15) == 1 ? NULL : malloc(17);
#ifdef VP_CBMC
    if (out) { out[16] = 1; }
#endif
    r = mbus_probe_secondary_address(&H, hasmask ? MASK : NULL, out);
    if (!ok || !out) { VP_ASSERT(r == P_ERROR && !nsel && !nreq, "a malformed mask or no buffer is an error"); free(out); return; }
    VP_ASSERT(nsel >= 1 && nsel <= H.max_search_retry + 1, "repeated at most the configured number of times");
    VP_ASSERT(nreq == (lastsel == P_SINGLE), "read out exactly after a single answer");
    VP_ASSERT(nfound == (r == P_SINGLE && withev), "the callback is raised exactly for a device found");
    if (lastsel == P_NOTHING) VP_ASSERT(r == P_NOTHING && nsel == H.max_search_retry + 1, "nothing after all repetitions");
    else if (lastsel != P_SINGLE) VP_ASSERT(r == lastsel, "error or collision of the selection");
    else {
        VP_ASSERT(reqaddr == 0xFD, "the selected device is asked");
        if (reqret) VP_ASSERT(r == P_ERROR, "a failed transmission is an error");
        else if (rret == MBUS_RECV_RESULT_TIMEOUT) VP_ASSERT(r == P_NOTHING, "no readout: nothing");
        else if (rret == MBUS_RECV_RESULT_INVALID) VP_ASSERT(r == P_COLL, "a garbled readout: collision");
        else if (rret != MBUS_RECV_RESULT_OK) VP_ASSERT(r == P_ERROR, "a failed reception is an error");
        else if (pendr) VP_ASSERT(r == P_COLL, "further answers: collision");
        else if (rtype != MBUS_FRAME_TYPE_LONG || addrnull) VP_ASSERT(r == P_NOTHING, "no address: nothing");
        else {
            VP_ASSERT(r == P_SINGLE, "single");
            for (k = 0; k < 17; k++) VP_ASSERT(out[k] == ADDR[k], "the address of the reply, terminated");
        }
    }
    VP_COVER(r == P_SINGLE, "single"); VP_COVER(r == P_NOTHING && nsel > 3, "retries");
    free(out);
#elif MODE == 4
    { mbus_address A; int prim = vp_bit(), pa = vp_u8(), an = (vp_raw() & 15) == 1, hn = (vp_raw() & 15) == 1; mbus_frame rep; int sok;
    A.is_primary = prim; if (prim) A.primary = pa; else A.secondary = hasmask ? MASK : NULL;
    memset(&rep, 0, sizeof rep);
    r = mbus_read_slave(hn ? NULL : &H, an ? NULL : &A, &rep);
    if (an || hn || (!prim && !hasmask)) { VP_ASSERT(r == -1 && !nsel && !nreq, "missing arguments are an error"); return; }
#ifndef VP_CBMC
    if (!prim && !ok) { VP_ASSERT(r == -1 && !nreq, "a malformed address is an error"); return; }
#endif
    VP_ASSERT(nsel == !prim, "selects exactly by secondary address");
    sok = prim || lastsel == P_SINGLE;
    VP_ASSERT(nreq == sok, "asks exactly a device that is addressed");
    if (sok) VP_ASSERT(reqaddr == (prim ? pa : 0xFD), "the address asked");
    VP_ASSERT(nrecv == (sok && !reqret), "receives exactly after the request");
    VP_ASSERT(r == (nrecv && rret == MBUS_RECV_RESULT_OK ? 0 : -1), "success exactly when a frame was received");
    VP_COVER(r == 0 && !prim, "read"); }
#endif
}
#endif
