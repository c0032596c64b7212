/* Contract of mbus_scan_2nd_address_range (C26): one level over the contract of probing (C25) and, by induction on
 * 16 - pos, over its own contract for the levels below (recursive calls go to vp_rec_...). */
#include "vp.h"
#include "mbus-protocol-aux.h"
#define VPM_N 4
#define VPM_STRDUP
static mbus_handle H; static char M[20], M0[20];
#ifdef VP_NATIVE
/* every level of the real recursion allocates; leaks are counted, not tracked */
static int vpm_live, vpm_failed, vpm_fail, vpm_calls; static void *BLK[64];
char *vp_strdup(const char *s) { char *d; if (vpm_calls++ == vpm_fail) { vpm_failed = 1; return NULL; } d = malloc(strlen(s) + 1); strcpy(d, s); BLK[vpm_live++ % 64] = d; return d; }
void vp_free(void *p) { int k; for (k = vpm_live - 1; p && k >= 0; k--) if (BLK[k] == p) { BLK[k] = BLK[--vpm_live]; break; } free(p); }
static void vpm_reset(int f) { vpm_fail = f; vpm_live = vpm_calls = vpm_failed = 0; }
#else
#include "vp_mem.h"
#endif
static int nprobe, nrec, nprog, pos, wild, failed, lastres, lastd, pend, withprog;
static int eqmask(const char *m, int d)             /* m is the mask with digit d at pos (d < 0: unchanged) */
{
    int k, ok = 1;
    for (k = 0; k < 17; k++) if (m[k] != (k == pos && d >= 0 ? '0' + d : M0[k])) ok = 0;
    return ok;
}
#ifdef VP_CBMC
static void progress(mbus_handle *h, const char *m) { VP_ASSERT(h == &H, "the handle"); VP_ASSERT(nprog == nprobe && eqmask(m, wild ? nprobe : -1), "progress reports the mask to be probed"); nprog++; }
int mbus_probe_secondary_address(mbus_handle *h, const char *m, char *out)
{
    VP_ASSERT(h == &H, "the handle"); VP_ASSERT(__CPROVER_w_ok(out, 17), "room for an address");
    VP_ASSERT(wild || pos == 15, "a given digit is not probed before the last position");
    VP_ASSERT(!failed, "stops after a failure"); VP_ASSERT(!pend, "a collision is resolved first");
    VP_ASSERT(nprobe < (wild ? 10 : 1), "each digit once");
    VP_ASSERT(eqmask(m, wild ? nprobe : -1), "the mask with the next digit");
    if (withprog) VP_ASSERT(nprog == nprobe + 1, "progress is reported before probing");
    nprobe++; lastres = (int)(vp_raw() & 3) - 1;
    if (lastres == MBUS_PROBE_ERROR) failed = 1;
    if (lastres == MBUS_PROBE_COLLISION && pos < 15) pend = 1;
    if (lastres == MBUS_PROBE_SINGLE) out[16] = 0;
    return lastres;
}
int vp_rec_mbus_scan_2nd_address_range(mbus_handle *h, int p, char *m)
{
    VP_ASSERT(h == &H, "the handle"); VP_ASSERT(p == pos + 1, "the next position");
    VP_ASSERT(!failed, "stops after a failure");
    if (p >= 16) return 0;
    if (wild) { VP_ASSERT(pend, "descends exactly into masks that collide"); VP_ASSERT(eqmask(m, nprobe - 1), "the colliding mask"); pend = 0; }
    else { VP_ASSERT(nrec == 0, "descends once"); VP_ASSERT(eqmask(m, -1), "the given mask"); }
    nrec++;
    if (vp_bit()) { failed = 1; return -1; }
    return 0;
}
void harness(void)
{
    int r, k, hn = (vp_raw() & 15) == 1, mn = (vp_raw() & 15) == 1, len16, fl = (vp_raw() & 7) == 1;
    size_t l = vp_range(0, 18);
    pos = vp_int(); vp_fill(M, 19); M[l] = 0; M[18] = 0;
    for (k = 0; k < 20; k++) M0[k] = M[k];
    len16 = M[16] == 0; for (k = 0; k < 16; k++) if (!M[k]) len16 = 0;
    wild = 0; if (pos >= 0 && pos < 16) wild = M[pos] == 'f' || M[pos] == 'F';
    nprobe = nrec = nprog = failed = pend = 0; lastres = -9; vpm_reset(fl ? 0 : -1);
    withprog = vp_bit(); H.scan_progress = withprog ? progress : 0; H.found_event = 0;
    r = mbus_scan_2nd_address_range(hn ? NULL : &H, pos, mn ? NULL : M);
    for (k = 0; k < 20; k++) VP_ASSERT(M[k] == M0[k], "the caller's mask is unchanged");
    VP_ASSERT(vpm_live == 0, "the temporary mask is released");
    if (hn || mn || !len16) { VP_ASSERT(r == -1 && !nprobe && !nrec, "missing handle or malformed mask"); return; }
    if (pos < 0 || pos >= 16) { VP_ASSERT(r == 0 && !nprobe && !nrec, "no such position: nothing to do"); return; }
    if (vpm_failed) { VP_ASSERT(r == -1 && !nprobe && !nrec, "out of memory"); return; }
    VP_ASSERT(r == (failed ? -1 : 0), "failure is reported exactly when a probe failed");
    if (!failed) {
        VP_ASSERT(nprobe == (wild ? 10 : pos == 15), "every digit is probed"); VP_ASSERT(!pend, "every collision is resolved");
        if (!wild && pos < 15) VP_ASSERT(nrec == 1, "descends past a given digit");
        VP_ASSERT(nprog == (withprog ? nprobe : 0), "progress is reported once per probe");
    }
    VP_COVER(wild && r == 0 && nrec == 10, "all collide"); VP_COVER(failed && nprobe == 4, "failure"); VP_COVER(!wild && nrec, "given digit");
}
#else
static unsigned salt, budget; static char LOG[5000][17]; static int nlog, at, bad, lost; static int st, step, cur, second;
static unsigned hash(const char *m) { unsigned h = 2166136261u + salt; int k; for (k = 0; k < 16; k++) h = (h ^ (u8)m[k]) * 16777619u; return h ^ (h >> 15); }
static int result(const char *m) { unsigned h = hash(m) % 100; int w = 0, k; for (k = 0; k < 16; k++) w += m[k] == 'f' || m[k] == 'F'; return h < 12 ? MBUS_PROBE_COLLISION : h < 20 ? MBUS_PROBE_SINGLE : h == 20 && w < 15 ? MBUS_PROBE_ERROR : MBUS_PROBE_NOTHING; }
static int spec(int p, char *m)
{
    int d; char t[17];
    if (p >= 16) return 0;
    memcpy(t, m, 17);
    if (m[p] != 'f' && m[p] != 'F' && p < 15) return spec(p + 1, t);
    for (d = 0; d < 10; d++) {
        int r;
        if (m[p] == 'f' || m[p] == 'F') t[p] = '0' + d; else if (d) break;
        if (nlog >= 5000) { lost = 1; return -1; }
        memcpy(LOG[nlog++], t, 17); r = result(t);
        if (r == MBUS_PROBE_ERROR) return -1;
        if (r == MBUS_PROBE_COLLISION && spec(p + 1, t)) return -1;
    }
    return 0;
}
static void progress(mbus_handle *h, const char *m)
{
    (void)h;
    if (at >= nlog || memcmp(LOG[at], m, 17)) bad = 1;
    at++; nprog++;
}
static int snd(mbus_handle *h, mbus_frame *f) { (void)h; st = f->type == MBUS_FRAME_TYPE_LONG ? 1 : 2; step = 0; if (st == 1) { if (withprog ? at < 1 : at >= nlog) { bad = 1; return -1; } if (!withprog) at++; nprobe++; cur = result(LOG[at - 1]);
    { static mbus_frame E; int k; mbus_frame_select_secondary_pack(&E, LOG[at - 1]); if (f->data_size != 8) bad = 1; for (k = 0; k < 8; k++) if (E.data[k] != f->data[k]) bad = 1; } if (cur == MBUS_PROBE_ERROR) return -1; } return 0; }
static int rcv(mbus_handle *h, mbus_frame *f)
{
    (void)h;
    if (step++ || !st) return MBUS_RECV_RESULT_TIMEOUT;
    if (st == 1) { f->type = MBUS_FRAME_TYPE_ACK; return cur == MBUS_PROBE_NOTHING ? MBUS_RECV_RESULT_TIMEOUT : cur == MBUS_PROBE_COLLISION ? MBUS_RECV_RESULT_INVALID : MBUS_RECV_RESULT_OK; }
    f->type = MBUS_FRAME_TYPE_LONG; f->control = 8; f->control_information = 0x72; f->data_size = 12; return MBUS_RECV_RESULT_OK;
}
static void found(mbus_handle *h, mbus_frame *f) { (void)h; (void)f; }
void harness(void)
{
    int r, k, e, fl;
    salt = (unsigned)vp_raw(); pos = (int)vp_range(0, 16); fl = (int)(vp_raw() & 31); H.send = snd; H.recv = rcv; H.found_event = found; H.max_search_retry = 0; withprog = vp_bit(); H.scan_progress = withprog ? progress : 0; H.purge_first_frame = 0;
    for (k = 0; k < 16; k++) M[k] = "0123456789abcdeffF"[vp_range(0, 17)]; M[16] = 0; memcpy(M0, M, 20);
    if (!vp_bit()) for (k = 0; k < 16; k++) M[k] = M0[k] = 'F';
    nlog = at = bad = lost = nprobe = nprog = 0; memcpy(M0, M, 20); e = spec(pos, M0); if (lost) VP_ASSUME(0);
    vpm_reset(fl == 1 ? 0 : fl == 2 ? 1 : -1);
    r = mbus_scan_2nd_address_range(&H, pos, M);
    VP_ASSERT(!memcmp(M, M0, 17), "the caller's mask is unchanged"); VP_ASSERT(vpm_live == 0, "the temporary masks are released");
    if (vpm_failed) { VP_ASSERT(r == -1, "out of memory"); return; }
    VP_ASSERT(!bad && at == nlog && nprobe == nlog, "exactly the masks of the specification, in order"); VP_ASSERT(r == e, "failure is reported exactly when a probe failed");
    VP_COVER(nlog > 11, "descends"); VP_COVER(e, "failure"); VP_COVER(!e && nlog == 1, "single");
}
#endif
