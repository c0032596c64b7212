/* Contracts of the handle layer.  MODE 1: mbus_recv_frame (C27); 2: mbus_purge_frames; 3: mbus_send_frame (C22);
 * 4/5: serial/TCP contexts (C28); 6: options (C28); 7: serial connect/disconnect; 8: TCP connect/disconnect. */
#include "vp.h"
#include <errno.h>
#include <time.h>
#include <netdb.h>
#include <fcntl.h>
#include <termios.h>
#include "mbus-protocol-aux.h"
#include "mbus-serial.h"
#include "mbus-tcp.h"
#define VPM_N 8
#define VPM_STRDUP
#include "vp_mem.h"
static mbus_handle H; static mbus_frame F;
static int calls, r1, r2, seq[8]; static time_t now;
time_t vp_time(time_t *t) { if (t) *t = now; return now; }
#if MODE <= 3
static u8 ctl[2]; static int typ[2];
static int rcv(mbus_handle *h, mbus_frame *f)
{
    VP_ASSERT(h == &H, "the handle"); VP_ASSERT(MODE == 2 || f == &F, "the frame of the caller");
#if MODE == 1
    VP_ASSERT(calls < 2, "the transport is asked at most twice");
    if (calls >= 2) return MBUS_RECV_RESULT_ERROR;
    f->control = ctl[calls]; f->type = typ[calls]; f->timestamp = 0;
    return calls++ ? r2 : r1;
#else
    f->type = 4; f->control = 0x08;
    if (calls >= 4) { calls++; return MBUS_RECV_RESULT_TIMEOUT; }
    return seq[calls++];
#endif
}
static int snd(mbus_handle *h, mbus_frame *f) { VP_ASSERT(h == &H && f == &F, "the handle and the frame of the caller"); calls++; return r1; }
#endif
static int nopen, nclose, lastfd, nai, nfree, order_bad; static u8 isopen[4];
int vp_open(const char *d, int fl) { VP_ASSERT(!strcmp(d, "/d"), "the device of the context"); nopen++; if (r1) return -1; isopen[0] = 1; return 10; }
int vp_close(int fd) { VP_ASSERT(fd >= 10 && fd < 14 && isopen[fd - 10], "closes an open descriptor once"); if (fd >= 10 && fd < 14) isopen[fd - 10] = 0; nclose++; return 0; }
int vp_tcsetattr(int fd, int a, const struct termios *t) { VP_ASSERT(fd == 10 && isopen[0], "configures the open line"); VP_ASSERT((t->c_cflag & CS8) == CS8 && (t->c_cflag & PARENB) && !(t->c_cflag & PARODD) && (t->c_cflag & CREAD) && !(t->c_cflag & CSTOPB), "8 data bits, even parity, 1 stop bit"); nai++; return 0; }
int vp_cfset(struct termios *t, speed_t s) { VP_ASSERT(s == B2400, "2400 baud"); nfree++; return 0; }
#if MODE == 8
static struct addrinfo AI[3]; static int NA, sok[3], cok[3]; static unsigned port;
int vp_getaddrinfo(const char *h, const char *p, const struct addrinfo *hint, struct addrinfo **res)
{
    unsigned v = 0; int k;
    nai++;
    VP_ASSERT(h[0] == 'h' && h[1] == 0, "the host of the context");
    for (k = 0; k < 5 && p[k] >= '0' && p[k] <= '9'; k++) v = v * 10 + (p[k] - '0');
    VP_ASSERT(k > 0 && p[k] == 0 && v == port, "the port of the context");
    if (r1) return r1;
    *res = NA ? &AI[0] : NULL;
    return 0;
}
void vp_freeaddrinfo(struct addrinfo *a) { nfree++; VP_ASSERT(a == (NA ? &AI[0] : NULL), "the list"); }
const char *vp_gai(int e) { return "e"; }
static int cur;
int vp_socket(int f, int t, int p) { VP_ASSERT(!nfree && cur < NA, "the list is in use"); if (cur >= NA) return -1; if (!sok[cur]) { cur++; return -1; } isopen[cur] = 1; return 10 + cur; }
int vp_connect(int fd, const struct sockaddr *a, socklen_t l) { VP_ASSERT(fd == 10 + cur && isopen[cur] && a == AI[cur].ai_addr && l == AI[cur].ai_addrlen, "connects the new socket to its address"); cur++; return cok[cur - 1] ? 0 : -1; }
int vp_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { VP_ASSERT(fd >= 10 && isopen[fd - 10], "open socket"); return 0; }
#endif
#ifdef VP_CBMC
#if MODE == 8
#include "vp_printf.h"
#endif
#if MODE == 4 || MODE == 5 || MODE == 8
void mbus_error_str_set(char *m) { (void)m; }
#endif
#endif
void harness(void)
{
    int r, k;
    now = (time_t)(vp_raw() >> 1); calls = 0;
#if MODE == 1
    mbus_handle *h = &H; mbus_frame *f = &F; int null = (int)(vp_raw() & 15), dir, again;
    if (null == 1) h = NULL; if (null == 2) f = NULL;
    H.recv = rcv; H.purge_first_frame = (char)vp_u8();
#ifdef VP_NATIVE
    if (VP_SEARCHING) H.purge_first_frame %= 3;
#endif
    for (k = 0; k < 2; k++) { ctl[k] = vp_u8(); typ[k] = (int)vp_range(0, 5); }
    r1 = -(int)vp_range(0, 5); r2 = -(int)vp_range(0, 5); if (vp_bit()) r1 = MBUS_RECV_RESULT_OK;
    F.timestamp = 0; F.control = vp_u8(); F.type = (int)vp_range(0, 5);
    r = mbus_recv_frame(h, f);
    if (null == 1 || null == 2) { VP_ASSERT(r == MBUS_RECV_RESULT_ERROR && calls == 0, "null arguments are rejected"); return; }
    dir = typ[0] != MBUS_FRAME_TYPE_ACK && (ctl[0] & 0x40) ? 1 : 2;
    again = r1 == MBUS_RECV_RESULT_OK && H.purge_first_frame == (dir == 1 ? MBUS_FRAME_PURGE_M2S : MBUS_FRAME_PURGE_S2M);
    VP_ASSERT(calls == 1 + again, "asked once more exactly to skip an echo");
    VP_ASSERT(r == (again ? r2 : r1), "the result of the transport");
    VP_ASSERT(F.timestamp == now && F.control == ctl[again] && F.type == typ[again], "the frame received last, with its time");
    VP_COVER(again && r2 == 0, "echo"); VP_COVER(!again && r1 == -1, "error");
#elif MODE == 2
    int any = 0, n;
    H.recv = rcv; H.purge_first_frame = 0;
    for (k = 0; k < 4; k++) seq[k] = -(int)vp_range(0, 4);
    for (n = 0; n < 4; n++) { if (seq[n] != MBUS_RECV_RESULT_OK && seq[n] != MBUS_RECV_RESULT_INVALID) break; any = 1; }
    r = mbus_purge_frames(&H);
    VP_ASSERT(r == any, "tells whether something was pending");
    VP_ASSERT(calls == n + 1, "reads until nothing is pending");
    VP_COVER(n == 4, "several");
#elif MODE == 3
    int null = vp_bit(); H.send = snd; r1 = vp_int();
    r = mbus_send_frame(null ? NULL : &H, &F);
    if (null) VP_ASSERT(r == -1 && calls == 0, "a null handle is an error");
    else VP_ASSERT(r == r1 && calls == 1, "the result of the transport");
    VP_COVER(!null, "sent");
#elif MODE == 4 || MODE == 5
    char name[6]; int fl = (int)vp_range(0, 4); mbus_handle *h; unsigned port = vp_u16(); char *copy;
    vp_fill(name, 5); name[5] = 0;
    vpm_reset(fl < 3 ? fl : -1);
    h = MODE == 4 ? mbus_context_serial(name) : mbus_context_tcp(name, (uint16_t)port);
    if (vpm_failed) { VP_ASSERT(h == NULL && vpm_live == 0, "null when memory is exhausted, nothing leaks"); return; }
    VP_ASSERT(h != NULL && vpm_live == 3, "a handle");
    VP_ASSERT(h->fd < 0, "no open descriptor");
    VP_ASSERT(h->max_data_retry == 3 && h->max_search_retry == 1 && h->purge_first_frame == MBUS_FRAME_PURGE_M2S && !!h->is_serial == (MODE == 4), "defaults");
    VP_ASSERT(!h->recv_event && !h->send_event && !h->scan_progress && !h->found_event, "no callbacks");
#if MODE == 4
    VP_ASSERT(h->open == mbus_serial_connect && h->close == mbus_serial_disconnect && h->recv == mbus_serial_recv_frame && h->send == mbus_serial_send_frame, "serial transport");
    copy = ((mbus_serial_data *)h->auxdata)->device;
#else
    VP_ASSERT(h->open == mbus_tcp_connect && h->close == mbus_tcp_disconnect && h->recv == mbus_tcp_recv_frame && h->send == mbus_tcp_send_frame, "TCP transport");
    copy = ((mbus_tcp_data *)h->auxdata)->host;
    VP_ASSERT(((mbus_tcp_data *)h->auxdata)->port == port, "the port");
#endif
    VP_ASSERT(copy != name, "its own copy of the name");
    for (k = 0; k < 6; k++) { VP_ASSERT(copy[k] == name[k], "a copy of the name"); if (!name[k]) break; }
    mbus_context_free(h);
    VP_ASSERT(vpm_live == 0, "everything is released once");
    mbus_context_free(NULL);
    VP_COVER(fl == 4, "created");
#elif MODE == 6
    mbus_handle G; int opt = vp_int(); long v; int ok;
    vp_fill(&H, sizeof H); v = (long)vp_raw();
#ifdef VP_NATIVE
    if (VP_SEARCHING) { opt = (int)vp_rnd(5) - 1; v = (long)vp_rnd(14) - 2; vp_raw(); }
#endif
    memcpy(&G, &H, sizeof H);
    r = mbus_context_set_option(&H, opt, v);
    ok = opt == MBUS_OPTION_MAX_DATA_RETRY || opt == MBUS_OPTION_MAX_SEARCH_RETRY ? v >= 0 && v <= 9
       : opt == MBUS_OPTION_PURGE_FIRST_FRAME ? v == MBUS_FRAME_PURGE_NONE || v == MBUS_FRAME_PURGE_M2S || v == MBUS_FRAME_PURGE_S2M : 0;
    VP_ASSERT(r == (ok ? 0 : -1), "success exactly for a permitted value");
    if (ok && opt == MBUS_OPTION_MAX_DATA_RETRY) { VP_ASSERT(H.max_data_retry == v, "the option"); G.max_data_retry = H.max_data_retry; }
    if (ok && opt == MBUS_OPTION_MAX_SEARCH_RETRY) { VP_ASSERT(H.max_search_retry == v, "the option"); G.max_search_retry = H.max_search_retry; }
    if (ok && opt == MBUS_OPTION_PURGE_FIRST_FRAME) { VP_ASSERT(H.purge_first_frame == v, "the option"); G.purge_first_frame = H.purge_first_frame; }
    VP_ASSERT(H.fd == G.fd && H.max_data_retry == G.max_data_retry && H.max_search_retry == G.max_search_retry && H.purge_first_frame == G.purge_first_frame && H.is_serial == G.is_serial
        && H.open == G.open && H.close == G.close && H.send == G.send && H.recv == G.recv && H.free_auxdata == G.free_auxdata && H.recv_event == G.recv_event && H.send_event == G.send_event
        && H.scan_progress == G.scan_progress && H.found_event == G.found_event && H.auxdata == G.auxdata, "nothing else changes");
    VP_ASSERT(mbus_context_set_option(NULL, opt, v) == -1, "null handle");
    VP_COVER(ok, "set"); VP_COVER(!ok, "refused");
#elif MODE == 7
    static mbus_serial_data D;
    memset(&D, 0, sizeof D); memset(&H, 0, sizeof H); isopen[0] = nopen = nclose = nai = nfree = 0; H.fd = -1; H.auxdata = &D; D.device = "/d"; r1 = vp_bit();
    H.open = mbus_serial_connect; H.close = mbus_serial_disconnect;
    r = mbus_serial_connect(&H);
    if (r1) { VP_ASSERT(r == -1 && H.fd < 0 && nai == 0, "a failed connect leaves no descriptor"); VP_ASSERT(mbus_serial_disconnect(&H) == -1 && nclose == 0, "nothing to close"); }
    else {
        VP_ASSERT(r == 0 && H.fd == 10 && nopen == 1 && nai == 1 && nfree >= 1, "connected");
        VP_ASSERT(mbus_serial_disconnect(&H) == 0 && nclose == 1 && H.fd < 0 && !isopen[0], "closed once");
        VP_ASSERT(mbus_serial_disconnect(&H) == -1 && nclose == 1, "closed once");
    }
    VP_ASSERT(mbus_serial_connect(NULL) == -1 && mbus_serial_disconnect(NULL) == -1, "null handle");
    H.auxdata = NULL; VP_ASSERT(mbus_serial_connect(&H) == -1, "no device");
    VP_COVER(!r1, "connected");
#elif MODE == 8
    static mbus_tcp_data D; int hit = -1;
    memset(&H, 0, sizeof H); for (k = 0; k < 4; k++) isopen[k] = 0; nclose = nai = nfree = cur = 0; H.fd = -1; H.auxdata = &D; D.host = "h"; D.port = (uint16_t)vp_u16(); port = D.port;
    r1 = vp_bit() ? -(int)vp_range(1, 12) : 0; NA = N;
    for (k = 0; k < 3; k++) { AI[k].ai_next = k + 1 < NA ? &AI[k + 1] : NULL; AI[k].ai_family = k; AI[k].ai_addr = (void *)(AI + k); AI[k].ai_addrlen = 16 + k; sok[k] = vp_bit(); cok[k] = vp_bit(); }
    for (k = NA - 1; k >= 0; k--) if (sok[k] && cok[k]) hit = k;
    r = mbus_tcp_connect(&H);
    VP_ASSERT(nai == 1 && nfree == (r1 ? 0 : 1), "the address list is released once");
    for (k = 0; k < 3; k++) VP_ASSERT(isopen[k] == (!r1 && k == hit), "no descriptor besides the connected one stays open");
    if (r1 || hit < 0) { VP_ASSERT(r == -1 && H.fd < 0, "a failed connect leaves no descriptor"); VP_ASSERT(mbus_tcp_disconnect(&H) == -1, "nothing to close"); }
    else {
        VP_ASSERT(r == 0 && H.fd == 10 + hit, "connected to the first address that answers");
        VP_ASSERT(mbus_tcp_disconnect(&H) == 0 && H.fd < 0 && !isopen[hit], "closed once");
        VP_ASSERT(mbus_tcp_disconnect(&H) == -1, "closed once");
    }
    VP_ASSERT(mbus_tcp_connect(NULL) == -1 && mbus_tcp_disconnect(NULL) == -1, "null handle");
    H.auxdata = NULL; VP_ASSERT(mbus_tcp_connect(&H) == -1, "no host");
    VP_COVER(r == 0 || N == 0, "connected");
#endif
}
