/* Contracts of the transports.  MODE 1/2: serial/TCP reception (C20, C21) over the contract of mbus_parse (C01, C02);
 * MODE 3/4: serial/TCP sending (C22) over the contract of mbus_frame_pack (C03).
 * The system calls are stubs that may answer in every permitted way. */
#include "vp.h"
#include <errno.h>
#include <sys/types.h>
#include "mbus-protocol-aux.h"
#include "mbus-serial.h"
#include "mbus-tcp.h"
#include "spec_frame.h"
#define MAXF 261
static mbus_handle H; static mbus_frame F;
static int isser, tty, nev, evtype; static size_t evlen; static const char *evbuf; static int evok;
static size_t K; static u8 SK;          /* ghost: byte K of the stream */
static int fail(void) { return 0; }
static void event(unsigned char t, const char *b, size_t n);
int vp_isatty(int fd) { VP_ASSERT(fd == H.fd, "descriptor of the handle"); return tty; }
int vp_tcdrain(int fd) { VP_ASSERT(fd == H.fd, "descriptor of the handle"); return 0; }
#if MODE <= 2
long vp_write(int fd, const void *buf, size_t n) { VP_ASSERT(0, "nothing is written"); return -1; }
static const char *base; static size_t got, need, reads, parses, zeros, lastlen; static int lastr, eintr, rderr, done, how;
enum { H_NONE, H_ERR, H_EOF, H_AGAIN };
#ifdef VP_NATIVE
static u8 S[400]; static size_t SN, SM; static int stall;
#endif
long vp_read(int fd, void *buf, size_t n)
{
    size_t take; int c;
    VP_ASSERT(fd == H.fd, "descriptor of the handle");
    VP_ASSERT(!done, "no read after the frame ended or failed");
#ifdef VP_NATIVE
    if (got) { size_t nd, ex; spec_classify(S, got, &nd, &ex); need = ex ? ex : n <= nd ? n : nd; }
#endif
    VP_ASSERT(n >= 1 && n <= need, "asks for no more bytes than the frame is known to miss");
    if (!reads++) base = buf;
    VP_ASSERT((const char *)buf == base + got, "bytes are appended in order");
    VP_ASSERT(got + n <= MAXF, "never reads past the frame announced so far");
#ifdef VP_CBMC
    VP_ASSERT(__CPROVER_w_ok(buf, n), "the bytes fit the buffer");
#endif
    c = (int)(vp_raw() & 15);
#ifdef VP_NATIVE
    if (VP_SEARCHING && vp_rnd(300)) c = 7;          /* mostly ordinary reads */
#endif
    if (c == 0) {
        int e = vp_int() & 0xFF;
        if (e == EINTR && !isser) { VP_ASSUME(eintr < 1); eintr++; reads--; errno = EINTR; return -1; }
        errno = e; done = 1; rderr = 1; how = (e == EAGAIN || e == EWOULDBLOCK) ? H_AGAIN : H_ERR;
        return -1;
    }
    if (c == 1 || (isser && c == 2)) {
        zeros++;
        if (!isser) { done = 1; how = H_EOF; }
        else if (zeros == 3 || got == 0) done = 1;
        return 0;
    }
    take = n; if (c & 1) take = vp_range(1, n);
    eintr = 0;
#ifdef VP_CBMC
    if (got <= K && K < got + take) ((u8 *)buf)[K - got] = SK;
#else
    memcpy(buf, S + got, take);
    { size_t nd, ex; done = spec_classify(S, got + take, &nd, &ex) != S_NEED; }
#endif
    got += take;
    return (long)take;
}
#ifdef VP_CBMC
int mbus_parse(mbus_frame *frame, unsigned char *data, size_t size)
{
    int r;
    VP_ASSERT(frame == &F, "the frame of the caller");
    VP_ASSERT((const char *)data == base && size == got, "every byte read is examined, nothing else");
    if (K < got) VP_ASSERT(data[K] == SK, "the bytes are those of the line, in order");
    parses++;
    if (size == 0) { lastr = -1; return -1; }
    if (size == lastlen) return lastr;                 /* same bytes, same answer */
    r = (int)vp_raw();
    VP_ASSUME(r <= 0 || (size_t)r + size <= MAXF);     /* contract of mbus_parse, C02 */
    lastlen = size; lastr = r;
    if (r > 0) need = (size_t)r; else done = 1;
    return r;
}
#endif
#ifdef VP_CBMC
/* cut of the reception loop, at its condition (after the body) */
static int inv(void **v)
{
    const char *b = v[1]; long len = *(long *)v[2];
    if (len < 0 || (size_t)len != got || b != base) return 0;
    if (MODE == 1 && *(int *)v[3] != (int)zeros) return 0;
    if (need < 1 || lastlen + need > MAXF || got > lastlen + need || got < lastlen || reads < 1 || reads > got + zeros) return 0;
    if (MODE == 1 ? zeros > 2 : (zeros > 0 || got == 0)) return 0;
    if (lastlen ? lastr != (int)need : need != 1) return 0;
    if (got == lastlen && zeros == 0) return 0;
    if (nev || rderr || how != H_NONE || eintr || done != (got == 0)) return 0;
    if (got == 0 && (zeros != 1 || reads != 1)) return 0;
    if (K < got && (u8)b[K] != SK) return 0;
    return 1;
}
static int cuts;
void vp_cut(void **v, int n)
{
    int k;
    VP_ASSERT(n >= 3 + (MODE == 1), "loop state");
    VP_ASSERT(inv(v), "loop invariant");
    if (cuts++) VP_ASSUME(0);
    for (k = 0; k < n; k++) __CPROVER_havoc_object(v[k]);
    got = vp_size(); need = vp_size(); reads = vp_size(); zeros = vp_size(); lastlen = vp_size(); lastr = vp_int(); done = vp_bit();
    VP_ASSUME(inv(v));
}
#endif
static void event(unsigned char t, const char *b, size_t n)
{
    nev++; evtype = t; evlen = n;
    VP_ASSERT(b == base && n == got, "the event reports the bytes received");
}
#else
static unsigned char *pbuf; static int plen, packs, writes; static long wret; static int wlen_ok;
#ifdef VP_CBMC
int mbus_frame_pack(mbus_frame *frame, unsigned char *data, size_t size)
{
    VP_ASSERT(frame == &F, "the frame of the caller"); VP_ASSERT(size >= MAXF && __CPROVER_w_ok(data, size), "room for every frame");
    packs++; pbuf = data;
    plen = (int)vp_raw(); VP_ASSUME(plen < 0 || (plen >= 1 && plen <= MAXF));   /* contract of mbus_frame_pack, C03 */
    if (plen > 0 && K < (size_t)plen) data[K] = SK;
    return plen;
}
#endif
static long anylen; static int wre;
long vp_read(int fd, void *buf, size_t n) { VP_ASSERT(0, "nothing is read"); return -1; }
long vp_write(int fd, const void *buf, size_t n)
{
    VP_ASSERT(fd == H.fd, "descriptor of the handle");
    VP_ASSERT(!writes++, "written once");
#ifdef VP_CBMC
    VP_ASSERT(packs == 1 && plen > 0 && n == (size_t)plen, "exactly the packed bytes");
    if (K < n) VP_ASSERT(((const u8 *)buf)[K] == SK, "exactly the packed bytes");
#else
    if (plen <= 0 || n != (size_t)plen || memcmp(buf, pbuf, n)) VP_ASSERT(0, "exactly the packed bytes");
#endif
    wret = (vp_raw() & 1) ? (long)n : (long)vp_range(0, n) - 1;
    if (wret < 0) errno = EIO;
    return wret;
}
static void event(unsigned char t, const char *b, size_t n)
{
    nev++; evtype = t; evlen = n;
    VP_ASSERT(writes == 1 && wret == plen, "the event follows the complete write");
    VP_ASSERT(n == (size_t)plen, "the event reports the bytes sent");
#ifdef VP_CBMC
    if (K < n) VP_ASSERT(((const u8 *)b)[K] == SK, "the event reports the bytes sent");
#else
    VP_ASSERT(!memcmp(b, pbuf, n), "the event reports the bytes sent");
#endif
}
#endif
#ifdef VP_CBMC
void mbus_error_str_set(char *m) { (void)m; }
#endif
void harness(void)
{
    int r, null = (int)(vp_raw() & 15), ev; mbus_handle *h = &H; mbus_frame *f = &F;
    isser = MODE == 1 || MODE == 3;
    H.fd = vp_int(); tty = vp_raw() & 15 ? 1 : 0; ev = vp_bit(); H.recv_event = H.send_event = 0; H.is_serial = isser;
    K = vp_range(0, MAXF - 1); SK = vp_u8();
    if (null == 1) h = NULL; if (null == 2) f = NULL;
#if MODE <= 2
    H.recv_event = ev ? event : 0;
    got = reads = parses = zeros = lastlen = 0; need = 1; lastr = 1; eintr = rderr = done = 0; how = H_NONE; nev = 0; base = 0;
#ifdef VP_NATIVE
    { size_t m = vp_mark(), k; int kind; vp_fill(S, 270); kind = VP_SEARCHING ? (int)vp_rnd(6) : 0;
      if (VP_SEARCHING && kind) {
        size_t L = 3 + vp_rnd(3) * vp_rnd(85) % 253, tot = L + 6; u8 c = 0; static const u8 sc[] = {0x40,0x5A,0x7A,0x5B,0x7B}, lc[] = {0x53,0x73,0x08,0x18,0x28,0x38};
        if (kind == 1) { S[0] = 0x10; S[1] = sc[vp_rnd(5)]; S[3] = S[1] + S[2]; S[4] = 0x16; }
        else if (kind == 2) S[0] = 0xE5;
        else { S[0] = S[3] = 0x68; S[1] = S[2] = (u8)L; S[4] = lc[vp_rnd(6)]; for (k = 4; k < tot - 2; k++) c += S[k]; S[tot - 2] = c; S[tot - 1] = 0x16; }
        if (!vp_rnd(6)) S[vp_rnd((unsigned)tot)] ^= 1 << vp_rnd(8);
        vp_relog(m, S, 270);
      } }
#endif
    r = isser ? mbus_serial_recv_frame(h, f) : mbus_tcp_recv_frame(h, f);
    if (null == 1 || null == 2) { VP_ASSERT(r == MBUS_RECV_RESULT_ERROR && !reads && !nev, "a null argument is rejected"); return; }
    if (isser && !tty) { VP_ASSERT(r == MBUS_RECV_RESULT_ERROR && !reads && !nev, "a line that is not open is an error"); return; }
    VP_ASSERT(reads >= 1 && done, "ends only when the frame is complete, malformed, silent or failing");
#ifdef VP_NATIVE
    { size_t nd, ex; int c = got ? spec_classify(S, got, &nd, &ex) : S_INVALID; lastr = c == S_INVALID ? -1 : c == S_NEED ? (int)nd : 0; if (isser && zeros == 0 && !rderr && !got) lastr = -1; }
#endif
    if (rderr) VP_ASSERT(r == (isser || how == H_ERR ? MBUS_RECV_RESULT_ERROR : MBUS_RECV_RESULT_TIMEOUT) && nev == 0, "a failed read");
    else if (!isser && how == H_EOF) VP_ASSERT(r == MBUS_RECV_RESULT_RESET && nev == 0, "a closed connection");
    else if (got == 0) VP_ASSERT(r == MBUS_RECV_RESULT_TIMEOUT && nev == 0, "silence is a timeout");
    else {
        VP_ASSERT((r == MBUS_RECV_RESULT_OK) == (lastr == 0), "success exactly on one valid frame");
        if (lastr != 0) VP_ASSERT(r == MBUS_RECV_RESULT_INVALID, "a malformed or broken off frame is invalid");
        VP_ASSERT(nev == ev && (!ev || (evtype == (isser ? MBUS_HANDLE_TYPE_SERIAL : MBUS_HANDLE_TYPE_TCP))), "received bytes are reported once");
    }
    if (isser) VP_ASSERT(zeros <= 3 && reads <= MAXF + 3, "a bounded number of reads");
    VP_COVER(r == MBUS_RECV_RESULT_OK, "frame");
    VP_COVER(r == MBUS_RECV_RESULT_INVALID && got > 2, "malformed"); VP_COVER(r == MBUS_RECV_RESULT_TIMEOUT, "timeout");
#else
    H.send_event = ev ? event : 0;
    plen = packs = writes = nev = 0;
#ifdef VP_NATIVE
    { static u8 B[300]; int t = (int)vp_range(0, 5); size_t k; pbuf = B;
      F.type = t; F.data_size = vp_range(0, 252); vp_fill(&F.start1, 9); vp_fill(F.data, 252);
      if (VP_SEARCHING && !vp_rnd(8)) F.data_size = 253 + vp_rnd(100);
      plen = mbus_frame_pack(&F, B, sizeof B); }
#endif
    r = isser ? mbus_serial_send_frame(h, f) : mbus_tcp_send_frame(h, f);
    if (null == 1 || null == 2) { VP_ASSERT(r == -1 && !packs && !writes && !nev, "a null argument is rejected"); return; }
    if (isser && !tty) { VP_ASSERT(r == -1 && !writes && !nev, "a line that is not open is an error"); return; }
    if (plen < 0) VP_ASSERT(r == -1 && !writes && !nev, "a frame that cannot be packed sends nothing");
    else {
        VP_ASSERT(writes == 1, "the frame is written");
        VP_ASSERT((r == 0) == (wret == plen), "success exactly when every byte was written");
        if (r != 0) VP_ASSERT(r == -1 && nev == 0, "a failed or short write is an error");
        else VP_ASSERT(nev == ev && (!ev || evtype == (isser ? MBUS_HANDLE_TYPE_SERIAL : MBUS_HANDLE_TYPE_TCP)), "reported once to the callback");
    }
    VP_COVER(r == 0, "sent"); VP_COVER(r == -1 && writes, "short write");
#endif
}
