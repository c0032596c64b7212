/* CBMC model of snprintf (the proof back end only; native replays use the C library).
 * Exact for %%, %c, %s, %.Ns, and for d i u x X with 0, width, precision and l ll z h hh.
 * A floating-point conversion is abstracted: it emits the two bytes 0x01 <index> and records the
 * argument and precision in vp_flt[], so that a contract can compare the argument itself.
 * Anything else is a failed obligation "model-limit". */
#ifndef VP_PRINTF_H
#define VP_PRINTF_H
#include <stdarg.h>
#define VP_NFLT 8
struct vp_flt_rec { double v; int prec; char conv; };
#ifdef VP_CBMC
static struct vp_flt_rec vp_flt[VP_NFLT]; static int vp_nflt;
/* the model's own statements are not checked one by one: what it read and wrote is checked at the end of each piece */
#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer-overflow"
#pragma CPROVER check disable "signed-overflow"
#pragma CPROVER check disable "undefined-shift"
#pragma CPROVER check disable "div-by-zero"
#pragma CPROVER check disable "conversion"
#pragma CPROVER check disable "pointer-primitive"
static int vp_vsnprintf(char *dst, size_t n, const char *f, va_list ap)
{
    size_t pos = 0;
#define VP_OUT(c) do { if (pos + 1 < n) dst[pos] = (char)(c); pos++; } while (0)
    while (*f) {
        int zero = 0, width = 0, prec = -1, lng = 0;
        if (*f != '%') { VP_OUT(*f); f++; continue; }
        f++;
        if (*f == '0') { zero = 1; f++; }
        while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { prec = 0; f++; while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
        while (*f == 'l') { lng++; f++; }
        if (*f == 'z') { lng = 2; f++; }
        if (*f == 'h') { lng = -1; f++; if (*f == 'h') { lng = -2; f++; } }
        if (*f == '%') VP_OUT('%');
        else if (*f == 'c') { int c = va_arg(ap, int); VP_OUT(c); }
        else if (*f == 's') {
            const char *s = va_arg(ap, const char *);
            int k = 0;
            __CPROVER_assert(s != NULL, "VP:model-limit %s of null");
            while ((prec < 0 || k < prec) && s[k]) { VP_OUT(s[k]); k++; }
            __CPROVER_assert(__CPROVER_r_ok(s, prec < 0 || k < prec ? k + 1 : k), "VP:text argument of a format within its object");
            __CPROVER_assert(width == 0, "VP:model-limit %s width");
        }
        else if (*f == 'f' || *f == 'g' || *f == 'e' || *f == 'G' || *f == 'E') {
            double d = va_arg(ap, double);
            __CPROVER_assert(vp_nflt < VP_NFLT && width == 0, "VP:model-limit float conversions");
            vp_flt[vp_nflt].v = d; vp_flt[vp_nflt].prec = prec < 0 ? 6 : prec; vp_flt[vp_nflt].conv = *f;
            VP_OUT(1); VP_OUT(1 + vp_nflt); vp_nflt++;
        }
        else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X') {
            u64 v; int neg = 0, nd = 0, k, min, base = (*f == 'x' || *f == 'X') ? 16 : 10; char dig[24];
            const char *alpha = *f == 'x' ? "0123456789abcdef" : "0123456789ABCDEF";
            if (*f == 'd' || *f == 'i') {
                long long s = lng >= 1 ? va_arg(ap, long long) : (long long)va_arg(ap, int);
                if (lng == -1) s = (short)s; if (lng == -2) s = (signed char)s;
                if (s < 0) { neg = 1; v = 0ULL - (u64)s; } else v = (u64)s;
            } else {
                v = lng >= 1 ? va_arg(ap, u64) : (u64)va_arg(ap, unsigned);
                if (lng == -1) v = (unsigned short)v; if (lng == -2) v = (u8)v;
            }
#ifdef VP_HEXBYTE
            if (base == 16 && (prec == 2 || (zero && width == 2))) {
                __CPROVER_assert(v <= 0xFF, "VP:two-digit hexadecimal conversion of a byte");
                v &= 0xFF;
                VP_OUT(alpha[v >> 4]); VP_OUT(alpha[v & 15]);
                f++; continue;
            }
#endif
#ifdef VP_HEX8
            if (base == 16 && zero && width == 8) {
                __CPROVER_assert(v <= 0xFFFFFFFFULL, "VP:eight-digit hexadecimal conversion of 32 bits");
                for (k = 7; k >= 0; k--) VP_OUT(alpha[(v >> (4 * k)) & 15]);
                f++; continue;
            }
#endif
#ifdef VP_DECBYTE
            if (base == 10 && zero && prec < 0 && width == 2 && !neg) {
                __CPROVER_assert(v <= 99, "VP:two-digit decimal conversion");
                VP_OUT('0' + (v / 10) % 10); VP_OUT('0' + v % 10);
                f++; continue;
            }
#endif
            min = prec >= 0 ? prec : (zero ? width - neg : 1);
            if (v == 0 && prec == 0) nd = 0;
            else do { dig[nd++] = alpha[v % base]; v /= base; } while (v);
            for (k = (nd > min ? nd : min) + neg; k < width; k++) VP_OUT(' ');
            if (neg) VP_OUT('-');
            for (k = nd; k < min; k++) VP_OUT('0');
            for (k = nd - 1; k >= 0; k--) VP_OUT(dig[k]);
        }
        else if (*f == 'p') { int k; (void)va_arg(ap, void *); for (k = 0; k < 18; k++) VP_OUT('p'); }      /* the longest */
        else __CPROVER_assert(0, "VP:model-limit conversion");
        f++;
    }
    if (n > 0) __CPROVER_assert(__CPROVER_w_ok(dst, pos < n ? pos + 1 : n), "VP:formatted text within its buffer");
    if (n > 0) dst[pos < n ? pos : n - 1] = 0;
#undef VP_OUT
    return (int)pos;
}
int vp_snprintf(char *dst, size_t n, const char *f, ...)
{
    int r; va_list ap;
    va_start(ap, f); r = vp_vsnprintf(dst, n, f, ap); va_end(ap);
    return r;
}
#pragma CPROVER check pop
#endif
#endif
