/* -included when goto-cc compiles /repo's sources (proof back end only) */
#ifndef VP_PRE_H
#define VP_PRE_H
#ifdef VP_USE_SNPRINTF
/* goto-cc does not apply the default argument promotions to variadic arguments: (x) + 0 does */
#include <stdio.h>
int vp_snprintf(char *dst, size_t n, const char *f, ...);
#define VP_PR(x) ((x) + 0)
#define VP_A0()
#define VP_A1(a) , VP_PR(a)
#define VP_A2(a, ...) , VP_PR(a) VP_A1(__VA_ARGS__)
#define VP_A3(a, ...) , VP_PR(a) VP_A2(__VA_ARGS__)
#define VP_A4(a, ...) , VP_PR(a) VP_A3(__VA_ARGS__)
#define VP_A5(a, ...) , VP_PR(a) VP_A4(__VA_ARGS__)
#define VP_A6(a, ...) , VP_PR(a) VP_A5(__VA_ARGS__)
#define VP_A7(a, ...) , VP_PR(a) VP_A6(__VA_ARGS__)
#define VP_A8(a, ...) , VP_PR(a) VP_A7(__VA_ARGS__)
#define VP_A9(a, ...) , VP_PR(a) VP_A8(__VA_ARGS__)
#define VP_A10(a, ...) , VP_PR(a) VP_A9(__VA_ARGS__)
#define VP_NTH(_0, a, b, c, d, e, f, g, h, i, j, N, ...) N
#define VP_MAP(...) VP_NTH(0, ##__VA_ARGS__, VP_A10, VP_A9, VP_A8, VP_A7, VP_A6, VP_A5, VP_A4, VP_A3, VP_A2, VP_A1, VP_A0)(__VA_ARGS__)
#undef snprintf
#define snprintf(d, n, f, ...) vp_snprintf((char *)(d), (n), (f) VP_MAP(__VA_ARGS__))
#endif
#ifdef VP_POW
#include <math.h>
double vp_pow(double, double);
#define pow vp_pow
#endif
#endif
