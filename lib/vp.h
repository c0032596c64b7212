/* Contract harness support, compiled two ways:
 *  -DVP_CBMC   by goto-cc: draws are unconstrained symbolic values, VP_ASSERT is an
 *              obligation, VP_ASSUME a precondition (requires), VP_COVER a vacuity guard;
 *  -DVP_NATIVE by gcc with sanitizers: draws come from a counterexample or a PRNG,
 *              so that the same contract is evaluated on the real code at run time.
 */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

typedef unsigned char u8;
typedef unsigned long long u64;

#ifdef VP_CBMC      /* specification code between these is not itself under check */
#define VP_SPEC_BEGIN _Pragma("CPROVER check push") _Pragma("CPROVER check disable \"pointer\"") _Pragma("CPROVER check disable \"bounds\"") \
    _Pragma("CPROVER check disable \"pointer-overflow\"") _Pragma("CPROVER check disable \"signed-overflow\"") _Pragma("CPROVER check disable \"pointer-primitive\"")
#define VP_SPEC_END _Pragma("CPROVER check pop")
#else
#define VP_SPEC_BEGIN
#define VP_SPEC_END
#endif

#ifdef VP_CBMC
unsigned long long nondet_vp(void);
static inline u64 vp_raw(void) { u64 vp_drawn = nondet_vp(); return vp_drawn; }
#define VP_ASSERT(c, name) __CPROVER_assert((c), "VP:" name)
#define VP_ASSUME(c) __CPROVER_assume(c)
#ifdef VP_NOCOVER
#define VP_COVER(c, name) do { } while (0)
#else
#define VP_COVER(c, name) __CPROVER_assert(!(c), "VPCOVER:" name)
#endif
#define VP_HAVOC(p) __CPROVER_havoc_object(p)
#else
u64 vp_raw(void);
void vp_fail(const char *name, const char *file, int line);
void vp_discard(void);
void vp_covered(const char *name);
#define VP_ASSERT(c, name) do { if (!(c)) vp_fail(name, __FILE__, __LINE__); } while (0)
#define VP_ASSUME(c) do { if (!(c)) vp_discard(); } while (0)
#define VP_COVER(c, name) do { if (c) vp_covered(name); } while (0)
#endif

static inline u8 vp_u8(void) { return (u8)vp_raw(); }
static inline int vp_bit(void) { return (int)(vp_raw() & 1); }
static inline unsigned vp_u16(void) { return (unsigned)(vp_raw() & 0xFFFF); }
static inline int vp_int(void) { return (int)(unsigned)vp_raw(); }
static inline size_t vp_size(void) { return (size_t)vp_raw(); }
/* a value in lo..hi */
static inline size_t vp_range(size_t lo, size_t hi)
{
#ifdef VP_CBMC
    size_t v = (size_t)vp_raw();
    if (hi <= 0xFF) v &= 0xFF; else if (hi <= 0xFFFF) v &= 0xFFFF;
    __CPROVER_assume(v >= lo && v <= hi);
    return v;
#else
    extern int vp_replaying;
    size_t v = (size_t)vp_raw();
    if (vp_replaying) {
        if (hi <= 0xFF) v &= 0xFF; else if (hi <= 0xFFFF) v &= 0xFFFF;
        if (v < lo || v > hi) vp_discard();
        return v;
    }
    return lo + v % (hi - lo + 1);
#endif
}
static inline void vp_fill(void *p, size_t n)
{
    size_t k;
    for (k = 0; k < n; k++) ((u8 *)p)[k] = vp_u8();
}

/* search-time generators: only in a native search may a harness shape what it drew
 * (e.g. fix up a checksum); vp_relog records the shaped bytes as if they had been drawn */
#ifdef VP_CBMC
#define VP_SEARCHING 0
#define vp_mark() ((size_t)0)
#define vp_relog(m, p, n) do { } while (0)
#define vp_rnd(n) 0
#else
extern int vp_replaying;
#define VP_SEARCHING (!vp_replaying)
size_t vp_mark(void);
void vp_relog(size_t mark, const void *p, size_t n);
unsigned vp_rnd(unsigned n);     /* not logged: only for shaping */
#endif

void harness(void);
#endif
