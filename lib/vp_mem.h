/* Allocator with ghost ownership: which allocation fails is drawn, every block is freed at most once, nothing else is freed. */
#ifndef VP_MEM_H
#define VP_MEM_H
#ifndef VPM_N
#define VPM_N 8
#endif
static void *vpm_blk[VPM_N]; static int vpm_n, vpm_live, vpm_calls, vpm_fail = -1, vpm_failed;
static void *vpm_take(void *p)
{
    VP_ASSUME(p != NULL);
    VP_ASSERT(vpm_n < VPM_N, "model-limit: number of allocations");
    vpm_blk[vpm_n++] = p; vpm_live++;
    return p;
}
void *vp_malloc(size_t n)
{
    if (vpm_calls++ == vpm_fail) { vpm_failed = 1; return NULL; }
    return vpm_take(malloc(n));
}
void *vp_calloc(size_t m, size_t n)
{
    if (vpm_calls++ == vpm_fail) { vpm_failed = 1; return NULL; }
    return vpm_take(calloc(m, n));
}
void vp_free(void *p)
{
    int k, hit = 0;
    if (!p) return;
    for (k = 0; k < VPM_N; k++) if (vpm_blk[k] == p) { hit = 1; vpm_blk[k] = NULL; }
    VP_ASSERT(hit, "frees a block it owns, once");
    if (hit) { vpm_live--; free(p); }
}
#ifdef VPM_STRDUP
char *vp_strdup(const char *s)
{
    size_t n = 0, k; char *d;
    while (s[n]) n++;
    d = vp_malloc(n + 1);
    if (d) for (k = 0; k <= n; k++) d[k] = s[k];
    return d;
}
#endif
static void vpm_reset(int fail) { int k; for (k = 0; k < VPM_N; k++) vpm_blk[k] = NULL; vpm_n = vpm_live = vpm_calls = vpm_failed = 0; vpm_fail = fail; }
#endif
