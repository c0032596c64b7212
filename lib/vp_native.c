/* Native driver: replays a list of drawn values, or searches with seeded random draws. */
#ifndef VP_NATIVE
#define VP_NATIVE
#endif
#include "vp.h"
#include <setjmp.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>

int vp_replaying = 0;
static u64 *vals; static size_t nvals, vpos, vcap;
static u64 rng; static unsigned mode;
static jmp_buf jb;
static char covers[64][64]; static int ncovers;
static long discards, iters;
static const char *dump_path;

static u64 next_rng(void)
{
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng * 0x2545F4914F6CDD1DULL;
}
static void push(u64 v)
{
    if (nvals == vcap) { vcap = vcap ? vcap * 2 : 1024; vals = realloc(vals, vcap * sizeof *vals); }
    vals[nvals++] = v;
}
u64 vp_raw(void)
{
    u64 v;
    if (vp_replaying) return vpos < nvals ? vals[vpos++] : 0;
    v = next_rng();
    switch ((v >> 56) & 7) {            /* bias towards boundary values */
        case 0: v = v & 3; break;
        case 1: v = (u64)0 - (v & 3); break;
        case 2: v = (mode & 1) ? (v & 0x7F) : (v & 0xFF); break;
        case 3: v = (mode & 2) ? (v & 0x0F) : (v | 0x80); break;
        case 4: if (mode & 4) { static const u8 magic[] = {0x68,0x10,0xE5,0x16,0x0F,0x1F,0x2F,0x7C,0xFC,0xFD,0xFB,0x0D,0x8D,0x5B,0x53,0x08,0x72,0x73,0x70,0x80,0x7F,0xFF,'A','F','0','9','&','<'}; v = magic[(v >> 8) % sizeof magic]; } break;
        default: break;
    }
    push(v);
    return v;
}
size_t vp_mark(void) { return nvals; }
void vp_relog(size_t m, const void *p, size_t n) { size_t k; if (!vp_replaying) for (k = 0; k < n; k++) vals[m + k] = ((const u8 *)p)[k]; }
unsigned vp_rnd(unsigned n) { return (unsigned)((next_rng() >> 20) % n); }
static void dump(void)
{
    FILE *f; size_t k;
    if (!dump_path || vp_replaying || !(f = fopen(dump_path, "w"))) return;
    for (k = 0; k < nvals; k++) fprintf(f, "%llu\n", vals[k]);
    fclose(f);
}
void vp_fail(const char *name, const char *file, int line)
{
    dump();
    fprintf(stderr, "VP-FAIL %s (%s:%d)\n", name, file, line);
    fflush(NULL);
    _exit(1);
}
void vp_discard(void)
{
    if (vp_replaying) { fprintf(stderr, "VP-DISCARD\n"); _exit(77); }
    discards++;
    longjmp(jb, 1);
}
void vp_covered(const char *name)
{
    int k;
    for (k = 0; k < ncovers; k++) if (!strcmp(covers[k], name)) return;
    if (ncovers < 64) snprintf(covers[ncovers++], 64, "%s", name);
}
void __sanitizer_set_death_callback(void (*cb)(void));
static void on_alarm(int s) { (void)s; dump(); { static const char m[] = "VP-FAIL termination: no return within 10 s\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; } _exit(1); }

int main(int argc, char **argv)
{
    signal(SIGALRM, on_alarm);
    __sanitizer_set_death_callback(dump);
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        FILE *f = fopen(argv[2], "r"); u64 v;
        if (!f) return 2;
        while (fscanf(f, "%llu", &v) == 1) push(v);
        fclose(f);
        vp_replaying = 1;
        alarm(10);
        harness();
        fprintf(stderr, "VP-PASS\n");
        _exit(0);
    }
    if (argc >= 5 && !strcmp(argv[1], "search")) {
        u64 seed = strtoull(argv[2], 0, 10); double secs = atof(argv[3]); long k, max = atol(argv[4]);
        struct timespec a, b;
        dump_path = argc > 5 ? argv[5] : NULL;
        clock_gettime(CLOCK_MONOTONIC, &a);
        for (k = 0; k < max; k++) {
            nvals = 0;
            rng = (seed + 1) * 0x9E3779B97F4A7C15ULL + (u64)k * 0xD1B54A32D192ED03ULL + 1; if (!rng) rng = 1;
            next_rng(); next_rng(); mode = (unsigned)(next_rng() >> 33);
            alarm(10);
            if (!setjmp(jb)) { harness(); iters++; }
            clock_gettime(CLOCK_MONOTONIC, &b);
            if ((b.tv_sec - a.tv_sec) + (b.tv_nsec - a.tv_nsec) * 1e-9 > secs) break;
        }
        printf("VP-SEARCH iterations=%ld discards=%ld covers=%d\n", iters, discards, ncovers);
        fflush(stdout);
        _exit(0);
    }
    return 2;
}
