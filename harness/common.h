/*
 * Common parts of the harnesses: command line, work distribution, reports,
 * visited state sets, configurations and PCM alphabet.
 *
 *  <harness> OUTDIR SHARD TIER SEED DEADLINE_S [ITEM]
 *
 * Work items are numbered; the shards share a counter and take the next one.
 * With ITEM, only this one is run (confirmation and replay of a report).
 */
#ifndef COMMON_H
#define COMMON_H

#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>

#include <lc3.h>

#define MIN(a, b) ((a) < (b) ? (a) : (b))
#define MAX(a, b) ((a) > (b) ? (a) : (b))
#define COUNT(t) ((int)(sizeof(t) / sizeof(*(t))))

/* --- Run --- */

static struct {
    const char *outdir;
    int shard, thorough;
    unsigned seed;
    long item, only;
    volatile long *counter;
    char *trace;                /* mapped file, survives a crash */
    struct timespec t0;
    double deadline;
    int cont, capped, nviol, nsamples;
    long items, transitions, validated, execs;
    FILE *out;
} R;

#define TRACE_SIZE 4096

static void on_hang(int s)
{
    static const char msg[] = "\nHANG\n";
    (void)!write(2, msg, sizeof(msg)-1);
    _exit(77);
}

/* CPU seconds left to the current step */
static void watchdog(int sec)
{
    struct itimerval it = { .it_value = { .tv_sec = sec } };
    setitimer(ITIMER_VIRTUAL, &it, NULL);
}

static double elapsed(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (t.tv_sec - R.t0.tv_sec) + 1e-9 * (t.tv_nsec - R.t0.tv_nsec);
}

static void run_init(int argc, char **argv)
{
    char path[1024];

    R.outdir = argv[1], R.shard = atoi(argv[2]);
    R.thorough = !strcmp(argv[3], "thorough");
    R.seed = atoi(argv[4]), R.deadline = atof(argv[5]);
    R.only = argc > 6 ? atol(argv[6]) : -1;
    R.item = -1;
    clock_gettime(CLOCK_MONOTONIC, &R.t0);

    snprintf(path, sizeof(path), "%s/counter", R.outdir);
    int fd = open(path, O_RDWR | O_CREAT, 0600);
    if (ftruncate(fd, 4096)) exit(2);
    R.counter = mmap(NULL, 4096, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);

    snprintf(path, sizeof(path), "%s/trace.%d", R.outdir, R.shard);
    fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (ftruncate(fd, TRACE_SIZE)) exit(2);
    R.trace = mmap(NULL, TRACE_SIZE, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);

    snprintf(path, sizeof(path), "%s/out.%d", R.outdir, R.shard);
    R.out = fopen(path, "w");

    signal(SIGVTALRM, on_hang);
}

static void trace(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int n = snprintf(R.trace, TRACE_SIZE, "item=%ld ", R.item);
    vsnprintf(R.trace + n, TRACE_SIZE - n, fmt, ap);
    va_end(ap);
}

static bool work_next(long nitems)
{
    watchdog(0);
    if (R.only >= 0) {
        if (R.item >= 0)
            return false;
        R.item = R.only;
        return R.only < nitems;
    }

    if (R.nviol >= (R.cont ? 1000 : 3))
        return false;
    if (elapsed() > R.deadline) {
        if (*R.counter < nitems)
            R.capped = 1;
        return false;
    }

    R.item = __atomic_fetch_add(R.counter, 1, __ATOMIC_SEQ_CST);
    R.items += R.item < nitems;
    return R.item < nitems;
}

static void report(const char *fmt, ...)
{
    if (R.nviol++ >= 5)
        return;
    va_list ap;
    va_start(ap, fmt);
    fprintf(R.out, "VIOL item=%ld ", R.item);
    vfprintf(R.out, fmt, ap);
    fprintf(R.out, " | %s\n", R.trace);
    fflush(R.out);
    va_end(ap);
}

static void sample(const char *fmt, ...)
{
    if (R.nsamples++ >= 3)
        return;
    va_list ap;
    va_start(ap, fmt);
    fprintf(R.out, "SAMPLE ");
    vfprintf(R.out, fmt, ap);
    fprintf(R.out, "\n");
    va_end(ap);
}

static void stat_add(const char *key, long v)
{
    fprintf(R.out, "STAT %s %ld\n", key, v);
}

/* --- Visited states --- */

static struct { uint64_t *t; size_t n, cap; } S;

static uint64_t hash64(const void *p, size_t n, uint64_t h)
{
    const uint8_t *b = p;
    h ^= 0x9e3779b97f4a7c15ull + n;
    for (; n >= 8; n -= 8, b += 8) {
        uint64_t w;
        memcpy(&w, b, 8);
        h = (h ^ w) * 0xff51afd7ed558ccdull;
        h ^= h >> 32;
    }
    for (; n; n--, b++)
        h = (h ^ *b) * 0xc4ceb9fe1a85ec53ull, h ^= h >> 29;
    return h ^ (h >> 31);
}

/* True when not visited before */
static bool state_add(uint64_t h)
{
    if (!h) h = 1;
    if (2 * (S.n + 1) > S.cap) {
        size_t cap = S.cap ? 2*S.cap : 1 << 16;
        uint64_t *t = calloc(cap, sizeof(*t));
        for (size_t i = 0; i < S.cap; i++)
            if (S.t[i]) {
                size_t j = S.t[i] & (cap-1);
                while (t[j]) j = (j + 1) & (cap-1);
                t[j] = S.t[i];
            }
        free(S.t);
        S.t = t, S.cap = cap;
    }
    size_t j = h & (S.cap-1);
    for (; S.t[j]; j = (j + 1) & (S.cap-1))
        if (S.t[j] == h) return false;
    S.t[j] = h, S.n++;
    return true;
}

static int run_end(void)
{
    watchdog(0);
    char path[1024];
    snprintf(path, sizeof(path), "%s/states.%d", R.outdir, R.shard);
    FILE *f = fopen(path, "w");
    for (size_t i = 0; i < S.cap; i++)
        if (S.t[i]) fwrite(&S.t[i], 8, 1, f);
    fclose(f);
    stat_add("items", R.items);
    stat_add("transitions", R.transitions);
    stat_add("validated", R.validated);
    stat_add("execs", R.execs);
    stat_add("capped", R.capped);
    fprintf(R.out, "END\n");
    fclose(R.out);
    return R.nviol ? 3 : 0;
}

/* --- Configurations --- */

struct cfg { int hr, dt, sr, pcm; };

static struct cfg CFG[80];
static int NCFG;

static void cfg_init(void)
{
    static const int dts[] = { 2500, 5000, 7500, 10000 };
    static const int srs[] = { 8000, 16000, 24000, 32000, 48000 };

    for (int d = 3; d >= 0; d--)
        for (int p = 4; p >= 0; p--)
            for (int s = 4; s >= 0; s--)
                if (p >= s)
                    CFG[NCFG++] = (struct cfg){ 0, dts[d], srs[s], srs[p] };

    for (int d = 3; d >= 0; d--) {
        if (d == 2) continue;
        CFG[NCFG++] = (struct cfg){ 1, dts[d], 48000, 48000 };
        CFG[NCFG++] = (struct cfg){ 1, dts[d], 96000, 96000 };
        CFG[NCFG++] = (struct cfg){ 1, dts[d], 48000, 96000 };
    }
}

static void cfg_str(const struct cfg *c, char *s)
{
    sprintf(s, "%s/%dus/%d/pcm%d", c->hr ? "HR" : "LC3", c->dt, c->sr, c->pcm);
}

/* Documented limits of the sizes */
static int cfg_min(const struct cfg *c)
{
    if (!c->hr) return 20;
    return c->dt == 10000 ? (c->sr == 96000 ? 187/2 : 156/2) :
           c->dt ==  5000 ? (c->sr == 96000 ? 109/2 :  93/2) :
                            (c->sr == 96000 ?  62/2 :  54/2);
}

static int cfg_max(const struct cfg *c)
{
    return !c->hr ? 400 : c->dt == 10000 ? 625 : c->dt == 5000 ? 375 : 210;
}

static int cfg_ns(const struct cfg *c)  { return c->dt / 100 * (c->pcm / 100) / 100; }
static int cfg_ns_sr(const struct cfg *c) { return c->dt / 100 * (c->sr / 100) / 100; }

static uint32_t rnd(uint32_t *s)
{
    *s ^= *s << 13, *s ^= *s >> 17, *s ^= *s << 5;
    return *s;
}

/* --- PCM alphabet, as 24 bits values --- */

enum {
    P_SIL, P_SINE, P_PITCH, P_NOISE, P_ATTACK, P_SQUARE, P_VOICE, P_LOWN,
    P_NB, P_CLICK, P_GLIDE, P_DC, P_NYQ, P_MUSIC, P_HIGH, P_TINY, P_STEP,
    P_FADE, P_WB, P_TNS, P_FULL, P_PULSE, NPCM
};

static const char *PNAME[NPCM] = {
    "silence", "sine", "pitch", "noise", "attack", "square", "voice",
    "lownoise", "narrowband", "click", "glide", "dc", "nyquist", "music",
    "highband", "tiny", "step", "fade", "wideband", "tns", "full", "pulse"
};

/* Frame `t` of the letter, at PCM rate `sr` */
static void pcm_letter(int letter, int sr, int ns, int t, int32_t *x)
{
    uint32_t s = 0x12345u + 7919u * (unsigned)letter + 104729u * (unsigned)t;
    double w = 2 * M_PI / sr;
    for (int i = 0; i < 8; i++) rnd(&s);

    for (int i = 0; i < ns; i++) {
        double v = 0;
        long n = (long)t * ns + i;
        double nz = (int32_t)rnd(&s) / 2147483648.;

        switch (letter) {
        case P_SIL:    break;
        case P_SINE:   v = 0.4 * sin(w * 997. * n); break;
        case P_PITCH:  for (int k = 1; k < 12; k++)
                           v += 0.4/k * sin(w * 142.5 * k * n + k*k);
                       break;
        case P_NOISE:  v = 0.3 * nz; break;
        case P_ATTACK: v = i < ns * (1 + t % 3) / 4 ? 1e-3 * nz : 0.8 * nz; break;
        case P_SQUARE: v = (n * 400 / sr) & 1 ? 0.99999988 : -1; break;
        case P_VOICE:  for (int k = 1; k < 30; k++)
                           v += 0.5/(k+1) * sin(w * 221.7 * k * n + 0.3*k*k);
                       v *= 0.6 + 0.4 * sin(w * 31 * n); v += 0.004 * nz; break;
        case P_LOWN:   v = 0x1p-13 * nz; break;
        case P_NB:     v = 0.3 * sin(w * 700. * n) + 0.1 * sin(w * 2210. * n +1);
                       break;
        case P_CLICK:  v = i == ns / 3 ? 0.9 : 0; break;
        case P_GLIDE:  { double f = 100 + 250. * n / sr * 4, ph = w * f * n;
                       for (int k = 1; k < 8; k++) v += 0.3/k * sin(ph * k); }
                       break;
        case P_DC:     v = 0.99999988; break;
        case P_NYQ:    v = n & 1 ? -0.8 : 0.8; break;
        case P_MUSIC:  { static const double f[] = { 110, 220.5, 329.6, 440.3,
                       659.2, 1318.5, 2637, 5274, 9397, 13289 };
                       for (int k = 0; k < 10; k++) if (f[k] < sr * 0.49)
                           v += 0.2 / (1 + k * 0.5) * sin(w * f[k] * n + k); }
                       v += 0.01 * nz; break;
        case P_HIGH:   v = 0.5 * sin(w * (sr * 0.41) * n)
                           + 0.2 * sin(w * (sr * 0.34) * n); break;
        case P_TINY:   v = 0x1.8p-15 * sin(w * 500 * n); break;
        case P_STEP:   v = ((n / (ns/2 + 7)) & 1) ? 0.6 : -0.2; break;
        case P_FADE:   v = nz * exp2(-t * 2.) * 0.7; break;
        case P_WB:     v = 0.25 * sin(w * 3300. * n) + 0.25 * sin(w * 6600. * n)
                           + 0.02 * nz * ((t >> 1) & 1); break;
        case P_TNS:    { int p = i % (ns/2); v = p < 12 ? 0.9 * nz :
                       0.3 * nz * exp(-p * 6. / ns); } break;
        case P_FULL:   v = nz < 0 ? -1 : 1; break;
        case P_PULSE:  v = i == (7 + 31*t) % ns ? (t & 1 ? 1 : -1) : 0; break;
        }

        v *= 8388608;
        v = v >= 0 ? floor(v + 0.5) : ceil(v - 0.5);
        x[i] = v > 8388607 ? 8388607 : v < -8388608 ? -8388608 : (int32_t)v;
    }
}

/* Round 24 bits values to 16 bits */
static void pcm_to_s16(const int32_t *x, int n, int16_t *y)
{
    for (int i = 0; i < n; i++)
        y[i] = x[i] >> 8;
}

#endif /* COMMON_H */
