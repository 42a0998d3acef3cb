/*
 * C19 - Kernels of the ARM and NEON targets against the portable ones.
 *
 * The integer kernels are (bi)linear sums with one rounding: they are compared
 * on complete bases (each input position), at several amplitudes, sizes and
 * alignments, on full scale patterns, and along histories. The transforms are
 * linear: complete bases of the new and delayed samples, and histories.
 */
#include "common.h"
#include "kern.h"

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)

#ifdef LTPF
extern const struct kern_ltpf k_gen_ltpf, VLTPF;
#define G (&k_gen_ltpf)
#define V (&VLTPF)
#else
extern const struct kern_mdct k_gen_mdct, VMDCT;
#define G (&k_gen_mdct)
#define V (&VMDCT)
#endif

static const int SRHZ[] = { 8000, 16000, 24000, 32000, 48000, 48000, 96000 };

#ifdef LTPF

/* --- Resampling --- */

static int16_t __attribute__((aligned(16))) xb[4 + 512 + 8 * 960 + 512], *x;
static uint8_t h0[64], h1[64];

static bool resample_run(int sr, int dt, int frames, int hist, const char *what)
{
    int ns = (1 + dt) * SRHZ[sr] / 400, n = (1 + dt) * 32;
    int16_t y0[128], y1[128];
    memset(h0, 0, sizeof(h0)), memset(h1, 0, sizeof(h1));
    for (int t = 0; t < frames; t++) {
        memset(y0, 1, sizeof(y0)), memset(y1, 2, sizeof(y1));
        G->resample(sr, h0, x + t*ns, y0, n);
        V->resample(sr, h1, x + t*ns, y1, n);
        R.transitions++;
        if (memcmp(y0, y1, n * sizeof(*y0)) ||
            memcmp(h0, h1, G->hp50_size)) {
            int i = 0;
            while (i < n-1 && y0[i] == y1[i]) i++;
            report("resampling of %d Hz to 12.8 KHz (sr %d, %d samples), %s, "
                "frame %d: sample %d is %d, not %d", SRHZ[sr], sr, n, what, t,
                i, y1[i], y0[i]);
            return false;
        }
        state_add(hash64(h0, G->hp50_size, sr * 4 + dt));
    }
    R.validated++, R.execs++;
    return true;
}

static void check_resample(int sr, int dt)
{
    static const int amp[] = { 32767, -32768, 1, -1, 1000 };
    int ns = (1 + dt) * SRHZ[sr] / 400, d = SRHZ[sr] / 800;
    char s[100];
    x = xb + 4 + 512;

    /* Impulse at each position of the history and of the frame, alone and
     * over a full scale background */
    for (int k = 0; k < COUNT(amp); k++)
        for (int bg = 0; bg < 3; bg++)
            for (int p = -d; p < ns; p++) {
                sprintf(s, "%d at %d, background %d", amp[k], p, bg);
                trace("resample sr %d dt %d %s", sr, dt, s);
                for (int i = -512; i < 2*ns + 512; i++)
                    x[i] = bg == 0 ? 0 : bg == 1 ? 32767 : i & 1 ? -32768 : 32767;
                x[p] = amp[k];
                if (!resample_run(sr, dt, 2, d, s)) return;
            }

    /* Square waves of each half period, both signs */
    for (int hp = 1; hp < 64; hp++)
        for (int sg = 0; sg < 2; sg++) {
            for (int i = -512; i < 4*ns + 512; i++)
                x[i] = ((i + 512) / hp + sg) & 1 ? -32768 : 32767;
            sprintf(s, "square wave %d", hp);
            trace("resample sr %d dt %d %s", sr, dt, s);
            if (!resample_run(sr, dt, 4, d, s)) return;
        }

    /* Letters */
    static int32_t p[960];
    for (int a = 0; a < NPCM; a++)
        for (int b = 0; b < NPCM; b++) {
            memset(x - 512, 0, 512 * 2);
            for (int t = 0; t < 8; t++) {
                pcm_letter(t < 4 ? a : b, SRHZ[sr], ns, t, p);
                pcm_to_s16(p, ns, x + t*ns);
            }
            memset(x + 8*ns, 0, 512);
            sprintf(s, "letters %s, %s", PNAME[a], PNAME[b]);
            trace("resample sr %d dt %d %s", sr, dt, s);
            if (!resample_run(sr, dt, 8, d, s)) return;
        }
}

static void check_6k4(int dt)
{
    int n = (1 + dt) * 16;
    x = xb + 4 + 512;
    int16_t y0[64], y1[64];
    for (int p = -8; p < 2*n + 8; p++)
        for (int k = 0; k < 6; k++) {
            static const int amp[] = { 32767, -32768, 1, 77, 0, -3 };
            for (int i = -16; i < 2*n + 16; i++)
                x[i] = k < 4 ? 0 : (i * 31) % 211 * (k == 4 ? 70 : -150);
            x[p] = k < 4 ? amp[k] : 32767;
            G->resample_6k4(x, y0, n), V->resample_6k4(x, y1, n);
            R.transitions++;
            if (memcmp(y0, y1, 2*n)) {
                report("resampling to 6.4 KHz of %d samples, %d at %d", n, x[p], p);
                return;
            }
        }
    R.validated++;
}

/* --- Dot, correlations --- */

static int16_t __attribute__((aligned(16))) ab[4096 + 16],
    __attribute__((aligned(16))) bb[4096 + 16];

static void pattern(int k, int16_t *v, int n)
{
    static int32_t p[4096];
    if (k < NPCM) {
        pcm_letter(k, 12800, n, 3, p);
        pcm_to_s16(p, n, v);
        /* Half scale (Q14), as the resampling outputs */
        for (int i = 0; i < n; i++) v[i] /= 2;
    } else for (int i = 0; i < n; i++)
        v[i] = k == NPCM ? 32767 : k == NPCM+1 ? -32767 :
            (i / (k - NPCM - 1)) & 1 ? -32767 : 32767;
}
#define NPAT (NPCM + 2 + 8)

static void check_dot(int n)
{
    for (int al = 0; al < 8; al++) {
        int16_t *a = ab + 2 * (al & 1), *b = bb + al;
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) {
                if (!R.thorough && al && j != i && j != (i + al) % n) continue;
                memset(a, 0, 2*n), memset(b, 0, 2*n);
                a[i] = 32767 - 3*i, b[j] = -30000 + 7*j;
                trace("dot n %d alignment %d, values at %d and %d", n, al, i, j);
                float y0 = G->dot(a, b, n), y1 = V->dot(a, b, n);
                R.transitions++;
                if (y0 != y1) {
                    report("dot of %d samples, alignment %d, values at %d and "
                        "%d: %g, not %g", n, al, i, j, y1, y0);
                    return;
                }
            }
        for (int k = 0; k < NPAT; k++)
            for (int m = 0; m < NPAT; m++) {
                pattern(k, a, n), pattern(m, b, n);
                trace("dot n %d alignment %d patterns %d %d", n, al, k, m);
                float y0 = G->dot(a, b, n), y1 = V->dot(a, b, n);
                R.transitions++, R.validated++;
                state_add(hash64(&y0, 4, n));
                if (y0 != y1) {
                    report("dot of %d samples, alignment %d, patterns %d and %d"
                        ": %.9g, not %.9g", n, al, k, m, y1, y0);
                    return;
                }
            }
    }
}

static bool corr_run(const int16_t *a, const int16_t *b, int n, int nc,
    const char *what)
{
    float y0[132], y1[132];
    for (int i = 0; i < 132; i++) y0[i] = y1[i] = 12345;
    G->correlate(a, b, n, y0, nc);
    V->correlate(a, b, n, y1, nc);
    R.transitions++;
    for (int i = 0; i < 132; i++)
        if (y0[i] != y1[i]) {
            report("correlation of %d samples, %d lags, b at %d modulo 4, %s: "
                "lag %d is %.9g, not %.9g", n, nc, (int)((uintptr_t)b & 3),
                what, i, y1[i], y0[i]);
            return false;
        }
    state_add(hash64(y0, sizeof(y0), n + 1000*nc));
    return true;
}

static void check_corr(int n)
{
    char s[80];
    for (int al = 0; al < 8; al++)
        for (int nc = 1; nc <= 106; nc++) {
            int16_t *a = ab + 2 * (al & 1), *b = bb + 256 + al;
            /* Each sample of `a` picks one sample of `b` by lag */
            for (int i = 0; i < n; i++) {
                if (!R.thorough && nc != 98 && nc > 25 && i % 7 != al % 7) continue;
                memset(a, 0, 2*n);
                a[i] = 1024;
                for (int j = -160; j < 160; j++)
                    b[j] = (j * 197 + 31) % 32749 * (j & 1 ? 1 : -1) / 2;
                sprintf(s, "value at %d", i);
                trace("correlate n %d nc %d alignment %d %s", n, nc, al, s);
                if (!corr_run(a, b, n, nc, s)) return;
            }
            for (int k = 0; k < NPAT; k++) {
                int m = (k * 5 + nc + al) % NPAT;
                pattern(k, a, n), pattern(m, b - 160, 320);
                sprintf(s, "patterns %d and %d", k, m);
                trace("correlate n %d nc %d alignment %d %s", n, nc, al, s);
                if (!corr_run(a, b, n, nc, s)) return;
                R.validated++;
            }
        }
}

int main(int argc, char **argv)
{
    run_init(argc, argv);
    while (work_next(7*4 + 4 + 16)) {
        watchdog(R.thorough ? 800 : 60);
        int i = R.item;
        if (i < 28) check_resample(6 - i / 4, i % 4);
        else if (i < 32) check_6k4(i - 28);
        else if (i < 40) check_dot(16 * (i - 32 + 1));
        else check_corr(16 * (i - 40 + 1));
    }
    sample("kernels: %ld comparisons in shard %d", R.transitions, R.shard);
    return run_end();
}

#else /* MDCT */

static double worst;

static bool compare(const float *a, const float *b, int n, double ref,
    const char *fmt, ...)
{
    for (int i = 0; i < n; i++) {
        double e = fabs((double)a[i] - b[i]);
        if (!(e <= 2e-6 * ref)) {
            char s[200];
            va_list ap;
            va_start(ap, fmt);
            vsnprintf(s, sizeof(s), fmt, ap);
            va_end(ap);
            report("%s: value %d is %.9g, not %.9g", s, i, b[i], a[i]);
            return false;
        }
        if (ref > 0) worst = MAX(worst, e / ref);
    }
    return true;
}

static double maxabs(const float *x, int n)
{
    double m = 0;
    for (int i = 0; i < n; i++) m = MAX(m, fabs(x[i]));
    return m;
}

static double norm2(const float *x, int n)
{
    double s = 0;
    for (int i = 0; i < n; i++) s += (double)x[i] * x[i];
    return s;
}

static void check_mdct(int dt, int sr, int inv)
{
    static float xb[960 + 64], db[2][960 + 64], yb[2][960 + 64];
    int ns = G->ns(dt, sr), nd = G->nd(dt, sr);
    float *x = xb, *y0 = yb[0], *y1 = yb[1], *d0 = db[0], *d1 = db[1];
    if (ns <= 0 || ns > 960) return;

    /* Bases */
    for (int p = 0; p < ns + nd; p++) {
        memset(xb, 0, sizeof(xb)), memset(db, 0, sizeof(db));
        memset(yb, 0, sizeof(yb));
        if (p < ns) x[p] = p & 1 ? -32768 : 1;
        else d0[p-ns] = d1[p-ns] = p & 1 ? -32768 : 1;
        trace("%s dt %d sr %d impulse %d", inv ? "imdct" : "mdct", dt, sr, p);
        for (int t = 0; t < 2; t++) {
            double in = MAX(maxabs(x, ns), maxabs(d0, nd));
            if (inv) G->inverse(dt, sr, x, d0, y0), V->inverse(dt, sr, x, d1, y1);
            else     G->forward(dt, sr, x, d0, y0), V->forward(dt, sr, x, d1, y1);
            R.transitions++;
            double r = MAX(in * 0.05, maxabs(y0, ns));
            if (!compare(y0, y1, ns, r, "%s of %d samples (sr %d), impulse at %d"
                    ", frame %d", inv ? "inverse" : "forward", ns, sr, p, t) ||
                !compare(d0, d1, nd, MAX(r, maxabs(d0, nd)), "%s of %d samples "
                    "(sr %d), impulse at %d, delayed samples",
                    inv ? "inverse" : "forward", ns, sr, p))
                return;
            state_add(hash64(y0, ns * 4, p));
            memset(xb, 0, sizeof(xb));
        }
    }

    /* Histories */
    static int32_t p[960];
    for (int a = 0; a < NPCM; a++) {
        double r = 0;
        memset(xb, 0, sizeof(xb)), memset(db, 0, sizeof(db));
        for (int t = 0; t < 8; t++) {
            pcm_letter(t < 4 ? a : (a + 5) % NPCM, SRHZ[sr], ns, t, p);
            for (int i = 0; i < ns; i++) x[i] = p[i] / 256.f;
            trace("%s dt %d sr %d letter %d", inv ? "imdct" : "mdct", dt, sr, a);
            r = MAX(r, 0.1 * sqrt(norm2(x, ns) + norm2(d0, nd)));
            if (inv) G->inverse(dt, sr, x, d0, y0), V->inverse(dt, sr, x, d1, y1);
            else     G->forward(dt, sr, x, d0, y0), V->forward(dt, sr, x, d1, y1);
            R.transitions++;
            r = MAX(r, maxabs(y0, ns));
            if (!compare(y0, y1, ns, r, "%s of %d samples (sr %d), letter %s, "
                    "frame %d", inv ? "inverse" : "forward", ns, sr, PNAME[a], t))
                return;
        }
        R.validated++;
    }
}

int main(int argc, char **argv)
{
    run_init(argc, argv);
    while (work_next(4 * 7 * 2)) {
        watchdog(R.thorough ? 800 : 60);
        int i = R.item, dt = 3 - i / 14, sr = 6 - i / 2 % 7;
        if (dt == 2 && sr >= 5) continue;
        check_mdct(dt, sr, i & 1);
        R.execs++;
    }
    sample("transforms: worst relative difference %.3g", worst);
    stat_add("worst_1e9", worst * 1e9);
    return run_end();
}

#endif
