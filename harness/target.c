/*
 * C19 - Lock-step of the whole codec built for a target (symbols x_*) and of
 * the portable one, over histories of frames, losses and damages.
 *
 *   -DEXACT   only integer kernels differ: everything is identical
 *   otherwise decoded samples within rounding of the transform; the frames
 *             that differ, encoded from the same state, are only counted
 *             (decisions within rounding of a threshold).
 */
#include "common.h"

#define D(r, f, ...) extern r x_lc3_##f(__VA_ARGS__)
D(unsigned, hr_encoder_size, bool, int, int);
D(unsigned, hr_decoder_size, bool, int, int);
D(void *, hr_setup_encoder, bool, int, int, int, void *);
D(void *, hr_setup_decoder, bool, int, int, int, void *);
D(int, encode, void *, int, const void *, int, int, void *);
D(int, decode, void *, const void *, int, int, void *, int);

#ifdef EXACT
enum { exact = 1 };
#else
enum { exact = 0 };
#endif

static long frames[2], differ[2];
static double worst;

static bool history(const struct cfg *c, const int *let, int n, int fmt)
{
    static int32_t p[960];
    static int16_t p16[960];
    static uint8_t f0[640], f1[640];
    static float y0[960], y1[960];
    char s[200];
    int ns = cfg_ns(c);
    unsigned se = lc3_hr_encoder_size(c->hr, c->dt, c->pcm);
    unsigned sd = lc3_hr_decoder_size(c->hr, c->dt, c->pcm);
    if (se != x_lc3_hr_encoder_size(c->hr, c->dt, c->pcm) ||
        sd != x_lc3_hr_decoder_size(c->hr, c->dt, c->pcm)) {
        report("context sizes differ");
        return false;
    }

    uint8_t *m[4];
    void *h[4];
    for (int i = 0; i < 4; i++) {
        m[i] = malloc(i < 2 ? se : sd);
        memset(m[i], 0, i < 2 ? se : sd);
    }
    h[0] = lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, m[0]);
    h[1] = x_lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, m[1]);
    h[2] = lc3_hr_setup_decoder(c->hr, c->dt, c->sr, c->pcm, m[2]);
    h[3] = x_lc3_hr_setup_decoder(c->hr, c->dt, c->sr, c->pcm, m[3]);

    cfg_str(c, s);
    sprintf(s + strlen(s), " format %d word", fmt);
    bool ok = true;
    double mx = 0.1;
    for (int t = 0; ok && t < n; t++) {
        int a = cfg_min(c), b = cfg_max(c);
        int nb = a + (b - a) * ((t * 3 + let[0]) % 5) / 8;
        sprintf(s + strlen(s), " %s/%d", PNAME[let[t]], nb);
        trace("%s", s);
        pcm_letter(let[t], c->pcm, ns, t, p);
        if (fmt == LC3_PCM_FORMAT_S16) pcm_to_s16(p, ns, p16);
        const void *x = fmt == LC3_PCM_FORMAT_S16 ? (void *)p16 : p;

        if (!exact) memcpy(m[1], m[0], se);
        int r0 = lc3_encode(h[0], fmt, x, 1, nb, f0);
        int r1 = x_lc3_encode(h[1], fmt, x, 1, nb, f1);
        bool same = r0 == r1 && !memcmp(f0, f1, nb);
        frames[c->hr]++, differ[c->hr] += !same;
        R.transitions++;
        if (exact && !same) {
            report("%s: frame %d is not the one of the portable code", s, t);
            ok = false;
        }

        /* Both decode the same frame; lost, or damaged at times */
        int op = (t * 5 + let[0] + let[t]) % 7;
        if (op == 3) memset(f0, 0xff, nb);
        const void *d = op == 5 ? NULL : f0;
        memset(y0, 0, sizeof(y0)), memset(y1, 0, sizeof(y1));
        r0 = lc3_decode(h[2], d, nb, LC3_PCM_FORMAT_FLOAT, y0, 1);
        r1 = x_lc3_decode(h[3], d, nb, LC3_PCM_FORMAT_FLOAT, y1, 1);
        if (r0 != r1) {
            report("%s: decoding gives %d, not %d", s, r1, r0);
            ok = false;
        }
        double e = 0;
        for (int i = 0; i < ns; i++) {
            mx = fmax(mx, fabs(y0[i]));
            e = fmax(e, fabs(y0[i] - y1[i]));
        }
        worst = fmax(worst, e / mx);
        if (exact ? memcmp(y0, y1, sizeof(y0)) : !(e <= 2e-5 * mx)) {
            report("%s: decoded samples differ by %g", s, e);
            ok = false;
        }
        /* The formats with saturation */
        static int32_t z0[960], z1[960];
        memset(z0, 0, sizeof(z0)), memset(z1, 0, sizeof(z1));
        if (exact && t % 3 == 2) {
            int f = t & 1 ? LC3_PCM_FORMAT_S24 : t & 2 ? LC3_PCM_FORMAT_S16 :
                LC3_PCM_FORMAT_S24_3LE;
            lc3_decode(h[2], d, nb, f, z0, 1), x_lc3_decode(h[3], d, nb, f, z1, 1);
            if (memcmp(z0, z1, sizeof(z0))) {
                report("%s: decoded samples differ in format %d", s, f);
                ok = false;
            }
        }
        state_add(hash64(m[0], se, hash64(m[2], sd, R.item)));
    }
    for (int i = 0; i < 4; i++) free(m[i]);
    R.execs++, R.validated += ok;
    return ok;
}

int main(int argc, char **argv)
{
    run_init(argc, argv);
    cfg_init();
    R.cont = 1;
    while (work_next((long)NCFG * NPCM)) {
        watchdog(R.thorough ? 800 : 60);
        const struct cfg *c = &CFG[R.item / NPCM];
        int a = R.item % NPCM;
        for (int b = 0; b < NPCM; b++)
            for (int e = 0; e < NPCM; e++) {
                if (!R.thorough && (e + 3*b + 5*a) % 11) continue;
                int w[] = { a, a, a, a, b, b, e, a };
                if (!history(c, w, COUNT(w), (a + b) & 1 ?
                    LC3_PCM_FORMAT_S24 : LC3_PCM_FORMAT_S16)) goto next;
            }
    next: ;
    }
    sample("target: worst relative difference of the decoded samples %.3g", worst);
    stat_add("frames", frames[0]), stat_add("frames_hr", frames[1]);
    stat_add("differ", differ[0]), stat_add("differ_hr", differ[1]);
    return run_end();
}
