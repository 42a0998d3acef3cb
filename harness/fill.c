/*
 * C03 - Tight frames: level of the input swept in small steps, on each
 * content, size and configuration, to reach the frames without any bit left.
 * All frames are accepted, hold what they claim, and have no unwritten bit.
 */
#include "common.h"
#include <ref.h>

static const struct cfg *c;
static int ci, ns, nmin, nmax;
static long n_tight[2], n_frames, n_lsb;
static char cs[64];

static int32_t base[4][960];

static bool sweep(int l, int nb, int n, double lo, double hi)
{
    static int32_t x[960];
    static uint8_t o[704], pcm[8192];
    static struct ref_frame f;

    void *me = malloc(lc3_hr_encoder_size(c->hr, c->dt, c->pcm));
    void *md = malloc(lc3_hr_decoder_size(c->hr, c->dt, c->pcm));
    lc3_encoder_t e = lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, me);
    lc3_decoder_t d = lc3_hr_setup_decoder(c->hr, c->dt, c->sr, c->pcm, md);
    bool ok = true;

    for (int t = 0; ok && t < n; t++) {
        double g = exp2(lo + (hi - lo) * ((t & 1) ? n - t : t) / n);
        for (int i = 0; i < ns; i++)
            x[i] = lrint(base[t & 3][i] * g);

        trace("C03 %s %s level %g, %d bytes", cs, PNAME[l], g, nb);
        memset(o, 0xb7, sizeof(o));
        watchdog(20);
        int r = lc3_encode(e, LC3_PCM_FORMAT_S24, x, 1, nb, o);
        int st = ref_parse(c->hr, c->dt, c->sr, o, nb, &f);
        int rd = lc3_decode(d, o, nb, c->hr, pcm, 1);
        R.transitions++, n_frames++;

        if (r || rd || st) {
            report("%s: %s frame %d, level %.3f dB, %d bytes: return %d, "
                "decoded %d, refused at stage %d", cs, PNAME[l], t,
                20 * log10(g), nb, r, rd, st);
            ok = false;
        }
        for (int i = nb; ok && i < (int)sizeof(o); i++)
            if (o[i] != 0xb7) {
                report("%s: %s frame %d of %d bytes, written out", cs,
                    PNAME[l], t, nb);
                ok = false;
            }
        n_lsb += f.lsb_mode;
        if (f.nleft <= 1) n_tight[f.nleft < 1]++;
        if (ok && f.nleft < 0) {
            report("%s: %s frame %d, level %.3f dB, %d bytes: claims %d more "
                "bits", cs, PNAME[l], t, 20 * log10(g), nb, -f.nleft);
            ok = false;
        }
        state_add(hash64(o, nb, ci));
    }
    free(me), free(md);
    R.validated++;
    return ok;
}

static const int LT[] = { P_NOISE, P_MUSIC, P_VOICE, P_TNS, P_FULL, P_ATTACK,
    P_HIGH, P_SINE, P_WB, P_SQUARE };
#define NSZ 10

int main(int argc, char **argv)
{
    run_init(argc, argv);
    cfg_init();
    while (work_next((long)NCFG * COUNT(LT))) {
        int i = R.item / COUNT(LT), l = LT[R.item % COUNT(LT)];
        if (c != &CFG[i]) {
            c = &CFG[ci = i], ns = cfg_ns(c);
            nmin = cfg_min(c), nmax = cfg_max(c);
            cfg_str(c, cs);
        }
        for (int t = 0; t < 4; t++)
            pcm_letter(l, c->pcm, ns, t, base[t]);
        int sz[NSZ];
        for (int k = 0; k < NSZ; k++)
            sz[k] = nmin + (k * COUNT(LT) + R.item % COUNT(LT)) *
                (nmax - nmin) / (NSZ * COUNT(LT) - 1);
        bool ok = true;
        for (int k = 0; ok && k < NSZ; k++)
            ok = sweep(l, sz[k], R.thorough ? 3000 : 300, -14, 1);
    }
    stat_add("frames", n_frames), stat_add("lsb_mode", n_lsb);
    stat_add("left_1", n_tight[0]), stat_add("left_0", n_tight[1]);
    return run_end();
}
