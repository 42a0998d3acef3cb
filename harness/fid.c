/*
 * C17: encoding then decoding reproduces the signal, at the queried delay
 *
 * Items are (configuration, letter); all words of sizes, signals, burst
 * positions and formats within the bounds are run through an encoder and a
 * decoder. The output is compared with the ideal signal, a function of the
 * time, and with the output of the model.
 */
#include "fid.h"

/* Lowest signal to noise ratio, LTPF disabled, by bits of coefficient */
static double floor_of(const struct cfg *c, int nb)
{
    int ne = MIN(cfg_ns_sr(c), c->hr ? 1000 : c->dt / 25);
    double b = 8. * nb / ne;
    return b < 1 ? -3.5 : b < 2 ? -3 : b < 3 ? 0 : b < 4 ? 8 : b < 5 ? 8 :
           b < 6 ? 17 : 20;
}

/* --- Items --- */

static void name(char *s, const struct cfg *c, const struct src *r)
{
    cfg_str(c, s);
    s += strlen(s);
    if (r->kind == 0) sprintf(s, " %s", SNAME[r->a]);
    if (r->kind == 1) sprintf(s, " %s/%s", SNAME[r->a], SNAME[r->b]);
    if (r->kind == 2) sprintf(s, " burst at %.3fms", r->pos * 1e3);
}

static void run_ladder(const struct cfg *c, int g)
{
    static struct meas m;
    struct src s = { 0, g, 0, MIN(c->sr/2., 20000) * 0.9 };
    int nfr = MIN(R.thorough ? 600000 / c->dt : 320000 / c->dt, MAXN / cfg_ns(c));
    int lo = cfg_min(c), hi = cfg_max(c), nz = R.thorough ? hi - lo : 6;
    char nm[128], what[256];

    source(c, c->pcm, c->pcm, &s, nfr);
    name(nm, c, &s);
    for (int noltpf = 0; noltpf < 2; noltpf++) {
        double run = -100, first = 0;
        for (int z = 0; z <= nz; z++) {
            int nb = lo + (long)(hi - lo) * z / nz;
            sprintf(what, "ladder %s %d bytes%s b %.2f", nm, nb, noltpf ? " ltpf off" : "",
                8. * nb / MIN(cfg_ns_sr(c), c->hr ? 1000 : c->dt / 25));
            trace("%s", what);
            if (!both(c, c->pcm, c->pcm, &nb, 1, nfr, noltpf, what, &m))
                return;
            if (!state_add(hash64(Y, nfr * cfg_ns(c) * 4, 17)))
                stat_add("same_output", 1);
            if (MEAS)
                continue;
            if (g == S_SIL) {
                if (m.max != 0)
                    report("output of %g for silence", m.max);
                continue;
            }
            /* Between these large steps, the error is only the one of the
             * model: that of the specified algorithm does not decrease
             * steadily */
            if (nz > 6 && z && z * 6 / nz == (z - 1) * 6 / nz)
                continue;
            double f = floor_of(c, nb) - (R.thorough ? 1 : 0);
            if (noltpf) {
                if (m.snr < f)
                    report("signal to noise ratio of %.2f dB, %.2f expected", m.snr, f);
                if (m.shift && m.bsnr > 10)
                    report("output shifted by %d samples", m.shift);
            } else if (m.shift && m.bsnr > 25)
                report("output shifted by %d samples", m.shift);
            double tol = m.snr > 40 ? 0.012 : m.snr > 20 ? 0.15 : 1;
            if (fabs(m.gain - 1) > tol || m.gain < 0)
                report("gain of %.4f", m.gain);
            if (noltpf) {
                if (m.snr < MIN(run, 45) - (g != S_NOISE ? 6 : R.thorough ? 4 : 1.5))
                    report("signal to noise ratio of %.2f dB, %.2f with a lower "
                        "frame size", m.snr, run);
                run = MAX(run, m.snr);
                if (!z) first = m.snr;
                if (z == nz && m.snr < first + 15 && m.snr < 30)
                    report("signal to noise ratio from %.2f to %.2f dB", first, m.snr);
            }
        }
    }
    sample("%s: %d frame sizes, LTPF on and off, last: %.2f dB, shift %d, gain %.5f",
        nm, nz + 1, m.snr, m.shift, m.gain);
}

static void run_words(const struct cfg *c, int g)
{
    static struct meas m;
    struct src s = { 0, g, 0, MIN(c->sr/2., 20000) * 0.9 };
    int nfr = MIN(240000 / c->dt, MAXN / cfg_ns(c));
    int lo = cfg_min(c), hi = cfg_max(c), len = R.thorough ? 4 : 3;
    int sz[3] = { lo, lo + (hi - lo) / 4, hi }, nw = R.thorough ? 81 : 27;
    double base[2];
    char nm[128], what[256];

    source(c, c->pcm, c->pcm, &s, nfr);
    name(nm, c, &s);
    for (int w = 0; w < nw; w++)
        for (int noltpf = 0; noltpf < 2; noltpf++) {
            int wd[4], i = w;
            for (int k = 0; k < len; k++, i /= 3)
                wd[k] = sz[i % 3];
            sprintf(what, "word %s (%d %d %d %d)%s", nm, wd[0], wd[1], wd[2],
                len > 3 ? wd[3] : wd[0], noltpf ? " ltpf off" : "");
            trace("%s", what);
            if (!both(c, c->pcm, c->pcm, wd, len, nfr, noltpf, what, &m))
                return;
            state_add(hash64(Y, nfr * cfg_ns(c) * 4, 17));
            if (!w) base[noltpf] = m.snr;
            if (MEAS) continue;
            if (noltpf && m.snr < MIN(base[1], 45) - 3)
                report("signal to noise ratio of %.2f dB, %.2f with the minimum"
                    " frame size", m.snr, base[1]);
            if (noltpf && m.shift && m.bsnr > 10)
                report("output shifted by %d samples", m.shift);
        }
}

static void run_pairs(const struct cfg *c, int a)
{
    static struct meas m;
    int nfr = MIN(320000 / c->dt, MAXN / cfg_ns(c));
    int lo = cfg_min(c), hi = cfg_max(c), ns = cfg_ns(c);
    char nm[128], what[256];

    for (int b = 0; b < NSGN; b++) {
        if (b == a) continue;
        struct src s = { 1, a, b, MIN(c->sr/2., 20000) * 0.9, 0.0531 };
        source(c, c->pcm, c->pcm, &s, nfr);
        name(nm, c, &s);
        for (int z = 0; z < 2; z++) {
            int nb = z ? hi - (hi - lo) / 5 : lo + (hi - lo) / 6;
            sprintf(what, "pair %s %d bytes", nm, nb);
            trace("%s", what);
            if (!both(c, c->pcm, c->pcm, &nb, 1, nfr, false, what, &m))
                return;
            state_add(hash64(Y, nfr * ns * 4, 17));
            if (b == S_SIL) {
                /* Silence from two frames after the end of the signal */
                double mx = 0;
                for (int n = 0; n < nfr * ns; n++) {
                    double t1 = time_of(c, c->pcm, c->pcm, n);
                    double u = fmod(t1 + 2 * s.per, 2 * s.per);
                    if (t1 > 0 && u > s.per + 2.1e-6 * c->dt &&
                        u < 2 * s.per - 0.0041 - 2.1e-6 * c->dt)
                        mx = MAX(mx, fabs(Y[n]));
                }
                if (MEAS) printf("AFTER %s %g\n", what, mx);
                else if (mx > 1e-6)
                    report("output of %g in silence", mx);
            }
        }
    }
}

static void run_bursts(const struct cfg *c)
{
    static struct meas m;
    int ns = cfg_ns(c), nfr = 12 + 20000 / c->dt;
    int lo = cfg_min(c), hi = cfg_max(c), np = R.thorough ? 96 : 12;
    char nm[128], what[256];

    for (int p = 0; p < np; p++) {
        double t0 = (nfr - 5) * 1e-6 * c->dt;
        struct src s = { 2, 0, 0, MIN(c->sr/2., 20000) * 0.9, 0,
            t0 + p * 1e-6 * c->dt / np };
        source(c, c->pcm, c->pcm, &s, nfr);
        name(nm, c, &s);
        for (int z = 0; z < 3; z++) {
            int nb = lo + (hi - lo) * z / 2;
            sprintf(what, "single %s %d bytes", nm, nb);
            trace("%s", what);
            if (!both(c, c->pcm, c->pcm, &nb, 1, nfr, true, what, &m))
                return;
            state_add(hash64(Y, nfr * ns * 4, 17));
            if (MEAS) continue;
            if (m.shift && m.bsnr > 10)
                report("output shifted by %d samples", m.shift);
            if (m.snr > 20 && fabs(m.gain - 1) > (m.snr > 40 ? 0.015 : 0.15))
                report("gain of %.4f", m.gain);
        }
    }
}

/* All pairs of formats */

static void *convert(const float *x, int n, int fmt)
{
    static union { int16_t h[MAXN]; int32_t w[MAXN]; uint8_t b[3*MAXN]; float f[MAXN]; } u;
    for (int i = 0; i < n; i++) {
        double v = x[i] * (fmt == LC3_PCM_FORMAT_S16 ? 32768. : 8388608.);
        int32_t s = lrint(v);
        switch (fmt) {
        case LC3_PCM_FORMAT_S16: u.h[i] = s; break;
        case LC3_PCM_FORMAT_S24: u.w[i] = s; break;
        case LC3_PCM_FORMAT_S24_3LE:
            u.b[3*i] = s, u.b[3*i+1] = s >> 8, u.b[3*i+2] = s >> 16; break;
        default: u.f[i] = x[i];
        }
    }
    return &u;
}

static void run_formats(const struct cfg *c)
{
    static struct meas m;
    static const int bytes[] = { 2, 4, 3, 4 };
    static union { int16_t h[960]; int32_t w[960]; uint8_t b[3*960]; float f[960]; } u;
    int ns = cfg_ns(c), nfr = 160000 / c->dt;
    int nb = cfg_max(c) - (cfg_max(c) - cfg_min(c)) / 4;
    static uint8_t f[640], me[1 << 17], md[1 << 17];
    char nm[128];
    struct src s = { 0, S_FULL, 0, MIN(c->sr/2., 20000) * 0.9 };

    source(c, c->pcm, c->pcm, &s, nfr);
    name(nm, c, &s);
    for (int fi = 0; fi < 4; fi++)
        for (int fo = 0; fo < 4; fo++) {
            trace("formats %s %d bytes, from format %d to %d", nm, nb, fi, fo);
            lc3_encoder_t e = lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, me);
            lc3_decoder_t d = lc3_hr_setup_decoder(c->hr, c->dt, c->sr, c->pcm, md);
            if (!e || !d) { report("setup refused"); return; }
            lc3_encoder_disable_ltpf(e);
            const uint8_t *x = convert(X, nfr * ns, fi);
            for (int t = 0; t < nfr; t++) {
                int r = lc3_encode(e, fi, x + t*ns*bytes[fi], 1, nb, f);
                if (!r) r = lc3_decode(d, f, nb, fo, &u, 1);
                if (r) { report("returned %d", r); return; }
                R.transitions++;
                for (int i = 0; i < ns; i++)
                    Y[t*ns + i] = fo == LC3_PCM_FORMAT_S16 ? u.h[i] * 0x1p-15f :
                        fo == LC3_PCM_FORMAT_S24 ? u.w[i] * 0x1p-23f :
                        fo == LC3_PCM_FORMAT_FLOAT ? u.f[i] :
                        (int32_t)((uint32_t)u.b[3*i] << 8 | u.b[3*i+1] << 16 |
                            (uint32_t)u.b[3*i+2] << 24) * 0x1p-31f;
            }
            measure(ns, nfr, skip_of(c), Y, &m);
            if (MEAS)
                printf("FMT %s %d %d snr %.2f shift %d gain %.6f\n", nm, fi, fo, m.snr, m.shift, m.gain);
            double lim = fi == LC3_PCM_FORMAT_S16 || fo == LC3_PCM_FORMAT_S16 ? 38 : 40;
            if (m.snr < lim || m.shift || fabs(m.gain - 1) > 2e-3)
                report("signal to noise ratio %.2f dB, shift of %d samples, gain of %.4f",
                    m.snr, m.shift, m.gain);
            state_add(hash64(Y, nfr * ns * 4, 17));
        }
}

int main(int argc, char **argv)
{
    run_init(argc, argv);
    cfg_init();
    static const int WS[] = { S_NOISE, S_HARM, S_SWEEP, S_SPEECH, S_BURST };
    int nws = R.thorough ? COUNT(WS) : 2;
    int per = NSGN + nws + NSGN + 2;

    while (work_next((long)NCFG * per)) {
        const struct cfg *c = &CFG[R.item % NCFG];
        int k = R.item / NCFG;
        watchdog(R.thorough ? 600 : 60);
        if (k < NSGN) run_ladder(c, k);
        else if ((k -= NSGN) < nws) run_words(c, WS[k]);
        else if ((k -= nws) < NSGN) run_pairs(c, k);
        else if (!(k -= NSGN)) run_bursts(c);
        else run_formats(c);
        R.execs++;
    }
    stat_add("streams", NSTREAMS);
    return run_end();
}
