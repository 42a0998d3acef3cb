/*
 * C22: PCM rate options preserve the stream and the timing
 *
 * Items are (coded configuration, kind, letter). All pairs of PCM rates of
 * the encoder and of the decoder are run.
 */
#include "fid.h"

static const int RATES[] = { 8000, 16000, 24000, 32000, 48000, 96000 };
static struct cfg BASE[40];
static int NBASE;

static bool rate_ok(const struct cfg *c, int p)
{
    return p >= c->sr && (c->hr ? p >= 48000 : p <= 48000);
}

/* Streams at all pairs of rates, compared with the ideal signal, with the
 * stream at the coded rate and with the model */

static void run_ideal(const struct cfg *c, int g)
{
    static struct meas m;
    static double base[8][2];
    struct src s = { 0, g, 0, MIN(c->sr/2., 20000) * 0.9 };
    int lo = cfg_min(c), hi = cfg_max(c), nz = R.thorough ? 6 : 2;
    int nfr = MIN(R.thorough ? 480000 / c->dt : 200000 / c->dt, 200);
    char nm[64], what[256];

    cfg_str(c, nm);
    for (int a = 0; a < COUNT(RATES); a++)
        for (int b = 0; b < COUNT(RATES); b++) {
            int p1 = RATES[a], p2 = RATES[b];
            if (!rate_ok(c, p1) || !rate_ok(c, p2))
                continue;
            source(c, p1, p2, &s, nfr);
            for (int z = 0; z <= nz; z++)
                for (int noltpf = 0; noltpf < 2; noltpf++) {
                    int nb = lo + (hi - lo) * z / nz;
                    sprintf(what, "ideal %s %s from %d to %d %d bytes%s", nm,
                        SNAME[g], p1, p2, nb, noltpf ? " ltpf off" : "");
                    trace("%s", what);
                    if (!both(c, p1, p2, &nb, 1, nfr, noltpf, what, &m))
                        return;
                    state_add(hash64(Y, nfr * ns_of(c, p2) * 4, 22));
                    if (p1 == c->sr && p2 == c->sr)
                        base[z][noltpf] = m.snr;
                    if (MEAS)
                        continue;
                    if (g == S_SIL) {
                        if (m.max != 0)
                            report("output of %g for silence", m.max);
                        continue;
                    }
                    /* This one is not limited to the band */
                    if (g == S_ONSET && (p1 != c->sr || p2 != c->sr))
                        continue;
                    if (noltpf) {
                        if (m.snr < MIN(base[z][1], 45) - 6)
                            report("signal to noise ratio of %.2f dB, "
                                "%.2f at the coded rate", m.snr, base[z][1]);
                        if (m.shift && m.bsnr > 10)
                            report("output shifted by %d samples", m.shift);
                    } else if (m.shift && m.bsnr > 28)
                        report("output shifted by %d samples", m.shift);
                    double tol = m.snr > 40 ? 0.012 : m.snr > 20 ? 0.15 : 1;
                    if (fabs(m.gain - 1) > tol)
                        report("gain of %.4f", m.gain);
                }
        }
    sample("%s %s, all pairs of rates, last: %.2f dB, shift %d, gain %.5f",
        nm, SNAME[g], m.snr, m.shift, m.gain);
}

/* The same frames, with losses, decoded at all rates: the output is the one
 * at the coded rate, interpolated */

#define TAPS 96
#define HIPASS 257

static double bessi0(double x)
{
    double s = 1, t = 1;
    for (int k = 1; k < 40; k++)
        t *= x / (2*k) * x / (2*k), s += t;
    return s;
}

static double win(double x)
{
    return fabs(x) >= 1 ? 0 : bessi0(9 * sqrt(1 - x*x)) / bessi0(9);
}

static double sinc(double x)
{
    return fabs(x) < 1e-9 ? 1 : sin(M_PI * x) / (M_PI * x);
}

static float YB[MAXN], YH[MAXN];
static uint8_t FR[256][640];

static void decode_all(const struct cfg *c, int pcm, int nb, int nfr,
    unsigned pat, int per, float *y)
{
    static uint8_t md[1 << 17];
    int ns = ns_of(c, pcm);
    lc3_decoder_t d = lc3_hr_setup_decoder(c->hr, c->dt, c->sr, pcm, md);
    if (!d) { report("setup refused"); return; }
    for (int t = 0; t < nfr; t++) {
        bool lost = t >= 4 && (pat >> (t % per) & 1);
        int r = lc3_decode(d, lost ? NULL : FR[t], nb, LC3_PCM_FORMAT_FLOAT,
            y + t*ns, 1);
        if (r != lost)
            report("frame %d %s: returned %d", t, lost ? "lost" : "", r);
        R.transitions++;
    }
}

static void run_interp(const struct cfg *c, int g)
{
    static uint8_t me[1 << 17];
    struct src s = { 0, g, 0, MIN(c->sr/2., 20000) * 0.9 };
    int ns = ns_of(c, c->sr), nfr = MIN(160000 / c->dt, 64);
    int lo = cfg_min(c), hi = cfg_max(c), nz = R.thorough ? 4 : 2;
    int per = R.thorough ? 7 : 5;
    char nm[64];
    double qi = 0, qc = 0;

    cfg_str(c, nm);
    for (int n = 0; n < nfr * ns; n++)
        X[n] = 0.8 * src_at(&s, (double)n / c->sr);
    for (int z = 0; z <= nz; z++) {
        int nb = lo + (hi - lo) * z / nz;
        lc3_encoder_t e = lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->sr, me);
        if (!e) { report("setup refused"); return; }
        lc3_encoder_disable_ltpf(e);
        for (int t = 0; t < nfr; t++)
            if (lc3_encode(e, LC3_PCM_FORMAT_FLOAT, X + t*ns, 1, nb, FR[t]))
                report("encoding refused");
        for (unsigned pat = 0; pat < (1u << per) - 1; pat++) {
            trace("interp %s %s %d bytes, loss pattern %x of %d frames", nm,
                SNAME[g], nb, pat, per);
            decode_all(c, c->sr, nb, nfr, pat, per, YB);
            bool clip = false;
            for (int n = 0; n < nfr * ns; n++)
                clip |= fabs(YB[n]) > 0.999;
            for (int a = 0; a < COUNT(RATES); a++) {
                int p2 = RATES[a], ns2 = ns_of(c, p2);
                if (!rate_ok(c, p2) || p2 == c->sr)
                    continue;
                trace("interp %s %s to %d %d bytes, loss pattern %x of %d frames",
                    nm, SNAME[g], p2, nb, pat, per);
                decode_all(c, p2, nb, nfr, pat, per, YH);
                state_add(hash64(YH, nfr * ns2 * 4, 23));
                R.validated += nfr;

                /* Samples at the same time */
                if (p2 == 3 * c->sr) {
                    double q = 0, e = 0;
                    for (int n = 0; n < nfr * ns; n++) {
                        double d = YH[3*n + 1] - YB[n];
                        q += YB[n] * YB[n], e += d*d;
                    }
                    double r = 10 * log10((q + 1e-20) / (e + 1e-20));
                    if (MEAS) printf("C %s %s %d %d %x coinc %.2f\n", nm, SNAME[g], p2, nb, pat, r);
                    else if (r < 51)
                        report("differs by %.2f dB of the output at the coded rate", -r);
                    qc = r;
                }

                /* Samples interpolated: phases repeat */
                int ph = 1;
                while ((long)ph * c->sr % p2) ph++;
                static double k[8][TAPS];
                static int k0[8];
                for (int i = 0; i < ph; i++) {
                    double u = (i + 0.5) * c->sr / p2 - 0.5;
                    k0[i] = (int)floor(u) - TAPS/2 + 1;
                    for (int j = 0; j < TAPS; j++)
                        k[i][j] = sinc(u - (k0[i] + j)) * win((u - (k0[i] + j)) / (TAPS/2));
                }
                double q = 0, e = 0, mx = 0;
                int st = ph * c->sr / p2;
                for (int n = 4*ns2; n < (nfr - 4) * ns2; n++) {
                    int i = n % ph, o = n / ph * st + k0[i];
                    double v = 0;
                    for (int j = 0; j < TAPS; j++)
                        if (o + j >= 0 && o + j < nfr * ns)
                            v += k[i][j] * YB[o + j];
                    double d = YH[n] - v;
                    q += v*v, e += d*d, mx = MAX(mx, fabs(YH[n]));
                }
                clip |= mx > 0.999;
                double r = 10 * log10((q + 1e-20) / (e + 1e-20)); qi = r;
                double lim = clip ? 32 : c->hr ? 55 : g == S_NOISE ? 31 :
                    g == S_ONSET ? 34 : g == S_AM ? 36 : g == S_BURST ? 42 : 46;
                if (MEAS) printf("I %s %s %d %d %x clip %d interp %.2f\n", nm, SNAME[g], p2, nb, pat, clip, r);
                else if (q > 1e-12 ? r < lim : e > 1e-12)
                    report("differs by %.2f dB of the output at the coded rate, "
                        "interpolated", -r);

                /* Nothing above the coded band */
                static double h[HIPASS];
                double fc = (c->sr / 2. + 0.02 * p2) / p2, eo = 0;
                for (int j = 0; j < HIPASS; j++) {
                    int x = j - HIPASS/2;
                    h[j] = ((x == 0) - 2*fc * sinc(2*fc * x)) * win((double)x / (HIPASS/2 + 1));
                }
                int cnt = 0;
                for (int n = 4*ns2; n < (nfr - 4) * ns2; n += 3, cnt++) {
                    double v = 0;
                    for (int j = 0; j < HIPASS; j++)
                        if (n - j >= 0) v += h[j] * YH[n - j];
                    eo += 3 * v*v;
                }
                double qt = 0;
                for (int n = 0; n < nfr * ns2; n++)
                    qt += (double)YH[n] * YH[n];
                r = 10 * log10((eo + 1e-20) / (qt + 1e-20));
                lim = clip ? -36 : c->hr ? -85 : g == S_NOISE ? -55 :
                    g == S_ONSET ? -44 : -60;
                if (MEAS) printf("O %s %s %d %d %x clip %d oob %.2f\n", nm, SNAME[g], p2, nb, pat, clip, r);
                else if (qt > 1e-12 ? r > lim : eo > 1e-12)
                    report("%.2f dB above the coded band", r);
            }
        }
    }
    sample("%s %s, decoded at all rates, %d loss patterns, last: %.2f dB at the"
        " same times, %.2f dB interpolated", nm, SNAME[g], (1 << per) - 1, qc, qi);
}

/* Tones above the coded band, at the input of the encoder */

static void run_alias(const struct cfg *c)
{
    int nf = R.thorough ? 40 : 10, nfr = MIN(160000 / c->dt, 64), sk = skip_of(c);
    char nm[64];

    cfg_str(c, nm);
    for (int a = 0; a < COUNT(RATES); a++) {
        int p1 = RATES[a], ns1 = ns_of(c, p1);
        if (!rate_ok(c, p1) || p1 == c->sr)
            continue;
        for (int b = 0; b < COUNT(RATES); b++) {
            int p2 = RATES[b], ns2 = ns_of(c, p2);
            if (!rate_ok(c, p2))
                continue;
            for (int k = 0; k < nf; k++)
                for (int z = 0; z < 4; z++) {
                    double ny = c->sr / 2., fr = 1.13 + (p1 / 2 * 0.985 / ny - 1.13) * k / (nf-1);
                    int nb = z & 1 ? cfg_max(c) : cfg_min(c) + (cfg_max(c) - cfg_min(c)) / 5;
                    int g = z & 2 ? S_SINE : S_SIL;
                    trace("alias %s %s, tone at %.1f Hz, from %d to %d, %d bytes",
                        nm, SNAME[g], fr * ny, p1, p2, nb);
                    struct src s = { 0, g, 0, 0 };
                    source(c, p1, p2, &s, nfr);
                    for (int n = 0; n < nfr * ns1; n++)
                        X[n] += 0.3 * sin(2 * M_PI * fr * ny * n / p1);
                    if (!run_stream(c, p1, p2, X, &nb, 1, nfr, true, false, Y))
                        return;
                    state_add(hash64(Y, nfr * ns2 * 4, 24));
                    double e = 0;
                    for (int n = sk*ns2; n < nfr*ns2; n++) {
                        double d = Y[n] - W[n + NSH];
                        e += d*d;
                    }
                    e = 10 * log10(e / ((nfr - sk) * ns2 * 0.045) + 1e-12);
                    double lim = g == S_SIL ? (c->hr ? -80 : fr > 1.6 ? -62 :
                        fr > 1.2 ? -48 : -30) :
                        fr > 1.2 ? -44 : -30;
                    if (MEAS) printf("A %s %s %d %d %d fr %.2f alias %.2f\n", nm, SNAME[g], p1, p2, nb, fr, e);
                    else if (e > lim)
                        report("aliasing of %.2f dB", e);
                }
        }
    }
}

int main(int argc, char **argv)
{
    run_init(argc, argv);
    cfg_init();
    for (int i = 0; i < NCFG; i++)
        if (CFG[i].pcm == CFG[i].sr) {
            if (CFG[i].sr == (CFG[i].hr ? 96000 : 48000))
                continue;
            BASE[NBASE++] = CFG[i];
        }

    static const int GI[] = { S_SINE, S_HARM, S_NOISE, S_BURST, S_CLICKS,
        S_SPEECH, S_AM, S_FULL, S_SWEEP, S_ONSET };
    int ni = R.thorough ? COUNT(GI) : 8;
    int per = 1 + ni + NSGN;

    while (work_next((long)NBASE * per)) {
        const struct cfg *c = &BASE[R.item % NBASE];
        int k = R.item / NBASE;
        watchdog(R.thorough ? 900 : 60);
        if (k == 0) run_alias(c);
        else if ((k -= 1) < ni) run_interp(c, GI[k]);
        else run_ideal(c, k - ni);
        R.execs++;
    }
    stat_add("streams", NSTREAMS);
    return run_end();
}
