/*
 * Streams through an encoder and a decoder, compared with the ideal signal.
 */
#include "common.h"
#include <ref.h>

#ifndef MEAS
#define MEAS 0
#endif

/* --- Signals, as functions of the time, within the coded band --- */

enum { S_SINE, S_HARM, S_NOISE, S_BURST, S_LOW, S_FULL, S_AM, S_SWEEP,
       S_CLICKS, S_ONSET, S_SPEECH, S_SIL, NSGN };

static const char *SNAME[NSGN] = { "sine", "harmonics", "noise", "bursts",
    "lowsine", "fullsine", "am", "sweep", "clicks", "onset", "speech",
    "silence" };

/* fm: limit of the band */
static double sig(int s, double t, double fm)
{
    static double nf[64], np_[64], nfm;
    const double W = 2 * M_PI;
    double v = 0;

    if (nfm != fm) {
        uint32_t r = 12345;
        for (int k = 0; k < 64; k++) {
            nf[k] = fm * (k + 0.1 + 0.8 * (rnd(&r) % 1000) / 1000.) / 64 + 40;
            np_[k] = (rnd(&r) % 1000) * W / 1000;
        }
        nfm = fm;
    }

    switch (s) {
    case S_SINE:  return 0.5 * sin(W * 997 * t);
    case S_FULL:  return 0.98 * sin(W * 463 * t + 1);
    case S_LOW:   return 1e-3 * sin(W * 1501 * t);
    case S_HARM:  for (int k = 1; 187.3 * k < fm * 0.9 && k < 40; k++)
                      v += 0.35 / k * sin(W * 187.3 * k * t + k*k);
                  return v;
    case S_NOISE: for (int k = 0; k < 60; k++)
                      v += 0.012 * sin(W * nf[k] * t + np_[k]);
                  return v;
    case S_BURST: { double u = fmod(t, 0.031) - 0.012;
                  return 0.8 * exp(-u*u / 6e-6) * sin(W * fm * 0.4 * t); }
    case S_AM:    return 0.4 * (1 + 0.9 * sin(W * 43 * t)) * sin(W * fm * 0.3 * t);
    case S_SWEEP: { double f0 = 100, r = fm * 0.7 / 0.6;
                  return 0.5 * sin(W * (f0 * t + r/2 * t*t)); }
    case S_CLICKS:{ double u = fmod(t + 0.0031, 0.0173) - 0.006, f = fm * 0.6;
                  return 0.7 * exp(-u*u * f*f) ; }
    case S_ONSET: { double u = fmod(t, 0.053) - 0.021;
                  double e = u < 0 ? 0 : 1 - exp(-u * 700);
                  for (int k = 0; k < 20; k++)
                      v += 0.1 * sin(W * nf[k] * t + np_[k]);
                  return e * exp(-u * (u > 0) * 40) * v; }
    case S_SPEECH:for (int k = 1; 113.7 * k < fm * 0.85 && k < 60; k++)
                      v += 0.3 / (1 + k * 0.4) * sin(W * 113.7 * k * t + 0.3*k*k);
                  return v * (0.6 + 0.4 * sin(W * 7 * t)) * 0.8;
    }
    return 0;
}

/* --- Streams --- */

#define MAXN (64 * 960)

static double delay_of(const struct cfg *c, int pcm)
{
    return (double)lc3_hr_delay_samples(c->hr, c->dt, pcm) / pcm;
}

/* Where the sample `n` of the output is in the source */
static double time_of(const struct cfg *c, int p1, int p2, int n)
{
    return (n + 0.5) / p2 - 0.5 / p1 - delay_of(c, p2);
}

struct stream {
    int p1, p2, ns1, ns2, nfr;
    const int *sizes; int nsizes;   /* Repeated */
    void *x;                        /* Source */
    float *y;                       /* Output */
};

static float Y[MAXN], YR[MAXN];

/* Encode and decode; by the model with `model`. */
static bool run_stream(const struct cfg *c, int p1, int p2, const float *x,
    const int *sizes, int nsizes, int nfr, bool noltpf, bool model, float *y)
{
    static void *me, *md;
    static uint8_t f[640];
    int ns1 = c->dt / 100 * (p1 / 100) / 100, ns2 = c->dt / 100 * (p2 / 100) / 100;
    me = realloc(me, 1 << 17), md = realloc(md, 1 << 17);
    void *e = model ? ref_lc3_hr_setup_encoder(c->hr, c->dt, c->sr, p1, me)
        : (void *)lc3_hr_setup_encoder(c->hr, c->dt, c->sr, p1, me);
    void *d = model ? ref_lc3_hr_setup_decoder(c->hr, c->dt, c->sr, p2, md)
        : (void *)lc3_hr_setup_decoder(c->hr, c->dt, c->sr, p2, md);
    if (!e || !d) {
        report("setup refused");
        return false;
    }
    if (noltpf) {
        if (model) ref_lc3_encoder_disable_ltpf(e);
        else lc3_encoder_disable_ltpf(e);
    }
    for (int t = 0; t < nfr; t++) {
        int nb = sizes[t % nsizes], r;
        r = model ? ref_lc3_encode(e, LC3_PCM_FORMAT_FLOAT, x + t*ns1, 1, nb, f)
            : lc3_encode(e, LC3_PCM_FORMAT_FLOAT, x + t*ns1, 1, nb, f);
        if (!r)
            r = model ? ref_lc3_decode(d, f, nb, LC3_PCM_FORMAT_FLOAT, y + t*ns2, 1)
                : lc3_decode(d, f, nb, LC3_PCM_FORMAT_FLOAT, y + t*ns2, 1);
        if (r) {
            report("frame %d of %d bytes: returned %d", t, nb, r);
            return false;
        }
        if (!model) R.transitions++;
    }
    return true;
}

/* --- Signals of an item --- */

struct src {
    int kind;           /* 0: signal, 1: pair of signals, 2: single burst */
    int a, b;
    double fm, per, pos;
};

static double src_at(const struct src *s, double t)
{
    const double X = 0.004;
    if (t < 0)
        return 0;
    switch (s->kind) {
    case 0:
        return sig(s->a, t, s->fm);
    case 1: {
        /* `a` for a period, then `b`, with cross fades */
        double u = fmod(t, 2 * s->per), g;
        g = u < s->per - X ? 0 : u < s->per ? (u - (s->per - X)) / X :
            u < 2*s->per - X ? 1 : (2 * s->per - u) / X;
        g = g * g * (3 - 2 * g);
        return (g < 1 ? (1-g) * sig(s->a, t, s->fm) : 0) +
               (g > 0 ? g * sig(s->b, t, s->fm) : 0);
    }
    case 2: {
        double u = t - s->pos, d = 6 / s->fm;
        return 0.8 * exp(-u*u / (2*d*d)) * cos(2 * M_PI * s->fm * 0.4 * u);
    }
    }
    return 0;
}

/* --- Measures --- */

#define NSH 4

struct meas {
    double q, e, r, snr, gain, max;
    int shift;
    double bsnr;
    double fq[512], fe[512];
};

static double W[MAXN + 2*NSH];      /* W[n + NSH]: ideal */
static float X[MAXN];

static void ideal(const struct cfg *c, int p1, int p2, const struct src *s, int n)
{
    for (int i = -NSH; i < n + NSH; i++)
        W[i + NSH] = src_at(s, time_of(c, p1, p2, i));
}

static void measure(int ns, int nfr, int skip, const float *y, struct meas *m)
{
    double best = 1e30;
    *m = (struct meas){ 0 };
    for (int t = 0; t < nfr; t++) {
        double q = 0, e = 0, r = 0;
        for (int n = t*ns; n < (t+1)*ns; n++) {
            double w = W[n + NSH], d = y[n] - w;
            q += w*w, e += d*d, r += w * y[n];
            if (t >= skip && !(fabs(y[n]) <= m->max))
                m->max = fabs(y[n]);
        }
        m->fq[t] = q, m->fe[t] = e;
        if (t >= skip)
            m->q += q, m->e += e, m->r += r;
    }
    for (int k = -NSH; k <= NSH; k++) {
        double e = 0;
        for (int n = skip*ns; n < nfr*ns; n++) {
            double d = y[n] - W[n + NSH + k];
            e += d*d;
        }
        if (e < best)
            best = e, m->shift = k;
    }
    m->snr = 10 * log10((m->q + 1e-20) / (m->e + 1e-20));
    m->bsnr = 10 * log10((m->q + 1e-20) / (best + 1e-20));
    m->gain = m->r / (m->q + 1e-20);
}

/* Worst frame of the implementation, versus the model: error beyond 4 times
 * the one of the model, relative to the signal around, in dB */
static double worst(const struct meas *a, const struct meas *m, int nfr, int *at)
{
    double w = -200;
    for (int t = 0; t < nfr; t++) {
        double em = 0, q = 0;
        for (int k = MAX(t-2, 0); k <= MIN(t+2, nfr-1); k++)
            em = MAX(em, m->fe[k]), q = MAX(q, m->fq[k]);
        double x = a->fe[t] - 4 * em;
        double v = x <= 0 ? -200 : 10 * log10(x / (q + 1e-9));
        if (!(a->fe[t] >= 0)) v = 200;
        if (v > w) w = v, *at = t;
    }
    return w;
}

static long NSTREAMS;

static int skip_of(const struct cfg *c) { return MAX(4, 40000 / c->dt); }

static int ns_of(const struct cfg *c, int pcm)
{
    return c->dt / 100 * (pcm / 100) / 100;
}

static void source(const struct cfg *c, int p1, int p2, const struct src *s, int nfr)
{
    for (int n = 0; n < nfr * ns_of(c, p1); n++)
        X[n] = src_at(s, (double)n / p1);
    ideal(c, p1, p2, s, nfr * ns_of(c, p2));
}

#define LIM_SOFT (-38.)     /* Conclusive when repeated */
#define LIM_SEG  (-20.)

/* Run the implementation and the model, compare both.
 *
 * The decisions of the encoder follow the rounding of the calculation: a
 * difference is conclusive when it remains with all of the perturbed inputs,
 * by less than the rounding of a sample of 24 bits. */
static bool both(const struct cfg *c, int p1, int p2, const int *sizes, int nsizes, int nfr,
    bool noltpf, const char *what, struct meas *a)
{
    static struct meas m, p, pm;
    static float x0[MAXN];
    static const float eps[] = { 0, 6e-8, -6e-8, 1.1e-7, -1.5e-7, 2e-7 };
    int ns1 = ns_of(c, p1), ns = ns_of(c, p2), at = 0, fr = 0;
    double d = 0, w = 0, wmin = 300, dmin = 300, w0 = 0;

    for (int k = 0; k < COUNT(eps); k++) {
        if (k == 1)
            memcpy(x0, X, nfr * ns1 * sizeof(float));
        for (int n = 0; k && n < nfr * ns1; n++)
            X[n] = x0[n] + ((n * 7 + k) % 5 - 2) * eps[k] * (0.5f * fabsf(x0[n]) + 0x1p-3f);
        bool ok = run_stream(c, p1, p2, X, sizes, nsizes, nfr, noltpf,
            false, Y) && run_stream(c, p1, p2, X, sizes, nsizes, nfr,
            noltpf, true, YR);
        if (!ok)
            return false;
        measure(ns, nfr, skip_of(c), YR, &pm);
        measure(ns, nfr, skip_of(c), Y, &p);
        R.validated += nfr;
        if (!k)
            *a = p, m = pm;
        else for (int t = 0; t < nfr; t++)
            m.fe[t] = MAX(m.fe[t], pm.fe[t]);
        m.e = MAX(m.e, pm.e), m.snr = 10 * log10((m.q + 1e-20) / (m.e + 1e-20));

        w = worst(&p, &m, nfr, &at);
        if (!k) w0 = w;
        if (w < wmin) wmin = w, fr = at;
        d = m.q > 1e-9 ? MIN(m.snr, 45) - p.snr : 0;
        if (!(d <= 1e3)) d = 1e3;
        dmin = MIN(dmin, d);
        if (wmin <= LIM_SOFT && dmin <= 2)
            break;
        stat_add("perturbed", 1);
    }
    if (MEAS)
        printf("%s snr %.2f ref %.2f seg %.2f at %d shift %d bsnr %.2f gain %.5f max %g refmax %g w0 %.2f\n",
            what, a->snr, m.snr, wmin, fr, a->shift, a->bsnr, a->gain, a->max, m.max, w0);
    static int nsoft;
    trace("%s", what);
    NSTREAMS++;
    if (dmin > 2)
        report("signal to noise ratio %.2f dB below the one of the model, %.2f dB",
            dmin, m.snr);
    else if (wmin > LIM_SEG)
        report("frame %d: error of %.2f dB above the one of the model", fr, wmin);
    else if (wmin > LIM_SOFT) {
        stat_add("soft", 1);
        if (nsoft++ < 2)
            report("soft: frame %d: error of %.2f dB above the one of the model",
                fr, wmin);
    }
    return true;
}
