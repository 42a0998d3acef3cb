/*
 * Parametric streams: each sweeps the parameters some decisions of the
 * encoder depend on, a value being held for some frames.
 */
#ifndef PARAMS_H
#define PARAMS_H

enum { K_LEVEL, K_CUT, K_PITCH, K_ONSET, K_DECAY, K_FORM, K_TONE, K_BASS,
    K_PEAK, NPAR };

static const char *KNAME[NPAR] = {
    "level", "cutoff", "lag", "onset", "decay", "formants", "tone", "bass", "peak"
};

static const double K_SLOPE[] = {     /* dB in 800 Hz */
    1, 2, 3, 3.5, 4, 4.5, 5, 5.5, 6, 7, 8, 10, 12, 14, 16, 18, 20, 22, 26, 60 };

#define K_NSLOPE COUNT(K_SLOPE)
#define K_NFORM 100

static int k_hold(int k, const struct cfg *c)
{
    return k == K_PITCH ? (c->dt == 10000 ? 4 : c->dt == 7500 ? 5 :
                           c->dt == 5000 ? 7 : 12) :
           k == K_PEAK ? 2 + 12500 / c->dt : 2;
}

/* Number of values of the parameters */
static int k_count(int k, const struct cfg *c)
{
    switch (k) {
    case K_LEVEL: return 3 * 56;
    case K_CUT:   return K_NSLOPE * MIN(c->sr / 2 / 400 - 3, 38);
    case K_PITCH: return (228 - 31) * 4 / 5;
    case K_ONSET: return 16 * 10;
    case K_DECAY: return 4 * 12;
    case K_FORM:  return K_NFORM;
    case K_TONE:  return 60;
    case K_BASS:  return c->hr ? 24 * 5 : 0;
    case K_PEAK:  return 3 * 16;
    }
    return 0;
}

static double k_noise(unsigned n)
{
    uint32_t s = n * 2654435761u + 0x9e3779b9u;
    s ^= s >> 15, s *= 0x85ebca6bu, s ^= s >> 13, s *= 0xc2b2ae35u, s ^= s >> 16;
    return (int32_t)s / 2147483648.;
}

/* Partials of amplitude `a`, each 100 Hz up to the coded band */
static void k_partials(const double *a, int na, int sr, long n0, int ns, double *v)
{
    for (int j = 0; j < na; j++) {
        if (a[j] == 0) continue;
        double f = 100. * (j + 0.5) + 31. * k_noise(j), ph = 7. * k_noise(j + 999);
        double w = 2 * M_PI * f / sr, p = fmod(w * n0, 2 * M_PI) + ph;
        double re = cos(p), im = sin(p), cw = cos(w), sw = sin(w);
        for (int i = 0; i < ns; i++) {
            v[i] += a[j] * re;
            double t = re * cw - im * sw;
            im = re * sw + im * cw, re = t;
        }
    }
}

/* Frame `t` of the value `p` of parameters, number `g` of the stream */
static void par_letter(int k, const struct cfg *c, int p, int t, long g, int32_t *x)
{
    int ns = c->dt / 100 * (c->pcm / 100) / 100, sr = c->pcm;
    static double v[960], a[480];
    long n0 = g * ns;
    int na = MIN(c->sr / 200, 480);

    for (int i = 0; i < ns; i++) v[i] = 0;

    switch (k) {
    case K_LEVEL: {
        double l = exp2(-(p / 3) * 0.33), m = p % 3 == 1 ? 1 : -1;
        for (int i = 0; i < ns; i++) {
            double w[3];
            for (int j = 0; j < 3; j++) w[j] = k_noise(n0 + i - j + 5000);
            v[i] = l * (p % 3 ? 0.25 * (w[0] + 2*m*w[1] + w[2]) : 0.9 * w[0]);
        }
    } break;

    case K_CUT: {
        double s = K_SLOPE[p % K_NSLOPE], fc = 1200 + 400 * (p / K_NSLOPE);
        double l = ((p / K_NSLOPE + p) % 5) == 4 ? 0.0005 : 0.02;
        for (int j = 0; j < na; j++) {
            double f = 100 * j + 50, d = f < fc ? 0 : (f - fc) / 800 * s;
            a[j] = d > 100 ? 0 : l * pow(10, -d / 20);
        }
        k_partials(a, na, sr, n0, ns, v);
    } break;

    case K_PITCH: {
        double f0 = 12800 / (31.5 + p * 1.25), e = 0.002 * exp2(p % 9);
        for (int h = 1; h < 40 && f0 * h < MIN(3800, sr / 2); h++)
            for (int i = 0; i < ns; i++)
                v[i] += 0.15 / sqrt(h) * cos(2 * M_PI * fmod(f0 * h * (n0 + i) / sr, 1) + h*h);
        for (int i = 0; i < ns; i++) v[i] += e * k_noise(n0 + i);
    } break;

    case K_ONSET: {
        int pos = (p & 15) * ns / 16;
        double r = exp2(0.35 * (p >> 4) + 0.3), l = 0.6 * exp2(-(p % 7));
        for (int i = 0; i < ns; i++)
            v[i] = (t == 1 && i >= pos ? l : l / r) * k_noise(n0 + i);
    } break;

    case K_DECAY: {
        int pos = (p & 3) * ns / 4 + ns / 9;
        double tau = ns * 0.02 * exp2((p >> 2) * 0.5);
        for (int i = 0; i < ns; i++)
            v[i] = 0.7 * exp(-abs(i - pos) / tau) *
                (p & 1 ? k_noise(n0 + i) : cos(2.1 * i));
    } break;

    case K_FORM: {
        double l = 0;
        for (int j = 0; j < na; j++) {
            int b = j < 8 ? j : 8 + (int)(5 * log2(j / 8.));
            a[j] = pow(10, -2.2 * (1 + k_noise(77 * p + b)) / 2);
            l += a[j] * a[j];
        }
        for (int j = 0; j < na; j++) a[j] *= 0.2 / sqrt(l) * (p % 4 ? 1 : 0.05);
        k_partials(a, na, sr, n0, ns, v);
    } break;

    case K_TONE: {
        double f = c->sr * 0.49 * (p + 0.5) / 60;
        for (int i = 0; i < ns; i++)
            v[i] = exp2(-(p * 7 % 10)) * 0.9 * cos(2 * M_PI * fmod(f * (n0 + i) / sr, 1));
    } break;

    case K_BASS: {      /* Noise floor of the high-resolution mode */
        double f = 1e6 / c->dt * exp2((p / 5 - 12) * 0.33);
        for (int i = 0; i < ns; i++)
            v[i] = exp2(-(p % 5) * 2.4) * 0.98 *
                cos(2 * M_PI * fmod(f * (n0 + i) / sr, 1)) +
                ldexp(k_noise(n0 + i), -8 - p % 15);
    } break;

    case K_PEAK: {      /* Extremes of the resampled and filtered samples */
        double s = p & 1 ? 1 : -1, r = MIN(1, 12800. / sr);
        double o = ns / 2 + (p / 2 % 8) / 8.;
        bool last = t == k_hold(k, c) - 1;
        for (int i = 0; i < ns; i++)
            v[i] = !last ? -s : p / 16 == 2 ? (k_noise(n0 + i) < 0 ? -1 : 1) :
                sin(M_PI * (i - o) * r) * (i - o) < 0 ? -s :
                p / 16 && fabs(i - o) * r > 3 ? -s : s;
    } break;
    }

    for (int i = 0; i < ns; i++) {
        double w = floor(v[i] * 8388608 + 0.5);
        x[i] = w > 8388607 ? 8388607 : w < -8388608 ? -8388608 : (int32_t)w;
    }
}

#endif /* PARAMS_H */
