/*
 * C10 - PCM formats and strides: all the presentations of the same samples,
 * at each point of bounded histories.
 */
#include "common.h"
#include "ref.h"

static const struct cfg *c;
static int ci, ns, nmin, nmax;
static char cs[64], word[700];
static int wlen;

static const int BPS[] = { 2, 4, 3, 4 };
static const char *FN[] = { "s16", "s24", "s24_3le", "float" };
static const int ST[] = { 1, 2, 3, 7, -1, -2 };

#define GUARD 64
static uint8_t buf[960*8*4 + 2*GUARD], img[960*8*4 + 2*GUARD];

/* Address of sample 0, room of all samples */
static uint8_t *place(int f, int st, size_t *n)
{
    int a = st < 0 ? -st : st;
    *n = (size_t)((ns - 1) * a + 1) * BPS[f];
    int mis = f == 2;               /* no alignment needed */
    return buf + GUARD + mis + (st < 0 ? (size_t)(ns - 1) * a * BPS[f] : 0);
}

static void put(uint8_t *p, int f, int32_t v)
{
    if (f == 0) { int16_t w = v >> 8; memcpy(p, &w, 2); }
    else if (f == 1) memcpy(p, &v, 4);
    else if (f == 2) p[0] = v, p[1] = v >> 8, p[2] = v >> 16;
    else { float w = v / 8388608.f; memcpy(p, &w, 4); }
}

static double get(const uint8_t *p, int f)
{
    if (f == 0) { int16_t w; memcpy(&w, p, 2); return w; }
    if (f == 1) { int32_t w; memcpy(&w, p, 4); return w; }
    if (f == 2) return (int32_t)((uint32_t)(p[0] << 8) | (uint32_t)p[1] << 16 |
        (uint32_t)p[2] << 24) / 256;
    float w; memcpy(&w, p, 4); return w;
}

/* --- Encoder --- */

#define MAXZ 32768

/* The context after the same history in each format (the stride changes on
 * each frame), what a format leaves in the context shows on the next frames */
static uint8_t own[4][MAXZ];

static void own_all(const uint8_t *m, unsigned z)
{
    for (int f = 0; f < 4; f++)
        memcpy(own[f], m, z);
}

/* Samples of the letter. kind 0: exact in 16 bits, 1: 24 bits, exact in
 * 16 bits when negative (the pitch analysis sees the same 16 bits), 2: 24 bits,
 * 3: extremes */
static void samples(int l, int t, int kind, int32_t *x)
{
    pcm_letter(l, c->pcm, ns, t, x);
    for (int i = 0; i < ns; i++) {
        if (kind == 0) x[i] = (x[i] >> 8) * 256;
        if (kind == 1 && x[i] < 0) x[i] = (x[i] >> 8) * 256;
        if (kind == 3) {
            static const int e[] = { 8388607, -8388608, 8388352, -8388352, 0,
                256, -256, 128, 1 };
            x[i] = e[(i * 5 + t + i / 9 * l) % COUNT(e)];
            if (x[i] < 0) x[i] = (x[i] >> 8) * 256;
        }
    }
}

static bool enc_step(lc3_encoder_t h, uint8_t *m, unsigned z, int l, int t,
    int kind, int nb)
{
    static int32_t x[960];
    static uint8_t next[4][MAXZ], o[2][640];
    bool first = true;

    samples(l, t, kind, x);
    for (int f = 0; f < 4; f++) {
        if (f == 0 && kind) continue;
        if (f == 3 && kind == 2) continue;
        for (int s = 0; s < COUNT(ST); s++) {
            size_t n;
            uint8_t *p = place(f, ST[s], &n);
            memset(buf, 0x3c + 17*s + f, sizeof(buf));
            for (int i = 0; i < ns; i++)
                put(p + (long)i * ST[s] * BPS[f], f, x[i]);
            memcpy(img, buf, sizeof(buf));
            memcpy(m, own[f], z);
            trace("C10 %s%s %s fmt=%s stride=%d", cs, word, PNAME[l], FN[f], ST[s]);
            watchdog(20);
            int r = lc3_encode(h, f, p, ST[s], nb, o[!first]);
            R.transitions++;
            if (r || memcmp(o[0], o[!first], nb) ||
                    memcmp(img, buf, sizeof(buf))) {
                report("%s: encoding from %s with stride %d: return %d, %s, "
                    "after%s", cs, FN[f], ST[s], r,
                    memcmp(img, buf, sizeof(buf)) ? "input modified" :
                    "other frame than with the first format", word);
                return false;
            }
            if (s == (t + f) % COUNT(ST)) memcpy(next[f], m, z);
            first = false;
        }
    }
    /* A format that cannot present the samples continues from another one */
    for (int f = 0; f < 4; f++)
        memcpy(own[f], next[(f == 0 && kind) || (f == 3 && kind == 2) ?
            1 + (t & 1) : f], z);
    state_add(hash64(o[0], nb, ci));
    if (wlen < 600)
        wlen += sprintf(word + wlen, " %s/%d:%d", PNAME[l], kind, nb);
    return true;
}

static bool encoding(int l)
{
    unsigned z = lc3_hr_encoder_size(c->hr, c->dt, c->pcm);
    uint8_t *m = malloc(z);
    bool ok = true;
    const int sz[] = { nmin, nmax, (nmin + nmax) / 2, nmin + 20 };

    for (int k = 0; ok && k < (R.thorough ? 12 : 3); k++) {
        lc3_encoder_t h = lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, m);
        wlen = word[0] = 0;
        own_all(m, z);
        /* The history carries over a frame of each other kind */
        for (int t = 0; ok && t < 6; t++)
            ok = enc_step(h, m, z, t & 4 ? (l + 5*k + 1) % NPCM : l, t,
                (t + k) & 3, sz[(t + k + l) & 3]);
        R.validated++;
    }
    free(m);
    return ok;
}

/* --- Decoder --- */

static double max_out, n_sat;
static int turn;

static bool dec_step(lc3_decoder_t h, uint8_t *m, unsigned z,
    const uint8_t *in, int nb, const char *what)
{
    static uint8_t next[4][MAXZ];
    static float ref[960];

    int r0 = -2;

    turn++;
    for (int k = 0; k < 4; k++)
        for (int s = 0; s < COUNT(ST); s++) {
            int f = 3 - k;
            size_t n;
            uint8_t *p = place(f, ST[s], &n);
            memset(buf, 0x3c + 17*s + f, sizeof(buf));
            memcpy(img, buf, sizeof(buf));
            memcpy(m, own[f], z);
            trace("C10 %s%s %s fmt=%s stride=%d", cs, word, what, FN[f], ST[s]);
            watchdog(20);
            int r = lc3_decode(h, in, nb, f, p, ST[s]);
            R.transitions++;
            if (r0 == -2) {
                r0 = r;
                for (int i = 0; i < ns; i++)
                    ref[i] = get(p + (long)i * ST[s] * BPS[f], f);
            }
            double bad = 0;
            int ib = -1;
            for (int i = 0; i < ns; i++) {
                uint8_t *q = p + (long)i * ST[s] * BPS[f];
                double v = get(q, f), w = ref[i];
                max_out = fmax(max_out, fabs(w));
                if (f < 3) {
                    double sc = f ? 8388608 : 32768;
                    w = fmin(fmax(w * sc, -sc), sc - 1);
                    n_sat += fabs(w) >= sc - 1;
                    if (!(fabs(v - w) <= 0.5 + 1e-3)) bad = v, ib = i;
                } else if (v != w || !(fabs(v) <= 1)) bad = v, ib = i;
                memcpy(img + (q - buf), q, BPS[f]);
                if (f == 1 && v != (double)((int32_t)v << 8 >> 8)) bad = v, ib = i;
            }
            if (r != r0 || ib >= 0) {
                report("%s: decoding %s in %s with stride %d: return %d (%d), "
                    "sample %d is %.10g, %.10g in float, after%s", cs, what,
                    FN[f], ST[s], r, r0, ib, bad, ib < 0 ? 0 : ref[ib], word);
                return false;
            }
            if (s == (turn + f) % COUNT(ST)) memcpy(next[f], m, z);
            if (memcmp(img, buf, sizeof(buf))) {
                int i = 0;
                while (img[i] == buf[i]) i++;
                report("%s: decoding %s in %s with stride %d writes %d bytes "
                    "after the first sample, after%s", cs, what, FN[f], ST[s],
                    (int)(buf + i - p), word);
                return false;
            }
        }
    memcpy(own, next, sizeof(own));
    state_add(hash64(ref, ns * 4, ci));
    if (wlen < 600) wlen += sprintf(word + wlen, " %s:%d", what, nb);
    return true;
}

static bool decoding(int l)
{
    static uint8_t fr[640];
    static int32_t p24[960];
    static int16_t p16[960];
    static uint8_t me[65536];
    static struct ref_frame f;
    unsigned z = lc3_hr_decoder_size(c->hr, c->dt, c->pcm);
    uint8_t *m = malloc(z);
    bool ok = true;
    const int sz[] = { nmax, nmin, (nmin + nmax) / 2, nmin + 20 };

    for (int k = 0; ok && k < (R.thorough ? 8 : 2); k++) {
        lc3_decoder_t h = lc3_hr_setup_decoder(c->hr, c->dt, c->sr, c->pcm, m);
        memset(me, 0, sizeof(me));
        void *e = ref_lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, me);
        wlen = word[0] = 0;
        own_all(m, z), turn = k;
        for (int t = 0; ok && t < 8; t++) {
            int nb = sz[(t + k + l) & 3];
            pcm_letter(l, c->pcm, ns, t, p24);
            pcm_to_s16(p24, ns, p16);
            ref_lc3_encode(e, c->hr, c->hr ? (void *)p24 : p16, 1, nb, fr);
            if ((t + k) % 4 == 3) {
                ok = dec_step(h, m, z, NULL, nb, "lost");
                continue;
            }
            /* Louder frames, up to saturation */
            if ((t + l) % 3 == 1 && !ref_parse(c->hr, c->dt, c->sr, fr, nb, &f)) {
                static const int up[] = { 6, 15, 30, 60, 255 };
                for (int i = 0; i < REF_MAX_NE; i++)
                    f.x[i] = f.x[i] < 0 ? -floorf(-f.x[i] + 0.5f) : floorf(f.x[i] + 0.5f);
                f.g_idx = MIN(255, f.g_idx + up[(t + k + l) % 5]);
                ref_write(c->hr, c->dt, c->sr, &f, 2, fr, nb);
                ok = dec_step(h, m, z, fr, nb, "loud");
            } else
                ok = dec_step(h, m, z, fr, nb, PNAME[l]);
        }
        R.validated++;
    }
    free(m);
    return ok;
}

int main(int argc, char **argv)
{
    run_init(argc, argv);
    cfg_init();
    while (work_next(2l * NPCM * NCFG)) {
        int i = R.item / (2*NPCM), l = R.item % (2*NPCM);
        c = &CFG[ci = i], ns = cfg_ns(c), nmin = cfg_min(c), nmax = cfg_max(c);
        cfg_str(c, cs);
        l < NPCM ? encoding(l) : decoding(l - NPCM);
    }
    sample("C10 %s last history%s", cs, word);
    stat_add("saturated", n_sat);
    return run_end();
}
