/*
 * C04 - Decoder conformance: lock-step exploration of the implementation
 * and of the reference model, over histories of encoded, crafted, corrupted
 * and lost frames.
 */
#include "common.h"
#include "ref.h"
#include <limits.h>

#ifndef PROP
#define PROP "C04"
#endif

#define BUF 65536

static const struct cfg *c;
static int ci;
static int ns, ne, nmin, nmax;
static unsigned szi, szr;
static uint8_t *mi, *mr;
static lc3_decoder_t di; static void *dr;
static double peak;                 /* level of the last frames */
static double worst;                /* difference to the level */

static char word[2048];
static int wlen;
static unsigned nstep;
static long n_accept, n_refuse, n_lost, n_exact;

/* Context snapshots */

struct snap { uint8_t *i, *r; double peak; int wlen; };

static struct snap save(void)
{
    struct snap s = { malloc(szi), malloc(szr), peak, wlen };
    memcpy(s.i, mi, szi), memcpy(s.r, mr, szr);
    return s;
}

static void load(const struct snap *s)
{
    memcpy(mi, s->i, szi), memcpy(mr, s->r, szr);
    peak = s->peak, wlen = s->wlen, word[wlen] = 0;
}

static void drop(struct snap *s)
{
    free(s->i), free(s->r);
}

static void cfg_open(int i)
{
    c = &CFG[ci = i];
    ns = cfg_ns(c), nmin = cfg_min(c), nmax = cfg_max(c);
    ne = ref_ne(c->hr, c->dt, c->sr);
    szi = lc3_hr_decoder_size(c->hr, c->dt, c->pcm);
    szr = ref_lc3_hr_decoder_size(c->hr, c->dt, c->pcm);
    free(mi), free(mr);
    mi = malloc(szi), mr = malloc(szr);
}

static void start(void)
{
#ifndef SAFE
    memset(mi, 0xa5, szi);
#elif defined(MSAN)
    free(mi), mi = malloc(szi);
#endif
    memset(mr, 0, szr);
    di = lc3_hr_setup_decoder(c->hr, c->dt, c->sr, c->pcm, mi);
    dr = ref_lc3_hr_setup_decoder(c->hr, c->dt, c->sr, c->pcm, mr);
    peak = 0, wlen = 0, word[0] = 0, nstep = 0;
}

static void push(const char *fmt, ...)
{
    if (wlen > 700) {
        memmove(word, word + wlen - 300, 301), wlen = 300;
        memcpy(word, "...", 3);
    }
    va_list ap;
    va_start(ap, fmt);
    wlen += vsnprintf(word + wlen, 200, fmt, ap);
    va_end(ap);
}

#ifdef SAFE

/* Memory safety, each buffer has its exact size */

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define CHECK_INIT(p, n) __msan_check_mem_is_initialized(p, n)
#endif
#endif
#ifndef CHECK_INIT
#define CHECK_INIT(p, n)
#endif

static bool step(const void *data, int nb)
{
    static const int bps[] = { 2, 4, 3, 4 };
    static float or[2048];
    char s[64];

    int fmt = nstep++ & 3, stride = 1 + (nstep % 7 == 0) * (nstep % 5);
    uint8_t *f = data ? malloc(nb) : NULL;
    if (f) memcpy(f, data, nb);
    uint8_t *pcm = malloc(bps[fmt] * ((ns - 1) * stride + 1));

    trace("%s %d%s fmt=%d stride=%d", PROP, ci, word, fmt, stride);
    watchdog(60);
    int ri = lc3_decode(di, f, nb, fmt, pcm, stride);
    watchdog(0);
    for (int i = 0; i < ns; i++)
        CHECK_INIT(pcm + i * stride * bps[fmt], bps[fmt]);
    free(f), free(pcm);

    int rr = ref_lc3_decode(dr, data, nb, LC3_PCM_FORMAT_FLOAT, or, 1);
    R.transitions++;
    n_accept += rr == 0, n_refuse += data && rr == 1, n_lost += !data;

    if (ri != rr) {
        cfg_str(c, s);
        report("%s: return %d instead of %d after%s", s, ri, rr, word);
        return false;
    }
    return true;
}

#else

static bool step(const void *data, int nb)
{
    static float oi[2048], or[2048];
    char s[64];

    trace("%s %d%s", PROP, ci, word);
    watchdog(20);
    for (int i = 0; i < ns; i++) oi[i] = 1e30f;
    uint8_t *before = NULL;
    if (nstep++ % 4 == 3)
        memcpy(before = malloc(szi), mi, szi);
    int ri = lc3_decode(di, data, nb, LC3_PCM_FORMAT_FLOAT, oi, 1);
    if (before) {
        /* The history goes on from the output in integers */
        static int32_t o[2][1024];
        memcpy(mi, before, szi), free(before);
        int r = lc3_decode(di, data, nb, nstep / 4 % 3, o, 1);
        ri = r == ri ? ri : -2;
    }
    watchdog(0);
    int rr = ref_lc3_decode(dr, data, nb, LC3_PCM_FORMAT_FLOAT, or, 1);
    R.transitions++;
    n_accept += rr == 0, n_refuse += data && rr == 1, n_lost += !data;

    if (ri != rr) {
        cfg_str(c, s);
        report("%s: return %d instead of %d after%s", s, ri, rr, word);
        return false;
    }

    if (!memcmp(oi, or, ns * sizeof(float))) {
        n_exact++;
        peak = fmax(0.5 * peak, ref_level);
        return true;
    }

    double m = fmax(0.5 * peak, ref_level), d = 0;
    int id = 0;
    bool nan = !(ref_level < 1e30f);
    for (int i = 0; i < ns; i++) {
        if (!(fabs(oi[i] - or[i]) <= d))
            d = fabs(oi[i] - or[i]), id = i;
    }
    peak = m;
    if (nan)
        return false;

    worst = fmax(worst, d / (m + 1e-9));
    if (!(d <= 3e-5 * m + 1e-9)) {
        cfg_str(c, s);
        report("%s: sample %d is %.9g instead of %.9g (level %.4g) after%s",
            s, id, oi[id], or[id], m, word);
        return false;
    }
    return true;
}

#endif

/* Refused sizes: no effect */
static bool refused(int nb)
{
    uint8_t *f = malloc(1), *ctx = malloc(szi);
    static uint8_t pcm[4096], ref[4096];
    char s[64];

    *f = 0x5a;
    memset(pcm, 0xc3, sizeof(pcm)), memset(ref, 0xc3, sizeof(ref));
    memcpy(ctx, mi, szi);
    trace("%s %d%s refused:%d", PROP, ci, word, nb);
    watchdog(60);
    int ri = lc3_decode(di, f, nb, LC3_PCM_FORMAT_S16, pcm, 1);
    watchdog(0);
    R.transitions++;
    bool same = !memcmp(pcm, ref, sizeof(pcm));
#ifndef MSAN
    same = same && !memcmp(ctx, mi, szi);
#endif
    free(f), free(ctx);
    if (ri == -1 && same)
        return true;
    cfg_str(c, s);
    report("%s: size %d, return %d instead of -1%s, after%s", s, nb, ri,
        same ? "" : ", context or output modified", word);
    return false;
}

static bool visit(void)
{
    return state_add(hash64(mr, szr, ci));
}

/* --- Streams of the model encoder --- */

#define NF 10
static uint8_t fr[NF][640];
static int frn[NF];

static void stream(int letter, int nf, const int *sz, int nsz)
{
    static uint8_t me[BUF];
    static int32_t pcm24[960];
    static int16_t pcm16[960];

    memset(me, 0, sizeof(me));
    void *e = ref_lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, me);
    for (int t = 0; t < nf; t++) {
        pcm_letter(letter, c->pcm, ns, t, pcm24);
        pcm_to_s16(pcm24, ns, pcm16);
        frn[t] = sz[t % nsz];
        ref_lc3_encode(e, c->hr ? 1 : 0, c->hr ? (void *)pcm24 : pcm16,
            1, frn[t], fr[t]);
    }
}

/* --- Loss patterns --- */

static uint8_t bad0[640], bad1[640];

static void dfs(int t, int depth)
{
    if (!depth)
        return;

    struct snap s = save();
    for (int a = 0; a < 4; a++) {
        load(&s);
        bool ok;
        if (a == 0) {
            push(" frame%d:%d", t, frn[t]);
            ok = step(fr[t], frn[t]);
        } else if (a == 1) {
            push(" lost");
            ok = step(NULL, 0);
        } else if (a == 2) {
            push(" bad0:%d", frn[t]);
            ok = step(bad0, frn[t]);
        } else {
            push(" bad1:%d", nmin);
            ok = step(bad1, nmin);
        }
        if (ok && visit())
            dfs((t + 1) % NF, depth - 1);
    }
    load(&s), drop(&s);
}

/* --- Crafted frames --- */

static struct ref_frame base, cur;

static const int LV[] = { 0, 1, -1, 2, 3, -4, 7, -15, 17, -64, 255, -1024,
    9000, 32767, 1 << 17, -(1 << 25) };

/* Modification `k` of group `g`, false: no more */
static bool craft(int g, int k, int *tail, int *nb, char *what)
{
    struct ref_frame *f = &cur;
    *f = base;
    *tail = 2;

    switch (g) {
    case 0:
        if (k >= 8) return false;
        f->bw = k;
        sprintf(what, "bw=%d", f->bw);
        return true;

    case 1:
        if (k >= 256) return false;
        f->g_idx = k;
        sprintf(what, "gain=%d", k);
        return true;

    case 2:
        if (2*k + 2 > ne + 4) return false;
        f->nq = 2*k + 2;
        for (int i = base.nq; i < f->nq && i < ne; i++)
            f->x[i] = (i * 7 % 3) - 1;
        sprintf(what, "nq=%d", f->nq);
        return true;

    case 3:
        if (k >= (R.thorough ? 1024 : 64)) return false;
        if (R.thorough) f->lfcb = k & 31, f->hfcb = k >> 5;
        else if (k < 32) f->lfcb = k;
        else f->hfcb = k - 32;
        sprintf(what, "sns lf=%d hf=%d", f->lfcb, f->hfcb);
        return true;

    case 4:
        if (k >= 16) return false;
        f->nf = k & 7;
        if (k >= 8) f->bw = 0;
        sprintf(what, "nf=%d bw=%d", f->nf, f->bw);
        return true;

    case 5: {
        static const int size_a[] = { 2390004, 2390004, 15158272, 774912 };
        static const int ngain[] = { 2, 4, 4, 8 };
        int nk = R.thorough ? 192 : 12;
        int sh = k & 3, g = (k >> 2) & 7, ls = (k >> 5) & 1,
            b = (k >> 6) & 7, lb = (k >> 9) & 1, i = k >> 10;
        if (i >= nk) return false;
        f->shape = sh, f->gain = g % ngain[sh], f->ls_a = ls;
        if (g >= ngain[sh] || (sh ? b || lb : b >= 6)) {
            what[0] = 0;
            return true;
        }
        f->idx_b = b, f->ls_b = lb;
        int n = size_a[sh];
        f->idx_a = i == 0 ? 0 : i == 1 ? n-1 : i == 2 ? 1 : i == 3 ? n / 2 :
            (int)((i * 2654435761u + k * 40503u) % (unsigned)n);
        /* Past the end: refused */
        if (i == 4 && sh == 3) f->idx_a = n;
        sprintf(what, "sns shape=%d gain=%d ls=%d idx=%d b=%d/%d",
            sh, f->gain, ls, f->idx_a, f->idx_b, f->ls_b);
        return true;
    }

    case 6: {
        static const int pat[][8] = {
            { 8, 8, 8, 8, 8, 8, 8, 8 }, { -8,-8,-8,-8,-8,-8,-8,-8 },
            { 8,-8, 8,-8, 8,-8, 8,-8 }, { 6, -3, 2, 1, -1, 2, -1, 1 },
            { -7, 5, 0, 0, 3, 0, -1, 1 }, { 1, 0, 0, 0, 0, 0, 0, 2 } };
        int i = k;
        if (i < 2*9*6) {
            int fl = i & 1, o = (i / 2) % 9, p = i / 18;
            f->rc_order[fl] = o;
            memcpy(f->rc[fl], pat[p], sizeof(pat[p]));
            sprintf(what, "tns f=%d order=%d pattern=%d", fl, o, p);
            return true;
        }
        i -= 2*9*6;
        if (i < 2*8*17) {
            int fl = i & 1, o = (i / 2) % 8, v = i / 16 - 8;
            for (int j = 0; j < o; j++) f->rc[fl][j] = (j & 1) - (o & 1);
            f->rc[fl][o] = v, f->rc_order[fl] = o + 1;
            sprintf(what, "tns f=%d rc[%d]=%d", fl, o, v);
            return true;
        }
        return false;
    }

    case 7:
        if (k >= 12) return false;
        f->lsb_mode = k & 1, *tail = (k >> 1) % 3;
        if (k >= 6) for (int i = 0; i < f->nq; i++)
            f->x[i] = (int)f->x[i] / 2 * 2;
        sprintf(what, "lsb=%d tail=%d", f->lsb_mode, *tail);
        return true;

    case 8: {
        int v = k % COUNT(LV), p = (k / COUNT(LV)) % 8, l = k / COUNT(LV) / 8;
        if (l >= 6) return false;
        int pos[] = { 0, 1, 2, ne/4, ne/2, ne - ne/4, ne-2, ne-1 };
        if (l < 4) memset(f->x, 0, sizeof(f->x));
        f->nq = (l & 1) ? ne / 2 * 2 : MAX(2, (pos[p] + 2) / 2 * 2);
        f->lsb_mode = (l >> 1) & 1;
        if (pos[p] < f->nq)
            f->x[pos[p]] = LV[v];
        for (int i = base.nq; l >= 4 && i < f->nq; i++)
            f->x[i] = 0;
        sprintf(what, "spectrum x[%d]=%d nq=%d lsb=%d on %s", pos[p], LV[v],
            f->nq, f->lsb_mode, l < 4 ? "zero" : "base");
        return true;
    }

    case 9:
        if (k >= 1024) return false;
        f->pitch_present = 1, f->ltpf_active = k & 1, f->pitch_index = k >> 1;
        sprintf(what, "pitch=%d active=%d", f->pitch_index, f->ltpf_active);
        return true;

    case 10:
        *nb = 20 + k;
        if (*nb > nmax) return false;
        f->pitch_present = 1, f->ltpf_active = 1, f->pitch_index = 300;
        sprintf(what, "size");
        return true;

    case 11: {
        /* Dense spectra: value v everywhere, mostly too large */
        if (k >= 2*COUNT(LV)) return false;
        int v = LV[k >> 1];
        f->lsb_mode = k & 1, f->nq = ne / 2 * 2;
        for (int i = 0; i < f->nq; i++)
            f->x[i] = i % 3 == 2 ? 0 : (i & 1) ? -v : v;
        sprintf(what, "dense %d lsb=%d", v, f->lsb_mode);
        return true;
    }
    }
    return false;
}

#define NGROUP 12

/* Crafted frames of a group, in 3 states, followed by others */
static void crafted(int g, int letter, int nb0)
{
    static uint8_t out[640], fbase[2][640];
    char what[128];
    int sz[] = { nb0 };

    stream(letter, 4, sz, 1);
    memcpy(fbase[0], fr[2], 640), memcpy(fbase[1], fr[3], 640);
    if (ref_parse(c->hr, c->dt, c->sr, fr[3], nb0, &base))
        return;
    for (int i = 0; i < ne; i++)
        base.x[i] = truncf(base.x[i]);

    cur = base;
    cur.pitch_present = 1, cur.ltpf_active = 1, cur.pitch_index = 200;
    cur.nq = MIN(cur.nq, ne / 2 / 2 * 2);
    ref_write(c->hr, c->dt, c->sr, &cur, 2, fbase[0], nb0);

    start();
    struct snap st[3];
    st[0] = save();
    push(" %s/2:%d", PNAME[letter], nb0);
    if (!step(fr[2], nb0)) return;
    push(" %s/pitch200:%d", PNAME[letter], nb0);
    if (!step(fbase[0], nb0)) return;
    st[1] = save();
    push(" lost");
    if (!step(NULL, 0)) return;
    st[2] = save();

    int tail, nb;
    for (int k = 0; nb = nb0, craft(g, k, &tail, &nb, what); k++) {
        if (!what[0])
            continue;
        ref_write(c->hr, c->dt, c->sr, &cur, tail, out, nb);
        for (int i = 0; i < 3; i++) {
            if (!R.thorough && (g == 5 || g == 8) && i != k % 3)
                continue;
            load(&st[i]);
            push(" craft(%s):%d", what, nb);
            if (!step(out, nb)) continue;
            visit();
            push(" %s/3:%d", PNAME[letter], nb0);
            if (!step(i & 1 ? fbase[1] : fbase[0], nb0)) continue;
            push(" lost");
            step(NULL, 0);
        }
    }
    for (int i = 0; i < 3; i++) drop(&st[i]);
}

/* Pitch histories */
static void pitches(int p1)
{
    static uint8_t out[640];
    int nb0 = nmin + 30 + (p1 & 3) * 17, sz[] = { nb0 };
    stream(P_VOICE, 4, sz, 1);
    if (ref_parse(c->hr, c->dt, c->sr, fr[3], nb0, &base))
        return;
    for (int i = 0; i < ne; i++)
        base.x[i] = truncf(base.x[i]);

    start();
    push(" voice/2:%d", nb0);
    if (!step(fr[2], nb0)) return;
    cur = base;
    cur.pitch_present = 1, cur.ltpf_active = p1 & 1, cur.pitch_index = p1;
    cur.nq = MIN(cur.nq, ne / 2 / 2 * 2);
    ref_write(c->hr, c->dt, c->sr, &cur, 2, out, nb0);
    push(" pitch=%d/%d:%d", p1, p1 & 1, nb0);
    if (!step(out, nb0)) return;
    struct snap s = save();

    for (int k = 0; k < 1024; k++) {
        load(&s);
        int p2 = k >> 1, a2 = k & 1, nb = nb0 + (k & 2 ? 0 : 25);
        nb = MIN(nb, nmax);
        cur.ltpf_active = a2, cur.pitch_index = p2;
        ref_write(c->hr, c->dt, c->sr, &cur, 2, out, nb);
        push(" pitch=%d/%d:%d", p2, a2, nb);
        if (!step(out, nb)) continue;
        visit();
        if (k % 8 == 3) {
            push(" voice/3:%d", nb0);
            step(fr[3], nb0);
        }
    }
    drop(&s);
    R.validated++;
}

/* Histories of frames in which all the fields change at the same time. The
 * field `j` takes the value number `t * step + w` modulo its count of values,
 * counts and steps are such that all pairs of values come together, and come
 * in succession. Losses and damaged frames in between */
static long n_walk, n_walkok;
static void walk(int w, int len)
{
    long acc = n_accept;
    static uint8_t out[640];
    static const int lt[] = { P_VOICE, P_MUSIC, P_TNS, P_NOISE };
    static const int size_a[] = { 2390004, 2390004, 15158272, 774912 };
    static const int ngain[] = { 2, 4, 4, 8 };
    static const int pi[] = { 0, 511, 130, 383, 440, 261, 131, 379, 380, 381,
        439, 441, 510 };
    int nbm = MIN(nmax, 2 * nmin + 100), sz[] = { nbm };

    stream(lt[w & 3], 4, sz, 1);
    if (ref_parse(c->hr, c->dt, c->sr, fr[3], nbm, &base))
        return;
    for (int i = 0; i < ne; i++)
        base.x[i] = truncf(base.x[i]);
    int nbw = c->hr ? 1 : c->sr == 48000 ? 5 : c->sr / 8000;

    start();
    for (int t = 0; t < len; t++) {
        int u = t + 7 * w;
        cur = base;
        cur.bw = (t * 3 + w) % nbw;
        cur.g_idx = MIN(MAX(base.g_idx - 24 + t * 5 % 37, 0), 255);
        cur.nq = MIN((2 + u * 13 % (ne / 2)) / 2 * 2, MAX(base.nq, 2));
        cur.lfcb = u * 11 & 31, cur.hfcb = (u * 5 + t / 32) & 31;
        cur.shape = (t + t / 5 + w) & 3;
        cur.gain = u % ngain[cur.shape], cur.ls_a = t / 3 & 1;
        cur.idx_b = cur.shape ? 0 : u % 6, cur.ls_b = !cur.shape && (t & 1);
        cur.idx_a = (int)((u * 2654435761u) % (unsigned)size_a[cur.shape]);
        for (int f = 0; f < 2; f++) {
            cur.rc_order[f] = (u / (1 + f)) % (c->dt <= 5000 ? 5 : 9);
            for (int j = 0; j < cur.rc_order[f]; j++)
                cur.rc[f][j] = (t * (j + 3) + w + f) % (j < 2 ? 17 : 7) -
                    (j < 2 ? 8 : 3);
            if (cur.rc_order[f] && !cur.rc[f][cur.rc_order[f]-1])
                cur.rc[f][cur.rc_order[f]-1] = 1;
        }
        cur.pitch_present = !c->hr && t % 7 < 5;
        cur.ltpf_active = cur.pitch_present && (t + t / 7) % 5 < 3;
        cur.pitch_index = t % 3 ? pi[u % 13] : u * 101 & 511;
        cur.lsb_mode = t % 11 < 3, cur.nf = u * 3 & 7;

        int nb = nbm - (t * 17 + t / 13) % (nbm - nmin + 1);
        if (t % 4) nb = MIN(nmax, nb + 40);
        ref_write(c->hr, c->dt, c->sr, &cur, t % 3, out, nb);
        push(" walk%d/%d:%d", w, t, nb);
        if (t % 19 == 18) out[nb - 1] ^= 0xff;
        if (t % 23 > 20 || t % 61 > 56) {
            push(" lost");
            if (!step(NULL, 0)) return;
        }
        if (!step(out, nb)) return;
        visit(), n_walk++;
    }
    n_walkok += n_accept - acc;
    R.validated++;
}

#ifndef NOMAIN

/* Items of a configuration */

#define NLET 8
static const int LET[NLET] = { P_VOICE, P_ATTACK, P_MUSIC, P_TNS, P_PITCH,
    P_NOISE, P_SIL, P_SQUARE };

#define I_LOSS   0
#define I_LONG   (I_LOSS + NLET)
#define I_CRAFT  (I_LONG + NPCM)
#define I_PITCH  (I_CRAFT + 2*NGROUP)
#define I_FLIP   (I_PITCH + 6)
#define I_TAIL   (I_FLIP + 3)
#define I_SIZE   (I_TAIL + 4)
#define I_GARB   (I_SIZE + 1)
#define I_WALK   (I_GARB + 3)
#define PERCFG   (I_WALK + 4)

static void item(long it)
{
    int i = it / PERCFG, k = it % PERCFG;
    if (c != &CFG[i])
        cfg_open(i);

    memset(bad0, 0xff, sizeof(bad0));

    if (k < I_LONG) {
        int sz[] = { (nmin + nmax) / 2, nmin + 8, nmax, nmin + 50 };
        stream(LET[k], NF, sz, 4);
        if (!ref_parse(c->hr, c->dt, c->sr, fr[1], frn[1], &base)) {
            cur = base;
            for (int j = 0; j < ne; j++) cur.x[j] = (j & 1) ? -255 : 255;
            cur.nq = ne / 2 * 2;
            ref_write(c->hr, c->dt, c->sr, &cur, 2, bad1, nmin);
        }
        start();
        dfs(0, R.thorough ? 8 : 5);
        /* Sustained loss, then recovery */
        start();
        for (int t = 0; t < 4; t++)
            if (push(" frame%d:%d", t, frn[t]), !step(fr[t], frn[t])) break;
        for (int t = 0; t < 40; t++)
            if (push(" lost"), !step(NULL, 0)) break;
        for (int t = 4; t < NF; t++) {
            if (push(" frame%d:%d", t, frn[t]), !step(fr[t], frn[t])) break;
            visit();
            if (t == 6 && (push(" lost"), !step(NULL, 0))) break;
        }
        R.validated++;

    } else if (k < I_CRAFT) {
        /* All sizes, along the history of a letter */
        k -= I_LONG;
        int n = nmax - nmin + 1, stp = 61 + 2 * k;
        while (n % stp == 0) stp++;
        static uint8_t me[BUF];
        static int32_t pcm24[960];
        static int16_t pcm16[960];
        uint8_t f[640];
        memset(me, 0, sizeof(me));
        void *e = ref_lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, me);
        start();
        for (int j = 0; j < n; j++) {
            int nb = nmin + (int)((long)j * stp % n);
            pcm_letter(k, c->pcm, ns, j % 16, pcm24);
            pcm_to_s16(pcm24, ns, pcm16);
            ref_lc3_encode(e, c->hr ? 1 : 0, c->hr ? (void *)pcm24 : pcm16,
                1, nb, f);
            push(" %s%d:%d", PNAME[k], j % 16, nb);
            if (!step(f, nb)) break;
            visit();
        }
        R.validated++;

    } else if (k < I_PITCH) {
        k -= I_CRAFT;
        int g = k % NGROUP, b = k / NGROUP;
        static const int lt[] = { P_VOICE, P_NOISE, P_MUSIC, P_SIL };
        for (int m = 0; m < 2; m++) {
            int l = lt[(i + g + b + 2*m) & 3];
            int nb = b == 0 ? nmin + 40 : m ? nmax : (2*nmin + nmax) / 3;
            crafted(g, l, nb);
            if (!R.thorough) break;
        }
        R.validated++;

    } else if (k < I_FLIP) {
        k -= I_PITCH;
        for (int m = 0; m < (R.thorough ? 20 : 1); m++) {
            static const int ps[] = { 0, 511, 130, 383, 440, 261 };
            pitches(m == 0 ? ps[k] : (ps[k] + 37 * m) & 511);
        }

    } else if (k < I_TAIL) {
        /* Each bit inverted, on a good frame following others */
        k -= I_FLIP;
        int sz[] = { k == 0 ? nmin : k == 1 ? nmin + 20 : (nmin + nmax) / 2 };
        if (!R.thorough && k == 2 && i % 4) return;
        stream(LET[(i + k) % 6], 4, sz, 1);
        start();
        for (int t = 0; t < 2; t++)
            if (push(" frame%d:%d", t, frn[t]), !step(fr[t], frn[t])) return;
        struct snap s = save();
        for (int b = 0; b < 8 * frn[2]; b++) {
            load(&s);
            fr[2][b >> 3] ^= 1 << (b & 7);
            push(" frame2^bit%d:%d", b, frn[2]);
            bool ok = step(fr[2], frn[2]);
            fr[2][b >> 3] ^= 1 << (b & 7);
            visit();
            if (ok && b % 4 == 1)
                push(" frame3:%d", frn[3]), step(fr[3], frn[3]);
        }
        drop(&s);
        R.validated++;

    } else if (k == I_SIZE) {
        /* Sizes out of range, at each point of a history */
        int sz[] = { nmin, nmax, (nmin + nmax) / 2 };
        static const int out[] = { -1, -20, INT_MIN, INT_MAX, INT_MIN + 40,
            65536 + 100, 1000, 4000, 1 << 30, -2147483000, 8192 };
        stream(P_VOICE, 4, sz, 3);
        start();
        for (int t = 0; t < 5; t++) {
            for (int nb = 0; nb < 20; nb++)
                if (!refused(nb)) return;
            for (int nb = nmax + 1; nb < nmax + 300; nb++)
                if (!refused(nb)) return;
            for (int m = 0; m < COUNT(out); m++)
                if (!refused(out[m])) return;
            if (t == 2) {
                push(" lost");
                if (!step(NULL, 0)) return;
            } else if (t < 4) {
                push(" frame%d:%d", t, frn[t]);
                if (!step(fr[t], frn[t])) return;
            }
        }
        R.validated++;

    } else if (k >= I_WALK) {
        for (int m = 0; m < (R.thorough ? 16 : 1); m++)
            walk(k - I_WALK + 4 * m, c->dt == 2500 && c->pcm == 8000 ? 66000 :
                R.thorough ? 6000 : 400);

    } else if (k >= I_GARB) {
        /* Patterns of bytes of all accepted sizes */
        k -= I_GARB;
        static uint8_t f[640];
        uint32_t s = 1 + ci * 3 + k;
        int sz[] = { nmin + 30 };
        stream(P_PITCH, 3, sz, 1);
        start();
        for (int t = 0; t < k; t++)
            if (push(" frame%d:%d", t, frn[t]), !step(fr[t], frn[t])) return;
        struct snap sn = save();
        for (int nb = 20; nb <= nmax; nb += R.thorough ? 1 : 1 + (ci + nb) % 4)
            for (int p = 0; p < 8; p++) {
                load(&sn);
                for (int j = 0; j < nb; j++)
                    f[j] = p < 4 ? p * 0x55 : rnd(&s) & (p < 6 ? 0xff : 0x11);
                push(" garbage%d:%d", p, nb);
                if (!step(f, nb)) return;
                if (visit() && nb % 16 == 0)
                    push(" frame2:%d", frn[2]), step(fr[2], frn[2]);
            }
        drop(&sn);
        R.validated++;

    } else {
        /* Values of the last 16 bits, first read */
        k -= I_TAIL;
        int sz[] = { nmin + 13 * k };
        stream(LET[(i + 2*k) % 6], 4, sz, 1);
        start();
        if (push(" frame1:%d", frn[1]), !step(fr[1], frn[1])) return;
        struct snap s = save();
        int stp = R.thorough ? 4 : 64;
        for (int v = k + (i * 4) % stp; v < 65536; v += stp) {
            load(&s);
            fr[2][frn[2]-1] = v, fr[2][frn[2]-2] = v >> 8;
            push(" frame2/end%04x:%d", v, frn[2]);
            step(fr[2], frn[2]);
            visit();
        }
        drop(&s);
        R.validated++;
    }
}

int main(int argc, char **argv)
{
    run_init(argc, argv);
    cfg_init();

    while (work_next((long)NCFG * PERCFG))
        item(R.item);

    sample(PROP " last history: %d%s", ci, word);
    stat_add("exact", n_exact);
    stat_add("accepted", n_accept), stat_add("refused", n_refuse);
    stat_add("lost", n_lost);
    stat_add("walk", n_walk), stat_add("walk_accepted", n_walkok);
#ifndef SAFE
    sample(PROP " largest difference to the level: %.3g", worst);
#endif
    return run_end();
}

#endif /* NOMAIN */
