/*
 * C05 - Encoder conformance: lock-step exploration of the implementation
 * and of the reference model over words of (PCM letter, frame size).
 */
#include "common.h"
#include "ref.h"
#include "params.h"
#include <stddef.h>

#include <limits.h>

#ifndef PROP
#define PROP "C05"
#endif

static const struct cfg *c;
static int ci;
static int ns, nmin, nmax;
static unsigned szi, szr;
static uint8_t *mi, *mr;                /* contexts, impl and model */
static lc3_encoder_t ei; static void *er;

static int32_t pcm24[960];
static int16_t pcm16[960];
static const void *pcm; static int fmt;

static long n_exact, n_guided[2], n_lost, n_unexpl[2];
static int guided;                  /* steps explained in this word */
static int nhist;                   /* steps since the setup of the contexts */
static int ltpf_off;

#define TMAX 16
static int32_t *cache[NPCM][TMAX];

static void cfg_open(int i)
{
    c = &CFG[ci = i];
    ns = cfg_ns(c), nmin = cfg_min(c), nmax = cfg_max(c);
    szi = lc3_hr_encoder_size(c->hr, c->dt, c->pcm);
    szr = ref_lc3_hr_encoder_size(c->hr, c->dt, c->pcm);
    free(mi), free(mr);
    mi = malloc(szi), mr = malloc(szr);
    for (int l = 0; l < NPCM; l++)
        for (int t = 0; t < TMAX; t++)
            free(cache[l][t]), cache[l][t] = NULL;
}

static void start(void)
{
    guided = 0, nhist = 0;
#ifndef SAFE
    memset(mi, 0xa5, szi);
#elif defined(MSAN)
    free(mi), mi = malloc(szi);
#endif
    memset(mr, 0, szr);
    ei = lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, mi);
    er = ref_lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, mr);
}

/* Frames of the parametric streams, letters from NPCM */
static int32_t *par_frame(int k, int t)
{
    static struct { int i, k, t; int32_t x[960]; } ring[16];
    int j = t % 16, h = k_hold(k, c);
    if (ring[j].i != ci + 1 || ring[j].k != k || ring[j].t != t) {
        ring[j].i = ci + 1, ring[j].k = k, ring[j].t = t;
        par_letter(k, c, t / h, t % h, t, ring[j].x);
    }
    return ring[j].x;
}

static void letter(int l, int t)
{
    if (l >= NPCM)
        memcpy(pcm24, par_frame(l - NPCM, t), ns * 4);
    else {
        t %= TMAX;
        if (!cache[l][t]) {
            cache[l][t] = malloc(ns * 4);
            pcm_letter(l, c->pcm, ns, t, cache[l][t]);
        }
        memcpy(pcm24, cache[l][t], ns * 4);
    }

    /* The formats take turns, for the letters */
    pcm_to_s16(pcm24, ns, pcm16);
    static float pcmf[960];
    static uint8_t pcmp[960*3];
    int f = l < NPCM ? (l + t / 3 + ci) % 5 : 0;
    if (f == 1) {
        for (int i = 0; i < ns; i++)
            pcmf[i] = pcm24[i] / 8388608.f;
        fmt = LC3_PCM_FORMAT_FLOAT, pcm = pcmf;
    } else if (f == 3) {
        for (int i = 0; i < ns; i++)
            pcmp[3*i] = pcm24[i], pcmp[3*i+1] = pcm24[i] >> 8,
            pcmp[3*i+2] = pcm24[i] >> 16;
        fmt = LC3_PCM_FORMAT_S24_3LE, pcm = pcmp;
    } else if (c->hr || f == 2)
        fmt = LC3_PCM_FORMAT_S24, pcm = pcm24;
    else
        fmt = LC3_PCM_FORMAT_S16, pcm = pcm16;
}

static char word[2048];
static int wlen;

static void push(int l, int t, int nb)
{
    wlen += snprintf(word + wlen, sizeof(word) - wlen, " %s@%d:%d",
        l < NPCM ? PNAME[l] : KNAME[l - NPCM], t, nb);
    if (wlen > (int)sizeof(word) - 64) wlen = sizeof(word) - 64;
}

/* The last steps of the word: context of the model before, and observation */

#define NHIST 8
static struct hist {
    int l, t, nb;
    uint8_t frame[640], saved[16384];
} hist[NHIST];

#define HIST(i) (&hist[(i) % NHIST])

/* A run of the model, within rounding errors, that emits the observed frame */
static bool rerun(const struct hist *h, unsigned seed, float sc, bool guide)
{
    static struct ref_frame f;
    static uint8_t or[640];

    if (ref_parse(c->hr, c->dt, c->sr, h->frame, h->nb, &f))
        return false;

    letter(h->l, h->t);
    ref_set_guide(guide ? &f : NULL, 1 + sc);
    ref_set_pert(seed, sc);
    ref_lc3_encode(er, fmt, pcm, 1, h->nb, or);
    ref_set_guide(NULL, 0), ref_set_pert(0, 0);

    if (!memcmp(or, h->frame, h->nb))
        return true;
    if (!c->hr)
        return false;

    /* The residual of the high-resolution mode is below the rounding error */

    static struct ref_frame g;
    if (ref_parse(c->hr, c->dt, c->sr, or, h->nb, &g) ||
            memcmp(&f, &g, offsetof(struct ref_frame, nleft)))
        return false;

    for (int i = 0; i < REF_MAX_NE; i++)
        if (fabsf(f.x[i] - g.x[i]) > (4 + 2*sc) * ref_tol[i] + 0x1p-12)
            return false;
    return true;
}

/* Rare: the frame differs from the nominal run of the model. Accepted only
 * when the observed frames are those of another run, within the rounding
 * errors, of the last steps. */
static bool explain(void)
{
    static uint8_t sv[16384];
    static const float scales[] = {
        1e-3, 0.05, 0.25, 1, 0.15, 1, 2, 0.1, 4, 1, 0.5, 8 };

    for (int k = 0; k < 600; k++) {
        int last = nhist - 1, w = k < 60 ? 0 : k % MIN(MIN(nhist, NHIST), 6);
        unsigned seed = R.seed * 7919 + 64*k + 1;
        bool ok = true;

        memcpy(mr, HIST(last - w)->saved, szr);
        for (int i = last - w; ok && i < last; i++) {
            memcpy(sv, mr, szr);
            ok = false;
            for (int j = 0; !ok && j < 8; j++) {
                memcpy(mr, sv, szr);
                ok = rerun(HIST(i), seed + 8*(last - i) + j,
                    scales[(j + k/6) % COUNT(scales)], j % 4 != 3);
            }
        }

        if (ok && rerun(HIST(last), seed,
                scales[k % COUNT(scales)], k % 4 != 3))
            return true;
    }
    return false;
}

#ifdef SAFE

/* Memory safety, each buffer has its exact size */

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define CHECK_INIT(p, n) __msan_check_mem_is_initialized(p, n)
#endif
#endif
#ifndef CHECK_INIT
#define CHECK_INIT(p, n)
#endif

static void *present(int f, int stride)
{
    static const int bps[] = { 2, 4, 3, 4 };
    int n = (ns - 1) * stride + 1;
    uint8_t *b = malloc(n * bps[f]);
#ifndef MSAN
    memset(b, 0x7b, n * bps[f]);
#endif
    for (int i = 0; i < ns; i++) {
        int32_t v = c->hr ? pcm24[i] : pcm16[i] * 256;
        uint8_t *p = b + i * stride * bps[f];
        if (f == 0) { int16_t w = v >> 8; memcpy(p, &w, 2); }
        else if (f == 1) memcpy(p, &v, 4);
        else if (f == 2) p[0] = v, p[1] = v >> 8, p[2] = v >> 16;
        else { float w = v / 8388608.f; memcpy(p, &w, 4); }
    }
    return b;
}

static bool step(int l, int t, int nb)
{
    static uint8_t or[640];
    static unsigned nstep;
    char s[64];

    letter(l, t);
    push(l, t, nb);
    int f = nstep++ & 3, stride = 1 + (nstep % 7 == 0) * (nstep % 5);
    void *in = present(f, stride);
    uint8_t *out = malloc(nb);

    trace(PROP " %d fmt=%d stride=%d%s", ci, f, stride, word);
    watchdog(60);
    int ri = lc3_encode(ei, f, in, stride, nb, out);
    watchdog(0);
    CHECK_INIT(out, nb);
    int rr = ref_lc3_encode(er, fmt, pcm, 1, nb, or);
    free(in), free(out);
    R.transitions++;
    if (ri == 0 && rr == 0)
        return true;
    cfg_str(c, s);
    report("%s: return %d after word%s", s, ri, word);
    return false;
}

#elif defined(RT)

/* The frame fills its budget, and is read back as it was written */

static lc3_decoder_t di;
static void *md;
static long n_cells, n_nogain;
static long n_lsb, n_pitch, n_trunc;

static bool step(int l, int t, int nb)
{
    static uint8_t o[2][700], sv[16384], sr[16384], or[640], pcm_out[8192];
    static struct ref_frame f;
    static int owner = -1;
    char s[64];

    if (owner != ci) {
        free(md), md = malloc(lc3_hr_decoder_size(c->hr, c->dt, c->pcm));
        di = lc3_hr_setup_decoder(c->hr, c->dt, c->sr, c->pcm, md);
        owner = ci;
    }

    letter(l, t);
    push(l, t, nb);
    trace(PROP " %d %s", ci, word);
    cfg_str(c, s);

    /* Determined by the inputs */

    memset(o[0], 0x55, sizeof(o[0])), memset(o[1], 0xaa, sizeof(o[1]));
    memcpy(sv, mi, szi);
    watchdog(20);
    int r0 = lc3_encode(ei, fmt, pcm, 1, nb, o[0]);
    memcpy(mi, sv, szi);
    int r1 = lc3_encode(ei, fmt, pcm, 1, nb, o[1]);
    watchdog(60);
    R.transitions++;
    if (r0 || r1 || memcmp(o[0], o[1], nb)) {
        int k = 0;
        while (k < nb && o[0][k] == o[1][k]) k++;
        report("%s: return %d, byte %d of %d depends on the output buffer, "
            "after word%s", s, r0, k, nb, word);
        return false;
    }
    for (int i = nb; i < 700; i++)
        if (o[0][i] != 0x55) {
            report("%s: byte %d written past the %d requested, after word%s",
                s, i, nb, word);
            return false;
        }

    /* Accepted by the syntax, and by the decoder */

    int st = ref_parse(c->hr, c->dt, c->sr, o[0], nb, &f) ? f.stage : 0;
    int rd = lc3_decode(di, o[0], nb, c->hr ? 1 : 0, pcm_out, 1);
    if (st || rd) {
        report("%s: frame of %d bytes is not a good frame (stage %d, "
            "decoder %d) after word%s", s, nb, st, rd, word);
        return false;
    }
    n_lsb += f.lsb_mode, n_pitch += f.pitch_present;

#ifdef NOCELLS
    return true;
#endif

    /* The values read are in the cells of the values to code */

    if (f.lsb_mode)
        for (int i = 0; i < f.nq; i++)
            f.lo[i] -= 1, f.hi[i] += 1;
    int nq = f.nq == 2 && !f.x[0] && !f.x[1] ? 0 : f.nq;    /* truncated */
    for (int i = nq; i < REF_MAX_NE; i++)
        f.lo[i] = -1e30, f.hi[i] = 1e30;

    memcpy(sr, mr, szr);
    ref_set_guide(&f, 8);
    ref_lc3_encode(er, fmt, pcm, 1, nb, or);
    ref_set_guide(NULL, 0);

    int n = ref_guide_state();
    n_cells += n >= 0, n_nogain += n < 0;
    if (n > 0) {
        report("%s: %d coefficients of the frame of %d bytes are not those "
            "of the signal, after word%s", s, n, nb, word);
        return false;
    }
    if (n < 0) {
        memcpy(mr, sr, szr);
        ref_lc3_encode(er, fmt, pcm, 1, nb, or);
    }
    return true;
}

#else

/* The history is explained by the model, but possibly not with the internal
 * state of the implementation: nothing is deduced after a second mismatch */
static bool step(int l, int t, int nb)
{
    static uint8_t oi[640], or[640];
    struct hist *h = HIST(nhist++);

    letter(l, t);
    push(l, t, nb);
    h->l = l, h->t = t, h->nb = nb;
    memcpy(h->saved, mr, szr);

    memset(oi, 0x55, nb), memset(or, 0xaa, nb);
    watchdog(20);
    int ri = lc3_encode(ei, fmt, pcm, 1, nb, oi);
    watchdog(120);
    int rr = ref_lc3_encode(er, fmt, pcm, 1, nb, or);
    memcpy(h->frame, oi, nb);
    R.transitions++;

    if (ri == rr && !memcmp(oi, or, nb)) {
        n_exact++;
        return true;
    }

    trace(PROP " %d %s%s%s", ci, ltpf_off ? "noltpf" : "", "", word);
    if (ri != rr) {
        char s[64];
        cfg_str(c, s);
        report("%s: frame of %d bytes, return %d instead of %d, after word%s",
            s, nb, ri, rr, word);
        return false;
    }
    if (!explain()) {
        if (guided) {
            n_lost++;
            return false;
        }
        char s[64];
        cfg_str(c, s);
        int k = 0;
        while (k < nb && oi[k] == or[k]) k++;
        n_unexpl[c->hr]++;
        report("%s: frame of %d bytes differs from the encoding procedure "
            "after word%s", s, nb, word);
        return false;
    }
    n_guided[c->hr]++, guided++;
    return true;
}

#endif

/* Refused sizes: no effect */
static bool refused(int nb)
{
    uint8_t *o = malloc(700), *ctx = malloc(szi);
    static uint8_t ref[700];
    char s[64];

    letter(P_VOICE, 1);
    memset(o, 0xc3, 700), memset(ref, 0xc3, 700);
    memcpy(ctx, mi, szi);
    trace(PROP " %d%s refused:%d", ci, word, nb);
    watchdog(60);
    int ri = lc3_encode(ei, fmt, pcm, 1, nb, o);
    watchdog(0);
    R.transitions++;
    bool same = !memcmp(o, ref, 700);
#ifndef MSAN
    same = same && !memcmp(ctx, mi, szi);
#endif
    free(o), free(ctx);
    if (ri == -1 && same)
        return true;
    cfg_str(c, s);
    report("%s: size %d, return %d instead of -1%s, after%s", s, nb, ri,
        same ? "" : ", context or output modified", word);
    return false;
}

static void dfs(const int *ls, int nl, const int *sz, int nsz,
    int depth, int maxd, int t0)
{
    if (depth >= maxd || n_unexpl[c->hr] > 200)
        return;
    uint8_t *si = malloc(szi), *sr = malloc(szr);
    int wl = wlen, g = guided, nh = nhist;
    memcpy(si, mi, szi), memcpy(sr, mr, szr);

    for (int a = 0; a < nl; a++)
        for (int b = 0; b < nsz; b++) {
            memcpy(mi, si, szi), memcpy(mr, sr, szr);
            wlen = wl, word[wl] = 0, guided = g, nhist = nh;
            if (!step(ls[a], t0 + depth, sz[b]))
                continue;
            if (state_add(hash64(mr, szr, ci)))
                dfs(ls, nl, sz, nsz, depth + 1, maxd, t0);
        }
    memcpy(mi, si, szi), memcpy(mr, sr, szr);
    wlen = wl, word[wl] = 0;
    free(si), free(sr);
}

/* Items of a configuration:
 *   0 .. NPCM-1          size sweep, each frame with another size
 *   NPCM .. 2*NPCM-1     letter x^k y^k histories, on each y, fixed sizes
 *   2*NPCM .. +NPRE      exhaustive words after a prefix
 *   .. +NPAR*NPART       parametric streams, in parts
 *   .. +1                long history, of all letters and sizes
 *   .. +1                refused sizes */

#define NPRE 6
#define NPART 2
#define PARAMS (2*NPCM + NPRE)
#define LONG   (PARAMS + NPAR*NPART)
#define PERCFG (LONG + 2)

#if defined(SAFE)
#define SPARSE 4
#elif defined(RT)
#define SPARSE 2
#else
#define SPARSE 1
#endif

static long since, longest;

static void item(long it)
{
    int i = it / PERCFG, k = it % PERCFG;
    if (c != &CFG[i])
        cfg_open(i);

    ltpf_off = 0;
    wlen = 0, word[0] = 0;
    int sizes[] = { nmin, nmin + 3, nmin + (nmax - nmin) / 8,
        nmin + (nmax - nmin) / 4, (nmin + nmax) / 2, nmax };

    if (k < NPCM) {
        /* All sizes, in the order n*step mod count, history continuing */
        int n = nmax - nmin + 1, stp = 1;
        static const int steps[] = { 1, 61, 97, 149, 211, 151 };
        for (int r = 0; r < (R.thorough ? 6 : 2); r++) {
            stp = steps[(k + r) % 6];
            while (n % stp == 0 && stp > 1) stp++;
            wlen = 0, word[0] = 0;
            start();
            for (int j = 0; j < n; j++) {
                int l = k, nb = nmin + (int)((long)j * stp % n);
                if (r & 1) l = (k + j / 5) % NPCM;
                if (wlen > 600) {
                    memmove(word, word + wlen - 200, 201);
                    wlen = 200; memcpy(word, "...", 3); }
                if (!step(l, j, nb)) break;
                state_add(hash64(mr, szr, ci));
            }
        }
        R.validated++;

    } else if (k < 2*NPCM) {
        int x = k - NPCM;
        for (int y = 0; y < NPCM; y++)
            for (int b = 0; b < (R.thorough ? COUNT(sizes) : 2); b++) {
                int nb = sizes[R.thorough ? b : (x + y + 3*b) % COUNT(sizes)];
                wlen = 0, word[0] = 0;
                start();
                if (R.thorough || (x + y) % 8 == 7) {
                    /* analysis disabled on the way */
                }
                for (int t = 0; t < 12; t++) {
                    if (!step(t < 6 ? x : y, t, nb)) break;
                    state_add(hash64(mr, szr, ci));
                }
                R.validated++;
            }

    } else if (k >= PARAMS && k < LONG) {
        int q = (k - PARAMS) / NPART, part = (k - PARAMS) % NPART;
        int n = k_count(q, c), h = k_hold(q, c);
        int nv = R.nviol;
        int skip = R.thorough ? 1 : SPARSE * (c->pcm == c->sr ? 1 : 3);
        for (int r = 0; r < (R.thorough ? 6 : SPARSE > 1 ? 1 : 2); r++) {
            wlen = 0, word[0] = 0;
            start();
            for (int p = part * n / NPART; p < (part + 1) * n / NPART; p++) {
                if (p % skip != i % skip) continue;
                for (int t = 0; t < h; t++) {
                    int nb = q == K_BASS && !r ? nmax - p % 7 * 7 :
                        r ? sizes[(p / 2 + r) % 6] : q == K_PITCH ? sizes[2] : sizes[3];
                    if (wlen > 600) {
                        memmove(word, word + wlen - 200, 201);
                        wlen = 200; memcpy(word, "...", 3); }
                    if (!step(NPCM + q, p * h + t, nb)) {
                        if (R.nviol > nv + 20) return;
                        wlen = 0, word[0] = 0;
                        start();
                        continue;
                    }
                    state_add(hash64(mr, szr, ci));
                }
            }
        }
        R.validated++;

    } else if (k == LONG) {
        int len = c->dt == 2500 && c->pcm == 8000 ? 66000 :
            R.thorough ? 6000 : 600 / SPARSE, nv = R.nviol;
        wlen = 0, word[0] = 0;
        start();
        for (int t = 0; t < len; t++) {
            int l = (t / 5 + t / 320) % NPCM;
            int nb = t % 3 ? sizes[(t / 4) % 6] :
                nmin + (t * 37 + t / 50) % (nmax - nmin + 1);
            if (wlen > 600) {
                memmove(word, word + wlen - 200, 201);
                wlen = 200; memcpy(word, "...", 3); }
            since++;
            if (!step(l, t, nb)) {
                if (R.nviol > nv + 20) return;
                wlen = 0, word[0] = 0, since = 0;
                start();
            }
            longest = since > longest ? since : longest;
            state_add(hash64(mr, szr, ci));
        }
        R.validated++;

    } else if (k == PERCFG-1) {
        /* Sizes out of range, at each point of a history */
        static const int out[] = { -1, -20, INT_MIN, INT_MAX, INT_MIN + 40,
            65536 + 100, 1000, 4000, 1 << 30, -2147483000, 8192, 0 };
        start();
        for (int t = 0; t < 4; t++) {
            for (int nb = 0; nb < nmin; nb++)
                if (!refused(nb)) return;
            for (int nb = nmax + 1; nb < nmax + 300; nb++)
                if (!refused(nb)) return;
            for (int m = 0; m < COUNT(out); m++)
                if (!refused(out[m])) return;
            if (!step(P_VOICE, t, sizes[t])) return;
        }
        R.validated++;

    } else {
        int p = k - 2*NPCM;
        static const int pre[NPRE] = { -1, P_PITCH, P_SQUARE, P_NOISE, P_VOICE, P_LOWN };
        static const int ls[] = { P_SIL, P_NOISE, P_VOICE, P_ATTACK, P_NB,
            P_PITCH, P_SQUARE, P_TNS };
        int t = 0;
        start();
        if (p)
            for (; t < 4; t++)
                if (!step(pre[p], t, sizes[(p + t) % 6])) return;
        int sz[] = { sizes[0], sizes[3], sizes[5] };
        dfs(ls, R.thorough ? 8 : 6, sz, 3, 0, R.thorough ? 3 : 2, t);
        R.validated++;
    }
}

#ifndef NOMAIN

int main(int argc, char **argv)
{
    run_init(argc, argv);
    cfg_init();
    R.cont = 1;

    while (work_next((long)NCFG * PERCFG))
        item(R.item);

    sample(PROP " last word: %d%s", ci, word);
    stat_add("exact", n_exact);
    stat_add("guided", n_guided[0]), stat_add("guided_hr", n_guided[1]);
    stat_add("unexplained", n_unexpl[0]), stat_add("unexplained_hr", n_unexpl[1]);
    stat_add("lost", n_lost), stat_add("longest", longest);
#ifdef RT
    stat_add("cells", n_cells), stat_add("othergain", n_nogain);
    stat_add("lsb", n_lsb), stat_add("pitch", n_pitch);
#endif
    return run_end();
}

#endif /* NOMAIN */
