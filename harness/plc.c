/*
 * C06 - Loss concealment: at each state of all loss patterns up to a depth,
 * a lost frame, and frames refused for each reason, have the same effect.
 * Sustained losses fade out; reception recovers.
 */
#define NOMAIN
#define PROP "C06"
#include "dec_conf.c"

/* Refused frames, by reason */

#define NBAD 12
static struct { uint8_t d[640]; int n, stage; } bad[NBAD];
static int nbad;

static void add_bad(const uint8_t *d, int n)
{
    static struct ref_frame f;
    if (nbad >= NBAD || !ref_parse(c->hr, c->dt, c->sr, d, n, &f))
        return;
    int same = 0;
    for (int i = 0; i < nbad; i++)
        same += bad[i].stage == f.stage;
    if (same >= 2)
        return;
    memcpy(bad[nbad].d, d, n), bad[nbad].n = n, bad[nbad].stage = f.stage;
    nbad++;
}

static void make_bad(void)
{
    static uint8_t d[640];
    nbad = 0;

    /* Invalid fields of a good frame, exhausted arithmetic coder */
    if (ref_parse(c->hr, c->dt, c->sr, fr[1], frn[1], &base))
        return;
    for (int k = 0; k < 6; k++) {
        cur = base;
        if (k == 0) cur.bw = 7;
        if (k == 1) cur.nq = ne + 4;
        if (k == 2) cur.shape = 3, cur.idx_a = 774912;
        if (k == 3) cur.shape = 0, cur.idx_b = 6, cur.idx_a = 5;
        if (k == 4) {
            for (int j = 0; j < ne; j++) cur.x[j] = (j & 1) ? -255 : 255;
            cur.nq = ne / 2 * 2;
        }
        if (k == 5) {
            /* More escapes than a value can have */
            memset(cur.x, 0, sizeof(cur.x));
            cur.x[0] = c->hr ? 1 << 26 : 1 << 18;
            cur.nq = 2, cur.lsb_mode = 0;
        }
        ref_write(c->hr, c->dt, c->sr, &cur, 2, d, frn[1]);
        add_bad(d, frn[1]);
        ref_write(c->hr, c->dt, c->sr, &cur, 1, d, nmin);
        add_bad(d, nmin);
    }
    for (int b = 0; b < 8 * frn[2]; b++) {
        memcpy(d, fr[2], frn[2]);
        d[b >> 3] ^= 1 << (b & 7);
        add_bad(d, frn[2]);
    }
    memset(d, 0xff, 640);
    add_bad(d, 20), add_bad(d, nmax);
}

static long n_rel, stages[8];

static int16_t o16[2][3][960];
static float of[2][3][2048];

/* Decode [x] lost? good good, in float */
static bool future(int k, const uint8_t *d, int n, int t, int pat)
{
    int r = lc3_decode(di, d, n, LC3_PCM_FORMAT_FLOAT, of[k][0], 1);
    if (r != 1)
        return false;
    r  = lc3_decode(di, pat ? NULL : fr[t], frn[t], 3, of[k][1], 1);
    r |= lc3_decode(di, fr[t], frn[t], 3, of[k][2], 1) << 1;
    return r == (pat ? 1 : 0);
}

/* All kinds of losses from the current state */
static bool relational(int t)
{
    static const int nbs[] = { 0, 20, 57, 400, -1, 1 };
    struct snap s = save();
    char cs[64];
    bool ok = true;

    for (int pat = 0; ok && pat < 2; pat++) {
        trace("C06 %d%s then loss", ci, word);
        watchdog(60);
        load(&s);
        ok = future(0, NULL, 0, t, pat);
        for (int k = 0; ok && k < nbad + COUNT(nbs); k++) {
            bool b = k < nbad;
            if (!b && pat) continue;
            load(&s);
            ok = future(1, b ? bad[k].d : NULL, b ? bad[k].n : nbs[k-nbad],
                    t, pat);
            for (int i = 0; ok && i < 3; i++)
                ok = !memcmp(of[0][i], of[1][i], ns * sizeof(float));
            n_rel++, R.transitions += 3;
            if (b) stages[bad[k].stage & 7]++;
            if (!ok) {
                cfg_str(c, cs);
                report("%s: a frame refused at stage %d (size %d) is not "
                    "concealed as a lost one, after%s", cs,
                    b ? bad[k].stage : 0, b ? bad[k].n : nbs[k-nbad], word);
            }
        }
        watchdog(0);
    }
    load(&s), drop(&s);
    return ok;
}

static bool explore(int t, int depth)
{
    if (!relational(t))
        return false;
    if (!depth)
        return true;

    struct snap s = save();
    bool ok = true;
    for (int a = 0; ok && a < 2; a++) {
        load(&s);
        if (!a) push(" frame%d:%d", t, frn[t]);
        else push(" lost");
        ok = step(a ? NULL : fr[t], frn[t]);
        if (ok && visit())
            ok = explore((t + 1) % NF, depth - 1);
    }
    load(&s), drop(&s);
    return ok;
}

/* Energy of the last output */
static double energy(const float *x)
{
    double e = 0;
    for (int i = 0; i < ns; i++)
        e += (double)x[i] * x[i];
    return e;
}

/* Loss of `nl` frames after `nf` frames, compared to no loss */
static bool recovery(int letter, int nf, int nl)
{
    static float o[2][2048];
    static struct ref_frame f;
    char cs[64];
    bool pitch = false;

    cfg_str(c, cs);
    for (int t = 0; t < NF; t++)
        pitch |= ref_parse(c->hr, c->dt, c->sr, fr[t], frn[t], &f) ||
            f.pitch_present;

    /* Without loss */
    static uint8_t m0[32768];
    uint8_t *keep = mi;
    int nt = nf + nl + (pitch ? 60 : 12);
    double e0 = 0, d = 0, lv = 0;

    mi = malloc(szi);
    lc3_decoder_t d0 = lc3_hr_setup_decoder(c->hr, c->dt, c->sr, c->pcm, mi);
    uint8_t *md = malloc(szi);
    lc3_decoder_t d1 = lc3_hr_setup_decoder(c->hr, c->dt, c->sr, c->pcm, md);
    bool ok = true;

    for (int t = 0; ok && t < nt; t++) {
        bool lost = t >= nf && t < nf + nl;
        uint8_t *p = fr[t % NF];
        watchdog(20);
        lc3_decode(d0, p, frn[t % NF], 3, o[0], 1);
        int r = lc3_decode(d1, lost ? NULL : p, frn[t % NF], 3, o[1], 1);
        R.transitions += 2;
        lv = fmax(0.5 * lv, sqrt(energy(o[0]) / ns));
        d = 0;
        for (int i = 0; i < ns; i++)
            d = fmax(d, fabs(o[0][i] - o[1][i]));
        if (r != lost) {
            report("%s: %s frame %d returns %d (%d lost after %d)", cs,
                PNAME[letter], t, r, nl, nf);
            ok = false;
        }

        /* The overlap is flushed after one frame. The memory of the filter
         * fades out, with a gain below 1/2 */
        int after = t - (nf + nl);
        if (ok && !pitch && after >= 1 && d > 2e-5 * fmax(lv, 1e-3)) {
            report("%s: %s, %g from the output without loss, %d frames "
                "after the reception (%d lost after %d)", cs, PNAME[letter],
                d, after, nl, nf);
            ok = false;
        }
    }
    if (ok && pitch && d > 1e-3 * fmax(lv, 1e-3)) {
        report("%s: %s, still %g from the output without loss long after "
            "the reception (%d lost after %d)", cs, PNAME[letter], d, nl, nf);
        ok = false;
    }
    free(mi), free(md);
    mi = keep;
    R.validated++;
    return ok;
}

/* Reception, then other losses */
static bool relapse(int t)
{
    static const char pat[] = "RLLLLLLLRRL";
    for (int i = 0; pat[i]; i++, t++) {
        bool lost = pat[i] == 'L';
        if (lost) push(" lost");
        else push(" frame%d:%d", t % NF, frn[t % NF]);
        if (!step(lost ? NULL : fr[t % NF], frn[t % NF])) return false;
        visit();
    }
    return true;
}

/* Sustained loss after `nf` frames: fade to silence */
static bool fade(int letter, int nf)
{
    static float o[2048];
    static double e[200];
    char cs[64];

    cfg_str(c, cs);
    start();
    double e0 = 0;
    for (int t = 0; t < nf; t++) {
        push(" frame%d:%d", t % NF, frn[t % NF]);
        if (!step(fr[t % NF], frn[t % NF])) return false;
        struct snap s = save();
        lc3_decode(di, fr[t % NF], frn[t % NF], 3, o, 1);
        load(&s), drop(&s);
        e0 = fmax(e0, energy(o));
    }
    for (int t = 0; t < 160; t++) {
        struct snap s = save();
        int r = lc3_decode(di, NULL, 0, 3, o, 1);
        load(&s), drop(&s);
        e[t] = energy(o);
        push(" lost");
        if (r != 1 || !step(NULL, 0)) return false;
        visit();
        if (t % 27 == 4 || t == 11 || t == 159) {
            s = save();
            bool ok = relapse(nf + 1 + t);
            load(&s), drop(&s);
            if (!ok) return false;
        }
    }

    /* Levels by groups of 10 frames strictly decrease, down to silence */
    double g[16] = { 0 };
    for (int t = 0; t < 160; t++) g[t / 10] += e[t];
    for (int i = 1; i < 16; i++)
        if (g[i] > 0.25 * g[i-1] && g[i] > 1e-12 * ns) {
            report("%s: %s, the concealment does not fade out, %g then %g, "
                "lost frames %d", cs, PNAME[letter], g[i-1], g[i], 10*i);
            return false;
        }
    if (g[15] > 1e-9 * ns) {
        report("%s: %s, no silence after 160 lost frames", cs, PNAME[letter]);
        return false;
    }

    /* First losses at full level: not below 1/50 of the energy, up to the
     * fourth one (fade starts after) */
    static const int steady[] = { P_SINE, P_NOISE, P_MUSIC };
    for (int k = 0; k < 3; k++)
        if (letter == steady[k] && nf >= 4 && e0 > 0) {
            double m = (e[0] + e[1] + e[2] + e[3]) / 4;
            if (m < 0.02 * e0 || m > 50 * e0) {
                report("%s: %s, first lost frames at %g of the level", cs,
                    PNAME[letter], sqrt(m / e0));
                return false;
            }
        }
    R.validated++;
    return true;
}

#define PERCFG (NPCM + 4)

static void item(long it)
{
    int i = it / PERCFG, k = it % PERCFG;
    if (c != &CFG[i])
        cfg_open(i);

    int sz[] = { nmin + 40, (nmin + nmax) / 2, nmin, nmin + 90 };
    if (k < NPCM) {
        stream(k, NF, sz, 1 + (k + i) % 4);
        for (int nf = 1; nf <= 5; nf += 2) {
            if (!fade(k, nf)) return;
            for (int nl = 1; nl <= (R.thorough ? 24 : 12); nl++)
                if ((R.thorough || nl < 4 || (nl + k) % 4 == 0) &&
                        !recovery(k, nf, nl)) return;
        }
        /* Beyond 8 and 16 bits counters of losses */
        if ((R.thorough || (i + k) % 4 == 0) && !recovery(k, 4, 258)) return;
        if (c->dt == 2500 && c->pcm == 8000 && k % 8 == 0 &&
                !recovery(k, 4, 65538)) return;
    } else {
        static const int lt[] = { P_VOICE, P_MUSIC, P_ATTACK, P_GLIDE };
        stream(lt[k - NPCM], NF, sz, 4);
        make_bad();
        start();
        if (explore(0, R.thorough ? 10 : 6))
            R.validated++;
    }
}

int main(int argc, char **argv)
{
    run_init(argc, argv);
    cfg_init();
    while (work_next((long)NCFG * PERCFG))
        item(R.item);
    sample("C06 last history: %d%s", ci, word);
    stat_add("relational", n_rel);
    for (int i = 1; i < 7; i++) {
        char s[32];
        sprintf(s, "refused_stage%d", i);
        stat_add(s, stages[i]);
    }
    return run_end();
}
