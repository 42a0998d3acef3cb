/*
 * C16 - LTPF disabled at each point of bounded histories: lock-step with the
 * model, no pitch in the later frames, no effect on another encoder, enabled
 * again by a new setup.
 */
#define NOMAIN
#define PROP "C16"
#include "enc_conf.c"

static long n_pitch_before, n_pitch_again;

static int pitch_of(const uint8_t *d, int nb)
{
    static struct ref_frame f;
    return ref_parse(c->hr, c->dt, c->sr, d, nb, &f) ? -1 : f.pitch_present;
}

/* A witness encoder, on the same input, is never disabled */
static uint8_t *mw;
static lc3_encoder_t ew;
static uint8_t fw[32][640];

static bool run(int x, int y, int at, int again, const int *sz, int off)
{
    char s[64];
    cfg_str(c, s);

    wlen = 0, word[0] = 0;
    mw = realloc(mw, szi);
    start();
    ew = lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, mw);

    bool was = false, seen = false;
    ltpf_off = 0;
    for (int t = 0; t < 14; t++) {
        int l = t < 7 ? x : y, nb = sz[(t + off) % 4];

        if (t == at || t == again) {
            lc3_encoder_disable_ltpf(ei);
            ref_lc3_encoder_disable_ltpf(er);
            ltpf_off = 1;
            wlen += sprintf(word + wlen, " disable");
        }
        bool ok = step(l, t, nb);
        const uint8_t *d = HIST(nhist - 1)->frame;
        int p = pitch_of(d, nb);
        if (ltpf_off && p) {
            report("%s: frame with a pitch after LTPF is disabled, word%s",
                s, word);
            return false;
        }
        if (p < 0) {
            report("%s: invalid frame after LTPF is disabled, word%s", s, word);
            return false;
        }
        if (!ok)
            return true;
        n_pitch_before += p == 1;

        /* Alone, the witness would emit these frames */
        letter(l, t);
        lc3_encode(ew, fmt, pcm, 1, nb, fw[t]);
        state_add(hash64(mr, szr, ci));
    }
    mw = realloc(mw, szi);
    ew = lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, mw);
    for (int t = 0; t < 14; t++) {
        static uint8_t o[640];
        int l = t < 7 ? x : y, nb = sz[(t + off) % 4];
        letter(l, t);
        lc3_encode(ew, fmt, pcm, 1, nb, o);
        seen |= pitch_of(o, nb) == 1;
        if (memcmp(o, fw[t], nb)) {
            report("%s: disabling LTPF changes frame %d of another encoder, "
                "word%s", s, t, word);
            return false;
        }
        if (!ltpf_off && t == 13) break;
    }

    /* A new setup on the disabled encoder */
    ei = lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, mi);
    for (int t = 0; t < 14; t++) {
        static uint8_t o[640];
        int l = t < 7 ? x : y, nb = sz[(t + off) % 4];
        letter(l, t);
        lc3_encode(ei, fmt, pcm, 1, nb, o);
        was |= pitch_of(o, nb) == 1;
        if (memcmp(o, fw[t], nb)) {
            report("%s: LTPF not enabled again by a new setup (frame %d), "
                "word%s", s, t, word);
            return false;
        }
    }
    n_pitch_again += was;
    R.validated++;
    return true;
}

static const int LX[] = { P_PITCH, P_VOICE, P_MUSIC, P_GLIDE, P_SINE, P_SQUARE,
    P_SIL, P_NOISE };

int main(int argc, char **argv)
{
    run_init(argc, argv);
    cfg_init();
    R.cont = 1;

    while (work_next((long)NCFG * COUNT(LX))) {
        watchdog(R.thorough ? 800 : 60);
        int i = R.item / COUNT(LX), k = R.item % COUNT(LX);
        if (c != &CFG[i]) cfg_open(i);
        int sz[] = { nmin + (nmax - nmin) / 8, (nmin + nmax) / 2, nmin, nmax };
        bool ok = true;
        for (int y = 0; ok && y < COUNT(LX); y++) {
            if (!R.thorough && (y + k + i) % 4) continue;
            for (int at = 0; ok && at < 14; at++)
                for (int ag = -1; ok && ag < (R.thorough ? 14 : 1); ag++)
                    ok = run(LX[k], LX[y], at, ag < 0 ? -1 :
                        R.thorough ? ag : at + 1, sz, at + y);
        }
    }

    sample("C16 last word: %d%s", ci, word);
    stat_add("exact", n_exact);
    stat_add("guided", n_guided[0]), stat_add("guided_hr", n_guided[1]);
    stat_add("unexplained", n_unexpl[0]), stat_add("unexplained_hr", n_unexpl[1]);
    stat_add("pitch_before", n_pitch_before);
    stat_add("pitch_again", n_pitch_again);
    return run_end();
}
