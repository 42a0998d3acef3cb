/*
 * C09 - Refused parameters: setup with all combinations, and refused calls
 * inserted at each point of all histories up to a depth; the behaviour is
 * compared with the one of a twin context that does not get these calls.
 */
#include "common.h"
#include <limits.h>

static bool ok_dt(int hr, long dt)
{
    return dt == 2500 || dt == 5000 || (!hr && dt == 7500) || dt == 10000;
}

static bool ok_sr(int hr, long sr)
{
    return hr ? sr == 48000 || sr == 96000 : sr == 8000 || sr == 16000 ||
        sr == 24000 || sr == 32000 || sr == 48000;
}

/* --- Setup --- */

#define MEM 40000
static uint8_t *mem, *ref;

static bool same(void) { return !memcmp(mem, ref, MEM); }

static bool setup(int hr, int dt, int sr, int sp)
{
    int p = sp <= 0 ? sr : sp;
    bool ok = ok_dt(hr, dt) && ok_sr(hr, sr) && ok_sr(hr, p) && sr <= p;

    for (int d = 0; d < 4; d++) {
        if (d >= 2 && hr) break;
        void *m = mem + 64;
        void *h = d == 0 ? (void *)lc3_hr_setup_encoder(hr, dt, sr, sp, m) :
                  d == 1 ? (void *)lc3_hr_setup_decoder(hr, dt, sr, sp, m) :
                  d == 2 ? (void *)lc3_setup_encoder(dt, sr, sp, m) :
                           (void *)lc3_setup_decoder(dt, sr, sp, m);
        void *n = d == 0 ? (void *)lc3_hr_setup_encoder(hr, dt, sr, sp, NULL) :
                  d == 1 ? (void *)lc3_hr_setup_decoder(hr, dt, sr, sp, NULL) :
                  d == 2 ? (void *)lc3_setup_encoder(dt, sr, sp, NULL) :
                           (void *)lc3_setup_decoder(dt, sr, sp, NULL);
        R.transitions += 2;
        if (h != (ok ? m : NULL) || n) {
            report("setup %s(hr=%d, %d, %d, %d) is %s, %s without memory",
                d & 1 ? "decoder" : "encoder", hr, dt, sr, sp,
                h ? "accepted" : "refused", n ? "accepted" : "refused");
            return false;
        }
        unsigned z = d & 1 ? lc3_hr_decoder_size(hr, dt, p) :
                             lc3_hr_encoder_size(hr, dt, p);
        if (!!z != (ok_dt(hr, dt) && ok_sr(hr, p))) {
            report("size %s(hr=%d, %d, %d) is %u", d & 1 ? "decoder" :
                "encoder", hr, dt, p, z);
            return false;
        }
        if (ok)
            memcpy(mem, ref, 64 + z);
        if (ok && (memcmp(mem, ref, 64 + z + 64) || z + 128 > MEM)) {
            report("setup %s(hr=%d, %d, %d, %d) writes out of the %u bytes",
                d & 1 ? "decoder" : "encoder", hr, dt, sr, sp, z);
            return false;
        }
        if (!ok && memcmp(mem, ref, 512)) {
            report("refused setup %s(hr=%d, %d, %d, %d) writes in the memory",
                d & 1 ? "decoder" : "encoder", hr, dt, sr, sp);
            return false;
        }
    }
    return true;
}

static const int V[] = { 2500, 5000, 7500, 10000, 8000, 16000, 24000, 32000,
    48000, 96000, 0, -1, 1, 44100, 88200, 20000, 12000, 64000, 192000, 2000,
    1250, 7999, 8001, 47999, 48001, 95999, 96001, INT_MAX, INT_MIN, -48000,
    25000, 75000, 10001, 9999, 65536 + 10000, 65536 + 48000, 32768, 4000 };

static bool setups(int k)
{
    int hr = k & 1;
    mem = mem ? mem : malloc(MEM), ref = ref ? ref : malloc(MEM);
    for (int i = 0; i < MEM; i++)
        mem[i] = ref[i] = 0x5a ^ (i * 7);

    k >>= 1;
    if (k < COUNT(V)) {
        for (int j = 0; j < COUNT(V); j++)
            for (int m = 0; m < COUNT(V); m++)
                if (!setup(hr, V[k], V[j], V[m])) return false;
    } else {
        long lim = R.thorough ? 200000 : 100000;
        for (long v = -10; v <= lim; v++) {
            if (!(setup(hr, v, 48000, 0) && setup(hr, 10000, v, 0) &&
                  setup(hr, 10000, 48000, v) && setup(hr, 5000, 8000, v)))
                return false;
        }
    }
    if (!same()) {
        report("refused setups write in the memory");
        return false;
    }
    return true;
}

/* --- Refused calls --- */

static const struct cfg *c;
static int ci, ns, nmin, nmax;
static char cs[64], word[512];

static bool poke(void *h, bool dec, int n, bool null)
{
    static uint8_t o[8192];
    uint8_t *in = malloc(1);            /* not to be read */
    *in = 0x12;
    memset(o, 0xc3, sizeof(o));

    watchdog(20);
    for (int f = 0; f < 4; f++) {
        int r = dec ?
            lc3_decode(null ? NULL : h, in, n, f, o, 1 + (f & 1)) :
            lc3_encode(null ? NULL : h, f, in, 1, n, o);
        R.transitions++;
        if (r != -1) {
            report("%s: %s of %d bytes%s, return %d instead of -1, after%s",
                cs, dec ? "decoding" : "encoding", n, null ?
                " without handle" : "", r, word);
            free(in);
            return false;
        }
        for (int i = 0; i < (int)sizeof(o); i++)
            if (o[i] != 0xc3) {
                report("%s: refused %s of %d bytes%s writes its output, "
                    "after%s", cs, dec ? "decoding" : "encoding", n, null ?
                    " without handle" : "", word);
                free(in);
                return false;
            }
    }
    /* A lost frame without handle */
    if (dec && null && lc3_decode(NULL, NULL, n, 0, o, 1) != -1) {
        report("%s: lost frame without handle, not refused", cs);
        return false;
    }
    free(in);
    return true;
}

static bool pokes(void *h, bool dec)
{
    static const int ext[] = { INT_MIN, -1, -400, INT_MAX, 1 << 16,
        (1 << 16) + 100, 1 << 30, 1000, 626, 2000 };
    int lo = dec ? 20 : nmin;

    for (int n = 0; n < lo; n++)
        if (!poke(h, dec, n, false)) return false;
    for (int n = nmax + 1; n < nmax + 300; n += 1 + (n > nmax + 10) * 36)
        if (!poke(h, dec, n, false)) return false;
    for (int i = 0; i < COUNT(ext); i++)
        if (!poke(h, dec, ext[i], false)) return false;
    return poke(h, dec, 100, true) && poke(h, dec, nmax, true);
}

static const int LT[] = { P_VOICE, P_ATTACK, P_PITCH };
static const int LN[] = { 0, 5, 1000, -1, 19, INT_MAX };

/* Words of 3 letters x 3 sizes; calls inserted before each step */
static bool history(int w, int depth, int at, bool dec)
{
    static uint8_t f[2][640];
    static int32_t p24[960]; static int16_t p16[960];
    static uint8_t o[2][8192];

    unsigned ze = lc3_hr_encoder_size(c->hr, c->dt, c->pcm);
    unsigned zd = lc3_hr_decoder_size(c->hr, c->dt, c->pcm);
    void *m[4] = { malloc(ze), malloc(ze), malloc(zd), malloc(zd) };
    void *e[2], *d[2];
    for (int k = 0; k < 2; k++) {
        e[k] = lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, m[k]);
        d[k] = lc3_hr_setup_decoder(c->hr, c->dt, c->sr, c->pcm, m[2+k]);
    }

    const int sz[] = { nmin, nmax, (nmin + nmax) / 3 };
    bool ok = true;
    int wl = word[0] = 0;
    int len = depth + (dec ? 9 : 3), nlost = 0;
    for (int t = 0; ok && t < len; t++) {
        int a = w % 9;
        w = t < depth ? w / 9 : w + 4;
        int nb = sz[a / 3];
        /* A loss, then a long one; its size does not matter */
        bool lost = t == 2 || (dec && t > depth && t < depth + 7);
        nlost += lost;
        trace("C09 %s%s", cs, word);
        if (t == at || at < 0)
            ok = dec ? pokes(d[0], true) : pokes(e[0], false);
        if (!ok) break;

        pcm_letter(LT[a % 3], c->pcm, ns, t, p24);
        pcm_to_s16(p24, ns, p16);
        watchdog(20);
        int r[2];
        for (int k = 0; k < 2; k++)
            r[k] = lc3_encode(e[k], c->hr, c->hr ? (void *)p24 : p16, 1, nb, f[k]);
        ok = !r[0] && !r[1] && !memcmp(f[0], f[1], nb);
        for (int k = 0; ok && k < 2; k++)
            r[k] = lc3_decode(d[k], lost ? NULL : f[k],
                lost && !k ? LN[nlost % COUNT(LN)] : nb, c->hr, o[k], 1);
        ok = ok && r[0] == lost && r[0] == r[1] && !memcmp(o[0], o[1], ns * (c->hr ? 4 : 2));
        R.transitions += 4;
        state_add(hash64(f[0], nb, ci));
        wl += snprintf(word + wl, sizeof(word) - wl, "%s %s:%d",
            t == at || at < 0 ? " refused" : "", lost ? "lost" : PNAME[LT[a % 3]], nb);
        if (!ok)
            report("%s: refused %s has an effect on%s", cs, dec ? "decoding" :
                "encoding", word);
    }
    for (int k = 0; k < 4; k++) free(m[k]);
    R.validated++;
    return ok;
}

static bool histories(int i, int k)
{
    c = &CFG[ci = i], ns = cfg_ns(c), nmin = cfg_min(c), nmax = cfg_max(c);
    cfg_str(c, cs);

    int depth = R.thorough ? 3 : 2, nw = R.thorough ? 729 : 81;
    for (int w = 0; w < nw; w++)
        for (int at = -1; at < depth + 1; at++)
            if ((R.thorough || (w + at + 1) % (depth + 2) == i % (depth + 2)) &&
                    !history(w, depth, at, k)) return false;
    /* In a long loss */
    for (int w = 0; k && w < nw; w += R.thorough ? 1 : 9)
        for (int at = depth + 1; at < depth + 8; at++)
            if (!history((w + at) % nw, depth, at, k)) return false;
    return true;
}

int main(int argc, char **argv)
{
    run_init(argc, argv);
    cfg_init();
    int n = 2 * (COUNT(V) + 1);
    while (work_next(n + 2 * NCFG)) {
        trace("C09");
        bool ok = R.item < n ? setups(R.item) :
            histories((R.item - n) / 2, (R.item - n) & 1);
        if (ok && R.item < n) state_add(R.item + 1), R.validated++;
    }
    sample("C09 last history%s", word);
    return run_end();
}
