/*
 * C11 - Fresh contexts: whatever the memory held, at each point of bounded
 * histories, within the reported size, and wherever the context is moved.
 */
#include "common.h"
#include "ref.h"

static const struct cfg *c;
static int ci, ns, nmin, nmax;
static char cs[64], word[700];

#define SLACK 4096
#define MAXZ 40000

/* --- Sizes --- */

#define SZ(T, dt, sr) \
    { dt, sr, sizeof(LC3_##T##_MEM_T(dt, sr)) }
#define SZS(T, dt) SZ(T, dt, 8000), SZ(T, dt, 16000), SZ(T, dt, 24000), \
    SZ(T, dt, 32000), SZ(T, dt, 48000), SZ(T, dt, 96000)

static const struct { int dt, sr; size_t z; } EZ[] = {
    SZS(ENCODER, 2500), SZS(ENCODER, 5000), SZS(ENCODER, 7500), SZS(ENCODER, 10000)
}, DZ[] = {
    SZS(DECODER, 2500), SZS(DECODER, 5000), SZS(DECODER, 7500), SZS(DECODER, 10000)
};

static bool sizes(void)
{
    for (int hr = 0; hr < 2; hr++)
    for (int i = 0; i < COUNT(EZ); i++) {
        int dt = EZ[i].dt, sr = EZ[i].sr;
        unsigned e = lc3_hr_encoder_size(hr, dt, sr);
        unsigned d = lc3_hr_decoder_size(hr, dt, sr);
        R.transitions += 2;
        if (e > EZ[i].z || d > DZ[i].z) {
            report("hr=%d %d us %d Hz: size %u/%u, the static types have "
                "%zu/%zu", hr, dt, sr, e, d, EZ[i].z, DZ[i].z);
            return false;
        }
        if (sr <= 48000 && (e > sizeof(lc3_encoder_mem_48k_t) ||
                            d > sizeof(lc3_decoder_mem_48k_t))) {
            report("hr=%d %d us %d Hz: size %u/%u, the 48k static types have "
                "%zu/%zu", hr, dt, sr, e, d, sizeof(lc3_encoder_mem_48k_t),
                sizeof(lc3_decoder_mem_48k_t));
            return false;
        }
        if (sr <= 16000 && (e > sizeof(lc3_encoder_mem_16k_t) ||
                            d > sizeof(lc3_decoder_mem_16k_t))) {
            report("hr=%d %d us %d Hz: size %u/%u, the 16k static types have "
                "%zu/%zu", hr, dt, sr, e, d, sizeof(lc3_encoder_mem_16k_t),
                sizeof(lc3_decoder_mem_16k_t));
            return false;
        }
    }
    return true;
}

/* --- Memory contents --- */

#define NDIRT 12
static int16_t p16[960];
static int32_t p24[960];

static void load(int l, int t)
{
    pcm_letter(l, c->pcm, ns, t, p24);
    pcm_to_s16(p24, ns, p16);
}

/* A context of another configuration, in use */
static void used(uint8_t *m, unsigned z, bool dec, int k)
{
    static uint8_t f[640], o[8192];
    static int32_t x[960];
    for (int i = 0; i < NCFG; i++) {
        const struct cfg *b = &CFG[(i + 7*k + ci) % NCFG];
        int n = cfg_ns(b), nb = (cfg_min(b) + cfg_max(b)) / 2;
        if ((dec ? lc3_hr_decoder_size : lc3_hr_encoder_size)
                (b->hr, b->dt, b->pcm) > z)
            continue;
        static uint8_t tmp[MAXZ];
        lc3_encoder_t e = lc3_hr_setup_encoder(b->hr, b->dt, b->sr, b->pcm,
            dec ? tmp : m);
        lc3_decoder_t d = dec ? lc3_hr_setup_decoder(b->hr, b->dt, b->sr,
            b->pcm, m) : NULL;
        for (int t = 0; t < 5; t++) {
            pcm_letter(P_VOICE + k, b->pcm, n, t, x);
            lc3_encode(e, LC3_PCM_FORMAT_S24, x, 1, nb, f);
            if (d) lc3_decode(d, t == 3 ? NULL : f, nb, 3, o, 1);
        }
        if (!dec && k & 1)
            lc3_encoder_disable_ltpf(e);
        return;
    }
}

static void dirty(uint8_t *m, unsigned z, int k, bool dec)
{
    uint32_t s = 99 + k;
    switch (k) {
    case 0: memset(m, 0, z); break;
    case 1: memset(m, 0xff, z); break;          /* NaN */
    case 2: memset(m, 0xa5, z); break;
    case 3: memset(m, 0x7f, z); break;          /* huge */
    case 4: memset(m, 0x01, z); break;
    case 5: for (unsigned i = 0; i < z; i++) m[i] = rnd(&s); break;
    case 6: for (unsigned i = 0; i + 4 <= z; i += 4)
                memcpy(m + i, (float[]){ 0.5f }, 4); break;
    case 7: for (unsigned i = 0; i + 4 <= z; i += 4)
                memcpy(m + i, (float[]){ INFINITY }, 4); break;
    case 8: case 9: used(m, z, dec, k - 8); break;
    case 10: used(m, z, !dec, 1); break;
    case 11: for (unsigned i = 0; i < z; i++) m[i] = rnd(&s) | 0x40; break;
    }
}

/* --- Histories --- */

#define T0 6
#define T1 8
static uint8_t fr[T0 + T1][640];
static int frn[T0 + T1], lost[T0 + T1];

static struct { uint8_t f[640]; float o[960]; int r; } want[T1];

static unsigned zsize(bool dec)
{
    return (dec ? lc3_hr_decoder_size : lc3_hr_encoder_size)
        (c->hr, c->dt, c->pcm);
}

static void *setup(bool dec, void *m)
{
    return dec ? (void *)lc3_hr_setup_decoder(c->hr, c->dt, c->sr, c->pcm, m) :
                 (void *)lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, m);
}

/* A step of the stream, t < 0: of the previous one */
static int step(bool dec, void *h, int l, int t, uint8_t *f, float *o)
{
    watchdog(20);
    R.transitions++;
    if (dec)
        return lc3_decode(h, lost[t] ? NULL : fr[t], frn[t], 3, o, 1);
    load(l, t);
    return lc3_encode(h, c->hr, c->hr ? (void *)p24 : p16, 1, frn[t], f);
}

static bool follow(bool dec, void *h, int l, const char *what, int t0)
{
    static uint8_t f[640];
    static float o[960];
    for (int t = t0; t < T1; t++) {
        trace("C11 %s %s %s %s frame %d", cs, dec ? "decoder" : "encoder",
            PNAME[l], what, t);
        int r = step(dec, h, l, t, f, o);
        if (r != want[t].r || (dec ? memcmp(o, want[t].o, ns * 4) :
                memcmp(f, want[t].f, frn[t]))) {
            report("%s: %s, %s, frame %d of %s is not the one of a fresh "
                "context", cs, dec ? "decoder" : "encoder", what, t, PNAME[l]);
            return false;
        }
    }
    R.validated++;
    return true;
}

static bool explore(bool dec, int l)
{
    static uint8_t me[65536], mem[MAXZ + SLACK], mem2[MAXZ + SLACK];
    unsigned z = zsize(dec);
    char what[200];
    const int sz[] = { nmin + 30, nmax, nmin, (nmin + nmax) / 2 };

    /* Stream, the first steps twice with another letter for the previous one */
    memset(me, 0, sizeof(me));
    void *e = ref_lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, me);
    for (int t = 0; t < T0 + T1; t++) {
        load(t < T1 ? l : (l + 3) % NPCM, t);
        frn[t] = sz[(t + l) & 3], lost[t] = t % 5 == (l & 3) && t > 0;
        ref_lc3_encode(e, c->hr, c->hr ? (void *)p24 : p16, 1, frn[t], fr[t]);
    }

    /* First fresh context, zeroed memory */
    memset(mem, 0, sizeof(mem));
    void *h = setup(dec, mem);
    for (int t = 0; t < T1; t++) {
        want[t].r = step(dec, h, l, t, want[t].f, want[t].o);
        state_add(hash64(&want[t], sizeof(want[t]), ci));
    }

    /* Whatever the memory held */
    for (int k = 0; k < NDIRT; k++) {
        uint8_t *m = malloc(z);             /* exact */
        dirty(m, z, k, dec);
        sprintf(what, "memory content %d", k);
        bool ok = follow(dec, setup(dec, m), l, what, 0);
        free(m);
        if (!ok) return false;

        /* Guards */
        memset(mem, 0x99, sizeof(mem));
        dirty(mem, z, k, dec);
        if (!follow(dec, setup(dec, mem), l, what, 0)) return false;
        for (int i = z; i < (int)z + SLACK; i++)
            if (mem[i] != 0x99) {
                report("%s: %s writes byte %d out of its %u bytes", cs,
                    dec ? "decoder" : "encoder", i, z);
                return false;
            }
    }

    /* Set up again after `n` steps of another stream */
    for (int n = 0; n <= T0; n++)
        for (int b = 0; b < (dec ? 1 : 2); b++) {
            memset(mem, 0x33, sizeof(mem));
            void *h = setup(dec, mem);
            static uint8_t f[640]; static float o[960];
            if (b) lc3_encoder_disable_ltpf(h);
            for (int t = T1; t < T1 + n; t++)
                step(dec, h, (l + 3) % NPCM, t, f, o);
            sprintf(what, "set up again after %d frames%s", n, b ?
                " without LTPF" : "");
            if (!follow(dec, setup(dec, mem), l, what, 0)) return false;
        }

    /* Moved before step `n`, and every step */
    static const int offs[] = { 0, 8, 16, 24, 40, 104, 1000, 2008 };
    for (int n = 0; n <= T1; n++) {
        static uint8_t f[640]; static float o[960];
        memset(mem, 0x44, sizeof(mem)), memset(mem2, 0x55, sizeof(mem2));
        uint8_t *p = mem + offs[(n + l) & 7];
        void *h = setup(dec, p);
        for (int t = 0; t < n; t++) {
            step(dec, h, l, t, f, o);
            if (l & 1) {
                uint8_t *q = (t & 1 ? mem : mem2) + offs[(n + 3*t) & 7];
                memmove(q, p, z);
                memset(t & 1 ? mem2 : mem, 0xee, sizeof(mem));
                p = q, h = q;
            }
        }
        sprintf(what, "moved after %d frames", n);
        uint8_t *m = malloc(z);
        memcpy(m, p, z);
        memset(mem, 0xdd, sizeof(mem)), memset(mem2, 0xdd, sizeof(mem2));
        bool ok = follow(dec, (void *)m, l, what, n);
        free(m);
        if (!ok) return false;
    }
    return true;
}

int main(int argc, char **argv)
{
    run_init(argc, argv);
    cfg_init();
    while (work_next(1 + 2l * NPCM * NCFG)) {
        trace("C11");
        if (!R.item) { if (sizes()) R.validated++; continue; }
        int k = R.item - 1, l = k / 2 % NPCM;
        c = &CFG[ci = k / 2 / NPCM];
        if (!R.thorough && (l * 3 + ci) % 2) continue;
        ns = cfg_ns(c), nmin = cfg_min(c), nmax = cfg_max(c);
        cfg_str(c, cs);
        explore(k & 1, l);
    }
    sample("C11 %s", R.trace);
    return run_end();
}
