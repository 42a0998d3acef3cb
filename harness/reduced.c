/*
 * C18 - Reduced builds: lock-step of the full build and of a build without
 * LC3plus and/or high-resolution mode (symbols x_*), over histories of
 * encoded, lost and damaged frames.
 *
 *   -DPLUS=0/1 -DHR=0/1   features of the reduced build
 *   -DABI                 build with the ABI of another target (C23)
 */
#include "common.h"
#include <limits.h>

#define D(r, f, ...) extern r x_lc3_##f(__VA_ARGS__)
D(int, hr_frame_samples, bool, int, int);
D(int, frame_samples, int, int);
D(int, hr_frame_bytes, bool, int, int, int);
D(int, frame_bytes, int, int);
D(int, hr_frame_block_bytes, bool, int, int, int, int);
D(int, frame_block_bytes, int, int, int);
D(int, hr_resolve_bitrate, bool, int, int, int);
D(int, resolve_bitrate, int, int);
D(int, hr_delay_samples, bool, int, int);
D(int, delay_samples, int, int);
D(unsigned, hr_encoder_size, bool, int, int);
D(unsigned, encoder_size, int, int);
D(unsigned, hr_decoder_size, bool, int, int);
D(unsigned, decoder_size, int, int);
D(void *, hr_setup_encoder, bool, int, int, int, void *);
D(void *, setup_encoder, int, int, int, void *);
D(void *, hr_setup_decoder, bool, int, int, int, void *);
D(void *, setup_decoder, int, int, int, void *);
D(void, encoder_disable_ltpf, void *);
D(int, encode, void *, int, const void *, int, int, void *);
D(int, decode, void *, const void *, int, int, void *, int);

/* Supported by the reduced build */
static bool supported(bool hr, int dt)
{
    return (PLUS || dt >= 7500) && (HR || !hr);
}

static bool bad(const char *what, int hr, int a, int b, int d, long f, long r)
{
    report("reduced build (plus=%d hr=%d): %s(hr=%d, %d, %d, %d) is %ld "
        "instead of %ld", PLUS, HR, what, hr, a, b, d, r, f);
    return false;
}

static bool queries(void)
{
    static const int dts[] = { 2500, 5000, 7500, 10000, 0, -1, 1, 2499, 2501,
        4999, 5001, 7499, 7501, 9999, 10001, 20000, 1250, INT_MAX, INT_MIN };
    static const int srs[] = { 8000, 16000, 24000, 32000, 48000, 96000, 0, -1,
        7999, 44100, 88200, 95999, 96001, 192000, INT_MAX, INT_MIN };
    static uint8_t mem[65536];

    for (int hr = 0; hr < 2; hr++)
    for (int i = 0; i < COUNT(dts); i++)
    for (int j = 0; j < COUNT(srs); j++) {
        int dt = dts[i], sr = srs[j];
        bool s = supported(hr, dt);
        long f, r;

#define Q(name, err, ...) \
    f = s ? (long)lc3_##name(__VA_ARGS__) : err, \
    r = x_lc3_##name(__VA_ARGS__); \
    R.transitions++; \
    if (f != r) return bad(#name, hr, dt, sr, 0, f, r)

        Q(hr_frame_samples, -1, hr, dt, sr);
        Q(hr_delay_samples, -1, hr, dt, sr);
#ifdef ABI      /* The layout of the contexts depends on the ABI */
#define QS(name, ...) \
        f = lc3_##name(__VA_ARGS__), r = x_lc3_##name(__VA_ARGS__); \
        if (!f != !r) return bad(#name, hr, dt, sr, 0, f, r)
#else
#define QS(name, ...) Q(name, 0, __VA_ARGS__)
#endif
        QS(hr_encoder_size, hr, dt, sr);
        QS(hr_decoder_size, hr, dt, sr);
        for (int b = 0; b < 6000; b++) {
            long br = b < 3000 ? b * 300L : b < 5990 ? (b - 3000) * 2000L :
                (b - 5994) * (long)INT_MAX / 5;
            Q(hr_frame_bytes, -1, hr, dt, sr, br);
        }
        for (int n = -3; n < 13; n++)
            for (int b = 0; b < 6000000; b += 7919)
                { Q(hr_frame_block_bytes, -1, hr, dt, sr, n, b); }
        for (int n = -3; n < 6000; n++) {
            Q(hr_resolve_bitrate, -1, hr, dt, sr, n);
        }
        if (!hr) {
            Q(frame_samples, -1, dt, sr);
            Q(delay_samples, -1, dt, sr);
            QS(encoder_size, dt, sr);
            QS(decoder_size, dt, sr);
            for (int b = 0; b < 400000; b += 37) {
                Q(frame_bytes, -1, dt, b);
                Q(resolve_bitrate, -1, dt, b);
                Q(frame_block_bytes, -1, dt, b & 15, b);
            }
        }

        for (int k = -1; k < COUNT(srs); k++) {
            int sp = k < 0 ? sr : srs[k];
            static uint8_t keep[65536];
            for (int d = 0; d < 2; d++) {
                memset(mem, 0x5a, sizeof(mem));
                void *x = d ? x_lc3_hr_setup_decoder(hr, dt, sr, sp, mem) :
                              x_lc3_hr_setup_encoder(hr, dt, sr, sp, mem);
                memset(keep, 0x5a, sizeof(keep));
                R.transitions++;
                if (!x && memcmp(keep, mem, sizeof(mem)))
                    return bad("refused setup writes", hr, dt, sr, sp, 0, 1);
                bool ok = s && (d ?
                    (void *)lc3_hr_setup_decoder(hr, dt, sr, sp, mem) :
                    (void *)lc3_hr_setup_encoder(hr, dt, sr, sp, mem));
                if (ok != !!x)
                    return bad(d ? "setup_decoder" : "setup_encoder",
                        hr, dt, sr, sp, ok, !!x);
            }
        }
        state_add(hash64(&dt, 4, 2 * sr + hr));
    }
    R.validated++;
    return true;
}

/* --- Histories --- */

static bool history(int i, int l, int m, int z)
{
    const struct cfg *c = &CFG[i];
    int ns = cfg_ns(c), n0 = cfg_min(c), n1 = cfg_max(c);
    static int32_t p24[960]; static int16_t p16[960];
    static float o[2][1024];
    static uint8_t f[2][640];
    char s[64];

    unsigned ze = x_lc3_hr_encoder_size(c->hr, c->dt, c->pcm);
    unsigned zd = x_lc3_hr_decoder_size(c->hr, c->dt, c->pcm);
    void *e[2] = { malloc(lc3_hr_encoder_size(c->hr, c->dt, c->pcm)), malloc(ze) };
    void *d[2] = { malloc(lc3_hr_decoder_size(c->hr, c->dt, c->pcm)), malloc(zd) };
    bool ok = true;

    cfg_str(c, s);
    trace("%s letters %d %d mode %d", s, l, m, z);
    lc3_encoder_t le = lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, e[0]);
    lc3_decoder_t ld = lc3_hr_setup_decoder(c->hr, c->dt, c->sr, c->pcm, d[0]);
    if (c->hr || z & 1) {
        x_lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, e[1]);
        x_lc3_hr_setup_decoder(c->hr, c->dt, c->sr, c->pcm, d[1]);
    } else {
        x_lc3_setup_encoder(c->dt, c->sr, c->pcm, e[1]);
        x_lc3_setup_decoder(c->dt, c->sr, c->pcm, d[1]);
    }

    const int sz[] = { n0, n1, (n0 + n1) / 2, n0 + 30, (3*n0 + n1) / 4, n0 + 5 };
    for (int t = 0; ok && t < 10; t++) {
        int nb = sz[(t + z + l) % 6];
        pcm_letter(t < 5 ? l : m, c->pcm, ns, t, p24);
        pcm_to_s16(p24, ns, p16);
        const void *p = c->hr ? (void *)p24 : p16;
        if (t == 8 && z % 3 == 0)
            lc3_encoder_disable_ltpf(le), x_lc3_encoder_disable_ltpf(e[1]);
        int r0 = lc3_encode(le, c->hr, p, 1, nb, f[0]);
        int r1 = x_lc3_encode(e[1], c->hr, p, 1, nb, f[1]);
        R.transitions += 2;
        if (r0 != r1 || memcmp(f[0], f[1], nb)) {
            report("reduced build (plus=%d hr=%d) %s: another frame %d of "
                "%d bytes, letters %s %s, return %d/%d", PLUS, HR, s, t, nb,
                PNAME[l], PNAME[m], r0, r1);
            ok = false;
        }
        int lost = (t + z) % 5 == 3, dmg = (t + z) % 7 == 5;
        if (dmg) f[0][(t * 17) % nb] ^= 0x41;
        r0 = lc3_decode(ld, lost ? NULL : f[0], nb, 3, o[0], 1);
        r1 = x_lc3_decode(d[1], lost ? NULL : f[0], nb, 3, o[1], 1);
        if (ok && (r0 != r1 || memcmp(o[0], o[1], ns * 4))) {
            report("reduced build (plus=%d hr=%d) %s: another output of "
                "frame %d of %d bytes, letters %s %s, return %d/%d", PLUS, HR,
                s, t, nb, PNAME[l], PNAME[m], r0, r1);
            ok = false;
        }
        state_add(hash64(f[0], nb, hash64(o[0], ns * 4, i)));
    }
    /* Refused sizes */
    static const int out[] = { -1, 0, 19, 401, 626, 211, 376, 77, 46, 53, 20, 400, 625 };
    for (int k = 0; ok && k < COUNT(out); k++) {
        if (lc3_encode(le, 1, p24, 1, out[k], f[0]) !=
            x_lc3_encode(e[1], 1, p24, 1, out[k], f[1]) ||
            lc3_decode(ld, f[0], out[k], 0, o[0], 1) !=
            x_lc3_decode(d[1], f[0], out[k], 0, o[1], 1)) {
            report("reduced build %s: size %d not refused alike", s, out[k]);
            ok = false;
        }
    }
    free(e[0]), free(e[1]), free(d[0]), free(d[1]);
    R.validated++;
    return ok;
}

#define PERCFG NPCM

int main(int argc, char **argv)
{
    run_init(argc, argv);
    cfg_init();
    while (work_next((long)NCFG * PERCFG + 1)) {
        watchdog(R.thorough ? 800 : 60);
        if (!R.item) { queries(); continue; }
        int i = (R.item - 1) / PERCFG, l = (R.item - 1) % PERCFG;
        if (!supported(CFG[i].hr, CFG[i].dt)) continue;
        int n = R.thorough ? NPCM * 12 : 12;
        for (int k = 0; k < n; k++)
            if (!history(i, l, R.thorough ? k % NPCM : (l * 5 + k * 3 + i) % NPCM,
                    R.thorough ? k / NPCM : k)) break;
    }
    return run_end();
}
