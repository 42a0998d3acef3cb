/*
 * C08 - Queries: exhaustive enumeration of the arguments, against formulas
 * written from the documentation of the interface.
 * -DSMALL  reduced ranges, for the instrumented build
 */
#include "common.h"
#include <limits.h>

static const int DTS[] = { 2500, 5000, 7500, 10000 };
static const int SRS[] = { 8000, 16000, 24000, 32000, 48000, 96000 };

static bool ok_dt(int hr, long dt)
{
    return dt == 2500 || dt == 5000 || (!hr && dt == 7500) || dt == 10000;
}

static bool ok_sr(int hr, long sr)
{
    return hr ? sr == 48000 || sr == 96000 : sr == 8000 || sr == 16000 ||
        sr == 24000 || sr == 32000 || sr == 48000;
}

static int m_min(int hr, int dt, int sr)
{
    struct cfg c = { hr, dt, sr, sr };
    return cfg_min(&c);
}

static int m_max(int hr, int dt, int sr)
{
    struct cfg c = { hr, dt, sr, sr };
    return cfg_max(&c);
}

static long m_block(int hr, int dt, int sr, int n, long rate)
{
    if (!ok_dt(hr, dt) || !ok_sr(hr, sr) || n < 1 || n > 8 || rate < 0)
        return -1;
    long b = (__int128)rate * dt / 8000000;
    return b < (long)n * m_min(hr, dt, sr) ? (long)n * m_min(hr, dt, sr) :
           b > (long)n * m_max(hr, dt, sr) ? (long)n * m_max(hr, dt, sr) : b;
}

static long m_rate(int hr, int dt, int sr, long bytes)
{
    if (!ok_dt(hr, dt) || !ok_sr(hr, sr) || bytes < 0)
        return -1;
    long r = ((__int128)bytes * 8000000 + dt - 1) / dt;
    return r > INT_MAX ? INT_MAX : r;
}

static long m_samples(int hr, long dt, long sr)
{
    return ok_dt(hr, dt) && ok_sr(hr, sr) ? dt * sr / 1000000 : -1;
}

static long m_delay(int hr, long dt, long sr)
{
    return ok_dt(hr, dt) && ok_sr(hr, sr) ?
        (dt == 7500 ? 4 * sr / 1000 : 5 * sr / 2000) : -1;
}

static bool fail(const char *f, int hr, long dt, long sr, long a, long b,
    long got, long want)
{
    report("%s(hr=%d, dt=%ld, sr=%ld, %ld, %ld) is %ld instead of %ld",
        f, hr, dt, sr, a, b, got, want);
    return false;
}

#define EQ(f, a, b, got, want) do { \
    long g_ = (got), w_ = (want); \
    if (g_ != w_) return fail(f, hr, dt, sr, a, b, g_, w_); } while (0)

static const int EXT[] = { INT_MIN, INT_MIN+1, -1000000, -2, -1, 0, 1,
    INT_MAX, INT_MAX-1, INT_MAX-2, 1<<30, (1<<30)-1, (1<<29)+1, 1<<28,
    5376000, 5375999, 5376001, 672000, 672001, 715827882, 715827883, 715827884,
    1431655765, 1431655766, 671088, 671089, 1342177, 536870911, 536870912,
    2013265, 2684354, 2684355, 67108863, 67108864 };

/* Durations and rates around and far from the supported ones */
static bool tuple(int hr, int dt, int sr)
{
    R.transitions += 4;
    EQ("lc3_hr_frame_samples", 0, 0, lc3_hr_frame_samples(hr, dt, sr),
        m_samples(hr, dt, sr));
    EQ("lc3_hr_delay_samples", 0, 0, lc3_hr_delay_samples(hr, dt, sr),
        m_delay(hr, dt, sr));
    bool ok = ok_dt(hr, dt) && ok_sr(hr, sr);
    EQ("lc3_hr_encoder_size > 0", 0, 0, lc3_hr_encoder_size(hr, dt, sr) > 0, ok);
    EQ("lc3_hr_decoder_size > 0", 0, 0, lc3_hr_decoder_size(hr, dt, sr) > 0, ok);
    EQ("lc3_hr_frame_bytes", 0, 64000, lc3_hr_frame_bytes(hr, dt, sr, 64000),
        m_block(hr, dt, sr, 1, 64000));
    EQ("lc3_hr_resolve_bitrate", 100, 0, lc3_hr_resolve_bitrate(hr, dt, sr, 100),
        m_rate(hr, dt, sr, 100));
    EQ("LC3_HR_CHECK_SR_HZ", 0, 0, !!LC3_HR_CHECK_SR_HZ(hr, sr), ok_sr(hr, sr));
    if (hr) return true;
    EQ("LC3_CHECK_DT_US", 0, 0, !!LC3_CHECK_DT_US(dt), ok_dt(0, dt));
    EQ("LC3_CHECK_SR_HZ", 0, 0, !!LC3_CHECK_SR_HZ(sr), ok_sr(0, sr));
    EQ("lc3_frame_samples", 0, 0, lc3_frame_samples(dt, sr), m_samples(0, dt, sr));
    EQ("lc3_delay_samples", 0, 0, lc3_delay_samples(dt, sr), m_delay(0, dt, sr));
    EQ("lc3_encoder_size", 0, 0, lc3_encoder_size(dt, sr),
        lc3_hr_encoder_size(0, dt, sr));
    EQ("lc3_decoder_size", 0, 0, lc3_decoder_size(dt, sr),
        lc3_hr_decoder_size(0, dt, sr));
    R.transitions += 4;
    return true;
}

static bool tuples(int hr, int k)
{
    /* k 0: around all, 1: all durations, 2: all rates (thorough) */
    if (k == 0) {
        for (int i = -1; i < COUNT(DTS); i++)
        for (int j = -1; j < COUNT(SRS); j++)
        for (int x = -300; x <= 300; x++)
        for (int y = -300; y <= 300; y++)
            if (!tuple(hr, (i < 0 ? 0 : DTS[i]) + x, (j < 0 ? 0 : SRS[j]) + y))
                return false;
        for (int i = 0; i < COUNT(EXT); i++)
            for (int j = 0; j < COUNT(EXT); j++)
                if (!tuple(hr, EXT[i], EXT[j])) return false;
        return true;
    }
    static const int some[] = { 0, 8000, 44100, 48000, 96000, 5000, 7500, 10000 };
#ifdef SMALL
    long a = -70000, b = 70000, st = 1;
#else
    long a = R.thorough ? INT_MIN : -100000, b = R.thorough ? INT_MAX : 20000000,
        st = 1;
#endif
    for (long v = a; v <= b; v += st)
        for (int s = 0; s < COUNT(some); s++)
            if (!(k == 1 ? tuple(hr, v, some[s]) : tuple(hr, some[s], v)))
                return false;
    return true;
}

/* All bitrates */
static bool rates(int hr, int dt, int sr, int n)
{
#ifdef SMALL
    long a = -1000, b = 700000, st = 13;
#else
    long a = -20000, b = 5400000, st = 1;
    if (R.thorough && n == 1) a = INT_MIN, b = INT_MAX;
#endif
    long last = 0;
    for (long r = a; r <= b; r += st) {
        long v = lc3_hr_frame_block_bytes(hr, dt, sr, n, r);
        R.transitions++;
        EQ("lc3_hr_frame_block_bytes", n, r, v, m_block(hr, dt, sr, n, r));
        if (r >= 0 && v < last) return fail("monotonic", hr, dt, sr, n, r, v, last);
        last = v;
        if (n == 1) EQ("lc3_hr_frame_bytes", 0, r,
            lc3_hr_frame_bytes(hr, dt, sr, r), v);
        if (!hr) EQ("lc3_frame_block_bytes", n, r,
            lc3_frame_block_bytes(dt, n, r), m_block(0, dt, 8000, n, r));
        if (!hr && n == 1) EQ("lc3_frame_bytes", 0, r, lc3_frame_bytes(dt, r),
            m_block(0, dt, 8000, 1, r));
    }
    for (int i = 0; i < COUNT(EXT); i++)
        for (int m = -2; m <= 10; m++) {
            int e = EXT[i];
            EQ("lc3_hr_frame_block_bytes", m, e,
                lc3_hr_frame_block_bytes(hr, dt, sr, m, e),
                m_block(hr, dt, sr, m, e));
            EQ("lc3_hr_frame_block_bytes", e, m * 100000,
                lc3_hr_frame_block_bytes(hr, dt, sr, e, m * 100000),
                m_block(hr, dt, sr, e, m * 100000L));
        }
    return true;
}

/* All sizes */
static bool sizes(int hr, int dt, int sr)
{
#ifdef SMALL
    long a = -1000, b = 70000;
#else
    long a = -100000, b = 20000000;
    if (R.thorough) a = INT_MIN, b = INT_MAX;
#endif
    long last = 0;
    for (long n = a; n <= b; n++) {
        long v = lc3_hr_resolve_bitrate(hr, dt, sr, n);
        R.transitions++;
        EQ("lc3_hr_resolve_bitrate", n, 0, v, m_rate(hr, dt, sr, n));
        if (n >= 0 && v < last) return fail("monotonic", hr, dt, sr, n, 0, v, last);
        last = v;
        if (!hr) EQ("lc3_resolve_bitrate", n, 0, lc3_resolve_bitrate(dt, n),
            m_rate(0, dt, 8000, n));
        for (int m = 1; ok_dt(hr, dt) && ok_sr(hr, sr) && n > 0 && m <= 8; m++)
            if (n >= m * m_min(hr, dt, sr) && n <= m * m_max(hr, dt, sr))
                EQ("block size from its bitrate", m, n,
                    lc3_hr_frame_block_bytes(hr, dt, sr, m, v), n);
    }
    for (int i = 0; i < COUNT(EXT); i++)
        for (long d = -2; d <= 2; d++) {
            long n = EXT[i] + d;
            if (n > INT_MAX || n < INT_MIN) continue;
            EQ("lc3_hr_resolve_bitrate", n, 0,
                lc3_hr_resolve_bitrate(hr, dt, sr, n), m_rate(hr, dt, sr, n));
        }
    return true;
}

/* Constants of the interface, the bounds over the configurations */
static bool constants(void)
{
    int dt = 0, sr = 0, hr;
    for (hr = 0; hr < 2; hr++) {
        long ns[2] = { INT_MAX, 0 }, nb[2] = { INT_MAX, 0 };
        long br[2] = { INT_MAX, 0 };
        for (int i = 0; i < COUNT(DTS); i++)
        for (int j = 0; j < COUNT(SRS); j++) {
            if (!ok_dt(hr, DTS[i]) || !ok_sr(hr, SRS[j])) continue;
            long n = lc3_hr_frame_samples(hr, DTS[i], SRS[j]);
            ns[0] = n < ns[0] ? n : ns[0], ns[1] = n > ns[1] ? n : ns[1];
            long b0 = lc3_hr_frame_bytes(hr, DTS[i], SRS[j], 0);
            long b1 = lc3_hr_frame_bytes(hr, DTS[i], SRS[j], INT_MAX);
            nb[0] = b0 < nb[0] ? b0 : nb[0], nb[1] = b1 > nb[1] ? b1 : nb[1];
            if (!hr && DTS[i] != 10000) continue;
            b0 = lc3_hr_resolve_bitrate(hr, DTS[i], SRS[j], b0);
            b1 = lc3_hr_resolve_bitrate(hr, DTS[i], SRS[j], b1);
            br[0] = b0 < br[0] ? b0 : br[0], br[1] = b1 > br[1] ? b1 : br[1];
            R.transitions += 5;
        }
        EQ("LC3_[HR_]MAX_FRAME_SAMPLES", 0, 0,
            hr ? LC3_HR_MAX_FRAME_SAMPLES : LC3_MAX_FRAME_SAMPLES, ns[1]);
        EQ("LC3_[HR_]MAX_FRAME_BYTES", 0, 0,
            hr ? LC3_HR_MAX_FRAME_BYTES : LC3_MAX_FRAME_BYTES, nb[1]);
        EQ("LC3_[HR_]MAX_BITRATE", 0, 0,
            hr ? LC3_HR_MAX_BITRATE : LC3_MAX_BITRATE, br[1]);
        if (hr) continue;
        EQ("LC3_MIN_FRAME_SAMPLES", 0, 0, LC3_MIN_FRAME_SAMPLES, ns[0]);
        EQ("LC3_MIN_FRAME_BYTES", 0, 0, LC3_MIN_FRAME_BYTES, nb[0]);
        EQ("LC3_MIN_BITRATE", 0, 0, LC3_MIN_BITRATE, br[0]);
    }
    return true;
}

/* Sizes the encoder accepts */
static bool accept(int i)
{
    const struct cfg *c = &CFG[i];
    int hr = c->hr, dt = c->dt, sr = c->sr;
    static uint8_t out[700];
    static int32_t pcm[960];
    uint8_t *m = malloc(lc3_hr_encoder_size(hr, dt, c->pcm));
    lc3_encoder_t e = lc3_hr_setup_encoder(hr, dt, sr, c->pcm, m);
    int n0 = lc3_hr_frame_bytes(hr, dt, sr, 0);
    int n1 = lc3_hr_frame_bytes(hr, dt, sr, INT_MAX);

    for (int n = -100; n <= 1000; n++) {
        bool in = n >= n0 && n <= n1;
        R.transitions++;
        EQ("lc3_encode", n, c->pcm, lc3_encode(e, LC3_PCM_FORMAT_S24, pcm, 1,
            n, out), in ? 0 : -1);
    }
    for (int k = 0; k < COUNT(EXT); k++)
        if (EXT[k] < n0 || EXT[k] > n1)
            EQ("lc3_encode", EXT[k], c->pcm, lc3_encode(e, LC3_PCM_FORMAT_S24,
                pcm, 1, EXT[k], out), -1);
    free(m);
    return true;
}

int main(int argc, char **argv)
{
    run_init(argc, argv);
    cfg_init();
    int NT = 2*4*6;

    while (work_next(NT * 9 + 6 + NCFG + 1)) {
        watchdog(R.thorough ? 800 : 60);
        long it = R.item;
        trace("C08");
        bool ok;
        if (it < 9 * NT) {
            int hr = it / 9 / 24, dt = DTS[it / 9 / 6 % 4], sr = SRS[it / 9 % 6];
            ok = it % 9 ? rates(hr, dt, sr, it % 9) : sizes(hr, dt, sr);
            if (ok && it == 9*15+1)
                sample("hr=%d dt=%d sr=%d: all bitrates for %ld channels", hr,
                    dt, sr, it % 9);
        } else if ((it -= 9 * NT) < 6)
            ok = tuples(it & 1, it >> 1);
        else if (it < 6 + NCFG)
            ok = accept(it - 6);
        else
            ok = constants();
        if (ok) state_add(it + 1), R.validated++;
    }
    return run_end();
}
