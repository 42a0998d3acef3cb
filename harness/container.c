/*
 * C15 - Containers: every header of bounded families, written, read back,
 * truncated everywhere and altered everywhere, from files and from pipes.
 */
#define _GNU_SOURCE
#include "common.h"
#include "wave.h"
#include "lc3bin.h"

/* --- Memory files --- */

static struct mem { const uint8_t *p; size_t n, pos; bool pipe; } M;

static ssize_t m_read(void *c, char *b, size_t n)
{
    struct mem *m = c;
    if (m->pos >= m->n) return 0;
    n = MIN(n, m->n - m->pos);
    memcpy(b, m->p + m->pos, n);
    m->pos += n;
    return n;
}

static int m_seek(void *c, off64_t *o, int whence)
{
    struct mem *m = c;
    int64_t p = *o + (whence == SEEK_SET ? 0 : whence == SEEK_CUR ?
        (int64_t)m->pos : (int64_t)m->n);
    if (p < 0) return -1;
    m->pos = *o = p;
    return 0;
}

static FILE *m_open(const uint8_t *p, size_t n, bool pipe)
{
    M = (struct mem){ p, n, 0, pipe };
    cookie_io_functions_t f = { .read = m_read, .seek = pipe ? NULL : m_seek };
    return fopencookie(&M, "rb", f);
}

/* Next bytes are those at `pos` */
static bool at(FILE *fp, const uint8_t *p, size_t n, size_t pos)
{
    for (size_t i = pos; i < n && i < pos + 16; i++)
        if (getc(fp) != p[i]) return false;
    return n > pos + 16 || getc(fp) == EOF;
}

static void le16(uint8_t **p, unsigned v) { *(*p)++ = v, *(*p)++ = v >> 8; }
static void le32(uint8_t **p, uint32_t v) { le16(p, v), le16(p, v >> 16); }

/* Bytes written by a call */
static uint8_t *W; static size_t WN;
#define WRITTEN(call) do { \
    FILE *fp = open_memstream((char **)&W, &WN); call; fclose(fp); } while (0)

/* --- Coded files --- */

static const int DT[] = { 2500, 5000, 7500, 10000 };
static const int SR[] = { 8000, 16000, 24000, 32000, 48000, 96000 };

struct bin { int dt, sr, hr, nch, rate; uint32_t ns; };

static size_t bin_model(const struct bin *h, uint8_t *b)
{
    uint8_t *p = b;
    le16(&p, 0xcc1c), le16(&p, h->hr ? 20 : 18), le16(&p, h->sr / 100);
    le16(&p, h->rate / 100), le16(&p, h->nch), le16(&p, h->dt / 10);
    le16(&p, 0), le32(&p, h->ns);
    if (h->hr) le16(&p, 1);
    return p - b;
}

static bool bin_read(const uint8_t *b, size_t n, bool pipe, const struct bin *h,
    int want, size_t pos)
{
    int dt = -7, sr = -7, nch = -7, ns = -7; bool hr = false;
    watchdog(20), R.transitions++;
    FILE *fp = m_open(b, n, pipe);
    int r = lc3bin_read_header(fp, &dt, &sr, &hr, &nch, &ns);
    bool ok = r == want;
    if (!ok) report("lc3bin_read_header returns %d instead of %d", r, want);
    if (ok && !r && (dt != h->dt || sr != h->sr || hr != h->hr || nch != h->nch ||
            (uint32_t)ns != h->ns)) {
        report("lc3bin_read_header: %d us %d Hz hr=%d, %d channels, %u samples",
            dt, sr, hr, nch, (unsigned)ns);
        ok = false;
    }
    if (ok && !r && !at(fp, b, n, pos)) {
        report("lc3bin_read_header: not at the end of the header");
        ok = false;
    }
    fclose(fp);
    R.validated += ok;
    return ok;
}

static bool bin_headers(int d)
{
    static const int rates[] = { 0, 16000, 24800, 64000, 96100, 320000, 500000,
        672000, 1344000, 6553500 };
    uint8_t b[128];

    for (int s = 0; s < COUNT(SR); s++)
    for (int hr = 0; hr < 2; hr++)
    for (int nch = 1; nch <= 9; nch++)
    for (int r = 0; r < COUNT(rates); r++)
    for (int k = 0; k < 3 * 33; k++) {
        uint32_t ns = (uint32_t)((1ull << k / 3) + k % 3 - 1);
        struct bin h = { DT[d], SR[s], hr, nch == 9 ? 65535 : nch, rates[r], ns };
        trace("C15 coded header: %d us %d Hz hr=%d nch=%d rate=%d ns=%u",
            h.dt, h.sr, hr, h.nch, h.rate, ns);
        size_t n = bin_model(&h, b);
        WRITTEN(lc3bin_write_header(fp, h.dt, h.sr, hr, h.rate, h.nch, (int)ns));
        bool ok = WN == n && !memcmp(W, b, n);
        free(W);
        if (!ok) { report("lc3bin_write_header: other bytes"); return false; }
        state_add(hash64(b, n, 0));
        memset(b + n, 0x42, 5);
        if (!bin_read(b, n + k % 5, k & 1, &h, 0, n)) return false;
    }
    return true;
}

/* Larger headers, truncations, alterations */
static bool bin_layouts(void)
{
    uint8_t b[256];
    for (int hr = 0; hr < 2; hr++)
    for (int v = 0; v < 3; v++) {
        struct bin h = { DT[v+1], SR[v+3], hr, v + 1, 96000, 70000u * v + 3 };
        size_t n = bin_model(&h, b);
        for (int i = n; i < 256; i++) b[i] = 0x80 + i;

        for (int size = 0; size <= 64; size++)
        for (int pipe = 0; pipe < 2; pipe++)
        for (int len = 0; len <= 80; len++) {
            b[2] = size;
            trace("C15 coded header of %d bytes, hr=%d, file of %d%s", size, hr,
                len, pipe ? ", pipe" : "");
            int field = size >= 20 ? 20 : 18;
            struct bin g = h;
            if (size < 20) g.hr = 0;
            else if (!hr) g.hr = (b[18] = 0, b[19] = 0);
            /* The end of a larger header can miss */
            bool ok = size >= 18 && len >= field;
            if (ok && len < size) continue;
            uint8_t *e = malloc(len + 1);
            memcpy(e, b, len);
            ok = bin_read(e, len, pipe, &g, ok ? 0 : -1, size);
            free(e);
            if (!ok) return false;
        }
        n = bin_model(&h, b);
        for (int i = 0; i < (int)n; i++)
        for (int x = 1; x < 256; x++) {
            trace("C15 coded header hr=%d, byte %d ^ %02x", hr, i, x);
            uint8_t c[32];
            memcpy(c, b, n), memset(c + n, 0x11, 32 - n);
            c[i] ^= x;
            if (i == 2 || i == 3) {         /* size */
                int size = c[2] | c[3] << 8;
                if (size >= 18) continue;
            }
            struct bin g = h;
            g.sr = (c[4] | c[5] << 8) * 100, g.nch = c[8] | c[9] << 8;
            g.dt = (c[10] | c[11] << 8) * 10;
            g.ns = c[14] | c[15] << 8 | c[16] << 16 | (uint32_t)c[17] << 24;
            if (hr) g.hr = c[18] || c[19];
            bool bad = i < 4 || i == 12 || i == 13;
            if (!bin_read(c, 32, x & 1, &g, bad ? -1 : 0, n)) return false;
        }
    }
    return true;
}

/* Blocks: all sizes, sequences, truncations */
static bool bin_blocks(int nch)
{
    int max = nch * 625;
    uint8_t *b = malloc(4 * (max + 16)), *want = malloc(max + 16);
    bool ok = true;
    for (int n = 1; ok && n <= max; n++) {
        trace("C15 %d channels, block of %d bytes", nch, n);
        for (int i = 0; i < n; i++) want[i] = i * 7 + n;
        int m = (n * 31) % max + 1;
        WRITTEN((lc3bin_write_data(fp, want, n), lc3bin_write_data(fp, want, m)));
        uint8_t *w = W; size_t wn = WN;
        uint8_t *p = b; le16(&p, n);
        ok = wn == (size_t)n + m + 4 && !memcmp(w, b, 2) &&
            !memcmp(w + 2, want, n);
        if (!ok) report("lc3bin_write_data: other bytes");
        uint8_t *e = malloc(max);       /* exact */
        FILE *fp = m_open(w, wn, n & 1);
        int r = lc3bin_read_data(fp, nch, e);
        if (ok && (r != n || memcmp(e, want, n)))
            report("lc3bin_read_data returns %d for %d", r, n), ok = false;
        r = lc3bin_read_data(fp, nch, e);
        if (ok && (r != m || memcmp(e, want, MIN(m, n))))
            report("lc3bin_read_data returns %d for %d", r, m), ok = false;
        r = lc3bin_read_data(fp, nch, e);
        if (ok && r != -1)
            report("lc3bin_read_data returns %d at end", r), ok = false;
        fclose(fp);
        R.transitions += 5, R.validated++;
        /* Truncated */
        for (int t = 0; ok && t < n + 2; t += 1 + (t > 4 && t < n - 3) * 17) {
            fp = m_open(w, t, n & 1);
            r = lc3bin_read_data(fp, nch, e);
            if (r != -1) report("block of %d truncated at %d: returns %d", n, t,
                r), ok = false;
            fclose(fp);
            R.transitions++;
        }
        free(e), free(w);
    }
    /* Refused sizes */
    for (int n = max; ok && n < 65536; n++) {
        if (n == max) n = 0;
        trace("C15 %d channels, block of %d bytes", nch, n);
        uint8_t *big = calloc(1, n + 2), *p = big;
        le16(&p, n);
        uint8_t *e = malloc(max);
        FILE *fp = m_open(big, n + 2, false);
        int r = lc3bin_read_data(fp, nch, e);
        if (r > 0 || (n && r != -1))
            report("block of %d bytes: returns %d", n, r), ok = false;
        fclose(fp), free(e), free(big);
        R.transitions++;
        if (!n) n = max;
    }
    free(b), free(want);
    return ok;
}

/* --- Wave files --- */

struct wav { int bits, bytes, sr, nch; uint32_t nframes; };

static bool wav_read(const uint8_t *b, size_t n, bool pipe,
    const struct wav *h, int want, size_t pos)
{
    int bits = -7, bytes = -7, sr = -7, nch = -7, nf = -7;
    watchdog(20), R.transitions++;
    FILE *fp = m_open(b, n, pipe);
    int r = wave_read_header(fp, &bits, &bytes, &sr, &nch, &nf);
    bool ok = want == 1 || r == want;
    if (!ok) report("wave_read_header returns %d instead of %d", r, want);
    if (ok && h && !r && (bits != h->bits || bytes != h->bytes || sr != h->sr ||
            nch != h->nch || (uint32_t)nf != h->nframes)) {
        report("wave_read_header: %d bits in %d, %d Hz, %d channels, %u frames",
            bits, bytes, sr, nch, (unsigned)nf);
        ok = false;
    }
    if (ok && h && !r && !at(fp, b, n, pos)) {
        report("wave_read_header: not at the data");
        ok = false;
    }
    fclose(fp);
    R.validated += ok;
    return ok;
}

/* Layout: size of the format chunk, extra chunks */
static size_t wav_model(const struct wav *h, int fmt, int fsize,
    const int *extra, int nextra, uint8_t *b)
{
    uint8_t *p = b;
    memcpy(p, "RIFF", 4), p += 4;
    le32(&p, 0);
    memcpy(p, "WAVEfmt ", 8), p += 8;
    le32(&p, fsize), le16(&p, fmt), le16(&p, h->nch), le32(&p, h->sr);
    le32(&p, h->sr * h->nch * h->bytes), le16(&p, h->nch * h->bytes);
    le16(&p, h->bits);
    for (int i = 16; i < fsize + (fsize & 1); i++) *p++ = "data!"[i % 5];
    for (int k = 0; k < nextra; k++) {
        memcpy(p, k & 1 ? "fact" : "LIST", 4), p += 4;
        le32(&p, extra[k]);
        for (int i = 0; i < extra[k] + (extra[k] & 1); i++)
            *p++ = "dataRIFF"[i & 7];
    }
    memcpy(p, "data", 4), p += 4;
    le32(&p, h->nframes * h->nch * h->bytes);
    uint8_t *q = b + 4;
    le32(&q, p - b - 8 + h->nframes * h->nch * h->bytes);
    return p - b;
}

static const struct wav WV[] = {
    { 16, 2, 48000, 1, 1000 }, { 16, 2, 8000, 2, 0 }, { 24, 3, 96000, 2, 77777 },
    { 24, 4, 32000, 1, 1 }, { 24, 3, 24000, 5, 3 }, { 16, 2, 16000, 8, 0x7ffffff },
};
static const int FS[] = { 16, 18, 20, 40, 17, 19, 22, 64 };
static const int XS[] = { 0, 1, 2, 3, 7, 8, 30, 255, 4000 };

static bool wav_layouts(int f)
{
    uint8_t b[16384], *e;
    for (int v = 0; v < COUNT(WV); v++)
    for (int ext = 0; ext < 2; ext++)
    for (int pipe = 0; pipe < 2; pipe++)
    for (int nx = 0; nx <= 2; nx++)
    for (int x = 0; x < (nx ? nx > 1 ? COUNT(XS) * COUNT(XS) : COUNT(XS) : 1);
            x++) {
        int xs[2] = { XS[x % COUNT(XS)], XS[x / COUNT(XS)] };
        const struct wav *h = &WV[v];
        size_t n = wav_model(h, ext ? 0xfffe : 1, FS[f], xs, nx, b);
        for (int i = 0; i < 64; i++) b[n + i] = i;
        trace("C15 wave: fmt %d bytes, %d chunks of %d %d bytes, sample format "
            "%d%s", FS[f], nx, xs[0], xs[1], v, pipe ? ", pipe" : "");
        state_add(hash64(b, n, 0));
        if (!wav_read(b, n + 64, pipe, h, 0, n)) return false;
        if (!wav_read(b, n, pipe, h, 0, n)) return false;
        /* Truncated anywhere */
        for (size_t t = 0; t < n; t += 1 + (n > 600 && t > 300 && t + 300 < n) * 53) {
            trace("C15 wave: fmt %d bytes, %d chunks of %d %d bytes, truncated "
                "at %zu%s", FS[f], nx, xs[0], xs[1], t, pipe ? ", pipe" : "");
            e = malloc(t + 1);
            memcpy(e, b, t);
            bool ok = wav_read(e, t, pipe, NULL, -1, 0);
            free(e);
            if (!ok) return false;
        }
    }
    return true;
}

/* Each byte altered: refused when it makes the header invalid */
static bool wav_alter(int f)
{
    uint8_t b[512], c[512];
    for (int v = 0; v < COUNT(WV); v++)
    for (int nx = 0; nx < 2; nx++) {
        int xs[1] = { 11 };
        struct wav h = WV[v];
        size_t n = wav_model(&h, 1, FS[f], xs, nx, b);
        int fend = 20 + FS[f] + (FS[f] & 1), xend = fend + (nx ? 20 : 0);
        for (size_t i = 0; i < n; i++)
        for (int x = 1; x < 256; x++) {
            trace("C15 wave: fmt %d bytes, %d chunk, sample format %d, byte %zu "
                "^ %02x", FS[f], nx, v, i, x);
            memcpy(c, b, n);
            for (size_t k = n; k < 512; k++) c[k] = 0x20;
            c[i] ^= x;
            struct wav g = h;
            int want = 1;
            bool chk = false;       /* right if accepted */
            uint32_t br = c[28] | c[29] << 8 | c[30] << 16 | (uint32_t)c[31] << 24;
            uint32_t sr = c[24] | c[25] << 8 | c[26] << 16 | (uint32_t)c[27] << 24;
            int fr = c[32] | c[33] << 8, nch = c[22] | c[23] << 8;
            if (i < 4 || (i >= 8 && i < 16)) want = -1;
            else if (i < 8) chk = true;
            else if (i < 20) {
                uint32_t s = c[16] | c[17] << 8 | c[18] << 16 |
                    (uint32_t)c[19] << 24;
                if (s < 16) want = -1;
                else if (s + (s & 1) == FS[f] + (FS[f] & 1u)) want = 0;
            } else if (i < 22) want = (c[20] | c[21] << 8) == 0xfffe ? 0 : -1;
            else if (i < 24) {
                if (!nch) want = -1;
                else want = fr % nch ? 1 : 0, g.nch = nch, g.bytes = fr / nch;
            } else if (i < 34) want = br != sr * fr || !sr || !fr ? -1 : 1;
            else if (i < 36) g.bits = c[34] | c[35] << 8, chk = true;
            else if ((int)i < fend) want = 0;
            else if ((int)i < fend + 4 && nx) want = 0;     /* other chunk */
            else if ((int)i < fend + 8 && nx) want = 1;
            else if ((int)i < xend) want = 0;
            else if ((int)i < xend + 4) want = -1;          /* no data */
            else g.nframes = (c[n-4] | c[n-3] << 8 | c[n-2] << 16 |
                (uint32_t)c[n-1] << 24) / fr, want = 0;
            if (!wav_read(c, 512, x & 1, want && !chk ? NULL : &g, want, n))
                return false;
        }
    }
    return true;
}

/* Written headers */
static bool wav_write(void)
{
    static const int bb[][2] = { { 16, 2 }, { 24, 3 } };
    uint8_t b[64];
    for (int k = 0; k < 2; k++)
    for (int s = 0; s < COUNT(SR); s++)
    for (int nch = 1; nch <= 8; nch++)
    for (int i = 0; i < 3 * 31; i++) {
        int64_t ns = (1ll << i / 3) + i % 3 - 1;
        struct wav h = { bb[k][0], bb[k][1], SR[s], nch, ns };
        if (ns * nch * h.bytes > 0xffffffffll - 36) continue;
        trace("C15 wave header: %d bits %d Hz %d channels %lld frames", h.bits,
            h.sr, nch, (long long)ns);
        size_t n = wav_model(&h, 1, 16, NULL, 0, b);
        WRITTEN(wave_write_header(fp, h.bits, h.bytes, h.sr, nch, ns));
        bool ok = WN == n && !memcmp(W, b, n);
        free(W);
        if (!ok) { report("wave_write_header: other bytes"); return false; }
        if (!wav_read(b, n, i & 1, &h, 0, n)) return false;
    }
    /* Samples */
    for (int bytes = 2; bytes <= 4; bytes++)
    for (int nch = 1; nch <= 3; nch++)
    for (int off = 0; off < 9; off++)
    for (int cnt = 0; cnt + off <= 10; cnt++) {
        trace("C15 samples of %d bytes, %d channels, %d from %d", bytes, nch,
            cnt, off);
        int z = nch * 10 * bytes, sz = nch * bytes;
        uint8_t *p = malloc(z), *q = malloc(sz * cnt + 1);
        for (int i = 0; i < z; i++) p[i] = i * 5 + 1;
        WRITTEN(wave_write_pcm(fp, bytes, p, nch, off, cnt));
        bool ok = WN == (size_t)sz * cnt && !memcmp(W, p + off * sz, sz * cnt);
        for (int t = 0; ok && t <= sz * cnt; t++) {
            FILE *fp = m_open(W, t, t & 1);
            int r = wave_read_pcm(fp, bytes, nch, cnt, q);
            ok = r == t / sz && !memcmp(q, p + off * sz, r * sz);
            fclose(fp);
            R.transitions++;
        }
        free(W), free(p), free(q);
        R.validated++;
        if (!ok) { report("wave samples are not those written"); return false; }
    }
    return true;
}

int main(int argc, char **argv)
{
    run_init(argc, argv);
    int n = 4 + 1 + 3 + 1 + 2 * COUNT(FS);
    while (work_next(n)) {
        int k = R.item;
        trace("C15");
        if (k < 4) bin_headers(k);
        else if (k < 5) bin_layouts();
        else if (k < 8) bin_blocks(k - 4);
        else if (k < 9) wav_write();
        else if (k < 9 + COUNT(FS)) wav_layouts(k - 9);
        else wav_alter(k - 9 - COUNT(FS));
    }
    sample("%s", R.trace);
    return run_end();
}
