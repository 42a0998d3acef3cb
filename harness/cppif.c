/*
 * C12 - The C++ interface in lock-step with one C context per channel:
 * all the words of calls up to a depth, for each configuration and number
 * of channels.
 */
#include "common.h"

void *ce_new(int dt, int sr, int pcm, int nch, int hr);
void *cd_new(int dt, int sr, int pcm, int nch, int hr);
void ce_del(void *h), cd_del(void *h), ce_reset(void *h), cd_reset(void *h);
void ce_noltpf(void *h);
int ce_encode(void *h, int fmt, const void *x, int n, uint8_t *out);
int cd_decode(void *h, const uint8_t *in, int n, int fmt, void *x);
int ce_query(void *h, int q, int v), cd_query(void *h, int q, int v);

#define MAXCH 8
#define NT 4
#define GUARD 64
static const int BPS[] = { 2, 4, 3, 4, 2, 4, 4, 4 };
static const int CFMT[] = { 0, 1, 2, 3, 0, 1, 3, 0 };

static const struct cfg *c;
static int ci, ns, nmin, nmax, nch;
static char cs[80];

/* The input blocks, in each format, interleaved, exact memory */
static void *pcm_in[NT][4];
/* Encoded blocks: good, one channel corrupted, wide */
static uint8_t *blk[NT][3];
static int blkn[3];

static uint8_t *cm[MAXCH];          /* contexts of the model */
static uint8_t *out_a, *out_b;
static unsigned outz;

static int share(int n, int ch) { return n / nch + (ch < n % nch); }

static void csetup(bool dec)
{
    for (int i = 0; i < nch; i++)
        if (dec) lc3_hr_setup_decoder(c->hr, c->dt, c->sr, c->pcm, cm[i]);
        else     lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, cm[i]);
}

static int merge(int r, int s) { return r < 0 || s < 0 ? -1 : r || s; }

static int model_encode(int fmt, const void *x, int n, uint8_t *out)
{
    int r = 0;
    for (int i = 0; i < nch; i++) {
        int s = share(n, i);
        r = merge(r, lc3_encode((void *)cm[i], CFMT[fmt],
            (uint8_t *)x + i * BPS[fmt], nch, s, out));
        out += s;
    }
    return r;
}

static int model_decode(const uint8_t *in, int n, int fmt, uint8_t *x)
{
    int r = 0;
    for (int i = 0; i < nch; i++) {
        int s = share(n, i);
        r = merge(r, lc3_decode((void *)cm[i], in, s, CFMT[fmt],
            x + i * BPS[fmt], nch));
        if (in) in += s;
    }
    return r;
}

/* --- Alphabets --- */

static int esizes[8], nes, dsizes;

enum { O_RESET = 100, O_NOLTPF };

static const int EOPS_BASE[] = { 4, 5, 6, 0x10, 0x21, 0x32, 0x43, 0x50, 0x65,
    O_RESET, O_NOLTPF };

/* Low digit: format, high digit: index of the size */
static bool enc_op(void *h, int op, int t)
{
    R.transitions++, watchdog(20);
    if (op == O_RESET) { ce_reset(h), csetup(false); return true; }
    if (op == O_NOLTPF) {
        ce_noltpf(h);
        for (int i = 0; i < nch; i++)
            lc3_encoder_disable_ltpf((void *)cm[i]);
        return true;
    }
    int fmt = op & 0xf, n = esizes[op >> 4];
    /* Exact room, for the sanitizer, then a guard */
    uint8_t *ea = malloc(n ? n : 1);
    int m = n + GUARD;
    memset(out_a, 0x5a, m), memset(out_b, 0x5a, m), memset(ea, 0x5a, n);
    int ra = ce_encode(h, fmt, pcm_in[t][CFMT[fmt]], n, ea);
    memcpy(out_a, ea, n);
    free(ea);
    int rb = model_encode(fmt, pcm_in[t][CFMT[fmt]], n, out_b);
    state_add(hash64(out_b, n, ci * 16 + nch));
    if (ra != rb || memcmp(out_a, out_b, m)) {
        report("%s: C++ encoder, op %02x at %d: returns %d/%d, or other bytes",
            cs, op, t, ra, rb);
        return false;
    }
    return true;
}

/* Low digit: format, high digit: block (3: lost, 4: lost with a size,
 * 5: refused size, 6: size 0) */
static const int DOPS_BASE[] = { 0x04, 0x05, 0x06, 0x00, 0x01, 0x02, 0x03, 0x15,
    0x25, 0x34, 0x45, 0x55, 0x14, 0x46, O_RESET };

static bool dec_op(void *h, int op, int t)
{
    R.transitions++, watchdog(20);
    if (op == O_RESET) { cd_reset(h), csetup(true); return true; }
    int fmt = op & 0xf, b = op >> 4;
    const uint8_t *in = b < 3 ? blk[t][b] : b < 5 ? NULL : blk[t][0];
    int n = b < 3 ? blkn[b] : b == 3 ? 0 : b == 4 ? blkn[0] : 19 * nch;
    int m = nch * ns * BPS[fmt];
    uint8_t *ea = malloc(m);
    memset(ea, 0x77, m), memset(out_b, 0x77, m);
    int ra = cd_decode(h, in, n, fmt, ea);
    int rb = model_decode(in, n, fmt, out_b);
    bool ok = ra == rb && !memcmp(ea, out_b, m);
    free(ea);
    state_add(hash64(out_b, m, ci * 16 + nch + 8));
    if (!ok)
        report("%s: C++ decoder, op %02x at %d: returns %d/%d, or other samples",
            cs, op, t, ra, rb);
    return ok;
}

static bool words(bool dec, int depth)
{
    const int *ops = dec ? DOPS_BASE : EOPS_BASE;
    int nops = dec ? COUNT(DOPS_BASE) : COUNT(EOPS_BASE);
    long nw = 1;
    for (int i = 0; i < depth; i++) nw *= nops;

    for (long w = 0; w < nw; w++) {
        int word[8];
        long v = w;
        for (int i = depth-1; i >= 0; i--) word[i] = ops[v % nops], v /= nops;
        trace("C12 %s %s %02x %02x %02x %02x", cs, dec ? "decoder" : "encoder",
            word[0], word[1], word[2], depth > 3 ? word[3] : 0);
        void *h = dec ? cd_new(c->dt, c->sr, c->pcm == c->sr && w % 2 ? 0 :
            c->pcm, nch, c->hr) : ce_new(c->dt, c->sr, c->pcm == c->sr && w % 2
            ? 0 : c->pcm, nch, c->hr);
        csetup(dec);
        bool ok = true;
        for (int i = 0; ok && i < depth; i++)
            ok = (dec ? dec_op : enc_op)(h, word[i], i);
        if (dec) cd_del(h); else ce_del(h);
        if (!ok) return false;
        R.validated++;
    }
    return true;
}

/* --- Inputs --- */

static void prepare(void)
{
    static int32_t x[960];
    static uint8_t me[65536];
    for (int t = 0; t < NT; t++) {
        for (int f = 0; f < 4; f++)
            pcm_in[t][f] = malloc(nch * ns * BPS[f]);
        for (int i = 0; i < nch; i++) {
            pcm_letter((P_VOICE + 5*i + t/3) % NPCM, c->pcm, ns, t, x);
            for (int k = 0; k < ns; k++) {
                int j = k * nch + i;
                ((int16_t *)pcm_in[t][0])[j] = x[k] >> 8;
                ((int32_t *)pcm_in[t][1])[j] = x[k];
                memcpy((uint8_t *)pcm_in[t][2] + 3*j, &x[k], 3);
                ((float *)pcm_in[t][3])[j] = x[k] / 8388608.f;
            }
        }
    }
    /* Blocks for the decoder, from C contexts */
    int n0 = nch * ((nmin + nmax) / 2) + nch - 1, n2 = nch * nmax;
    blkn[0] = blkn[1] = n0, blkn[2] = n2;
    for (int t = 0; t < NT; t++)
        for (int b = 0; b < 3; b++) {
            uint8_t *p = blk[t][b] = malloc(blkn[b]);
            for (int i = 0; i < nch; i++) {
                int s = share(blkn[b], i);
                memset(me, 0, sizeof(me));
                void *e = lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, me);
                for (int k = 0; k <= t; k++)
                    lc3_encode(e, 1, (int32_t *)pcm_in[k][1] + i, nch, s, p);
                p += s;
            }
            if (b == 1)     /* last bytes of one channel */
                memset(blk[t][b] + share(n0, 0) - 6 +
                    (nch > 1 ? share(n0, 1) : 0), 0xff, 6);
        }
    nes = 0;
    esizes[nes++] = nch * ((nmin + nmax) / 2) + nch / 2;
    esizes[nes++] = nch * nmax;
    esizes[nes++] = nch * nmin;
    esizes[nes++] = nch * nmin + 1;
    esizes[nes++] = nch * nmax - 1;
    esizes[nes++] = nch * nmax + 1;         /* first channel is refused */
    esizes[nes++] = nch * 20 - 1;           /* last one refused */
    outz = nch * 8 * (nmax + 960) + 4096;
    out_a = malloc(outz), out_b = malloc(outz);
    for (int i = 0; i < nch; i++) cm[i] = malloc(65536);
}

static void release(void)
{
    for (int t = 0; t < NT; t++) {
        for (int f = 0; f < 4; f++) free(pcm_in[t][f]);
        for (int b = 0; b < 3; b++) free(blk[t][b]);
    }
    for (int i = 0; i < nch; i++) free(cm[i]);
    free(out_a), free(out_b);
}

/* --- Queries and unsupported parameters --- */

static bool queries(void)
{
    static const int dts[] = { 2500, 5000, 7500, 10000, 0, -1, 1000, 12500,
        0x7fffffff };
    static const int srs[] = { 8000, 16000, 24000, 32000, 48000, 96000, 44100, 1, 2,
        8001, 0, -1, -48000 };
    static const int vals[] = { 0, 1, -1, 19, 20, 40, 41, 100, 155, 400, 401,
        625, 1250, 16000, 32000, 64001, 96000, 124800, 320000, 500000, 672000,
        1000000, 0x7fffffff };
    static uint8_t in[2048], out[65536];
    static int32_t x[4 * 960];

    for (int hr = 0; hr < 2; hr++)
    for (int d = 0; d < COUNT(dts); d++)
    for (int s = 0; s < COUNT(srs); s++)
    for (int p = 0; p < COUNT(srs); p++)
    for (int n = 1; n <= 3; n++) {
        int dt = dts[d], sr = srs[s], pcm = srs[p];
        int rp = pcm <= 0 ? sr : pcm;
        trace("C12 hr=%d dt=%d sr=%d pcm=%d nch=%d", hr, dt, sr, pcm, n);
        static uint8_t m[65536];
        bool se = lc3_hr_setup_encoder(hr, dt, sr, pcm, m) != NULL;
        bool sd = lc3_hr_setup_decoder(hr, dt, sr, pcm, m) != NULL;
        void *e = ce_new(dt, sr, pcm, n, hr), *f = cd_new(dt, sr, pcm, n, hr);
        int nb = n * (hr ? 200 : 100);
        R.transitions += 2, R.validated++;

        for (int k = 0; k < 2; k++) {
            memset(out, 0x33, sizeof(out));
            int re = ce_encode(e, 1, x, nb, out);
            if (re != (se ? 0 : -1) || (!se && (out[0] != 0x33 ||
                    out[nb-1] != 0x33))) {
                report("C++ encoder: returns %d, expected %d", re, se ? 0 : -1);
                return false;
            }
            re = ce_encode(e, 7, x, nb, out);
            if (re != -1) {
                report("C++ encoder: format 7 returns %d", re);
                return false;
            }
            memset(out, 0x33, sizeof(out));
            int rd = cd_decode(f, k ? in : NULL, k ? nb : 0, 1, out);
            if (sd ? rd < 0 : rd != -1 || out[0] != 0x33 || out[4*n] != 0x33) {
                report("C++ decoder: returns %d, setup %d", rd, sd);
                return false;
            }
            rd = cd_decode(f, NULL, 0, 7, out);
            if (rd != -1) {
                report("C++ decoder: format 7 returns %d", rd);
                return false;
            }
            ce_noltpf(e), ce_reset(e), cd_reset(f);
        }

        bool ok = true;
        for (int k = 0; k < 2; k++) {
            int (*q)(void *, int, int) = k ? cd_query : ce_query;
            void *h = k ? f : e;
            ok = ok && q(h, 0, 0) == lc3_hr_frame_samples(hr, dt, rp);
            ok = ok && q(h, 1, 0) == lc3_hr_delay_samples(hr, dt, rp);
            for (int v = 0; v < COUNT(vals); v++) {
                ok = ok && q(h, 2, vals[v]) ==
                    lc3_hr_frame_block_bytes(hr, dt, sr, n, vals[v]);
                ok = ok && q(h, 3, vals[v]) ==
                    lc3_hr_resolve_bitrate(hr, dt, sr, vals[v]);
                R.transitions += 2;
            }
            if (!ok) {
                report("C++ %s: a query differs from the C one", k ? "decoder" :
                    "encoder");
                return false;
            }
        }
        ce_del(e), cd_del(f);
    }
    return true;
}

int main(int argc, char **argv)
{
    run_init(argc, argv);
    cfg_init();
    int nn = R.thorough ? 6 : 3;
    static const int CH[] = { 1, 2, 3, 4, 5, 8 };

    while (work_next(1 + 2l * nn * NCFG)) {
        trace("C12");
        if (!R.item) { queries(); continue; }
        int k = R.item - 1;
        bool dec = k & 1;
        nch = CH[k / 2 % nn];
        c = &CFG[ci = k / 2 / nn];
#ifdef SMALL
        if (!R.thorough && (ci + nch) % 3) continue;
#endif
        ns = cfg_ns(c), nmin = cfg_min(c), nmax = cfg_max(c);
        char s[64];
        cfg_str(c, s);
        sprintf(cs, "%s, %d channels", s, nch);
        prepare();
#ifdef SMALL
        words(dec, 2);
#else
        words(dec, R.thorough ? (nch <= 2 ? 4 : 3) : 3);
#endif
        release();
    }
    sample("C12 %s", R.trace);
    return run_end();
}
