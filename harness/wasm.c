/*
 * C23 - Portability: lock-step of the native build and of the documented
 * WebAssembly (32 bits) build, over histories of encoded, lost and damaged
 * frames. The module is run by node, on the requests of this program.
 *
 *   -DWASM="module" -DSCRIPT="wasmrun.js"
 *   -DEXACT      Both builds compute in strict IEEE arithmetic
 */
#include "common.h"
#include <limits.h>
#include <poll.h>
#include <sys/wait.h>

/* --- Requests to the module --- */

static int to, from;
static uint8_t req[1 << 22], rsp[1 << 22];
static size_t nreq = 4;
static pid_t node;
static uint32_t wbase;

static void node_start(void)
{
    int a[2], b[2];
    if (pipe(a) || pipe(b)) exit(2);
    if (!(node = fork())) {
        dup2(a[0], 0), dup2(b[1], 1);
        close(a[0]), close(a[1]), close(b[0]), close(b[1]);
        execlp("node", "node", "--single-threaded", SCRIPT, WASM, NULL);
        _exit(127);
    }
    close(a[0]), close(b[1]);
    to = a[1], from = b[0];
    signal(SIGPIPE, SIG_IGN);
}

static void u32(uint32_t v) { memcpy(req + nreq, &v, 4), nreq += 4; }

static void q_call(const char *f, int n, ...)
{
    va_list ap;
    va_start(ap, n);
    u32(0), u32(strlen(f)), u32(n);
    memcpy(req + nreq, f, strlen(f)), nreq += strlen(f);
    for (int i = 0; i < n; i++)
        u32(va_arg(ap, int));
    va_end(ap);
}
static void q_write(uint32_t a, const void *p, int n)
    { u32(1), u32(a), u32(n), memcpy(req + nreq, p, n), nreq += n; }
static void q_read(uint32_t a, int n) { u32(2), u32(a), u32(n); }
static void q_data(void) { u32(3); }
static void q_fill(uint32_t a, int n, int v) { u32(4), u32(a), u32(n), u32(v); }

static bool io(bool in, uint8_t *p, size_t n)
{
    while (n > 0) {
        struct pollfd f = { in ? from : to, in ? POLLIN : POLLOUT };
        if (poll(&f, 1, 100000) <= 0)
            return false;
        ssize_t r = in ? read(from, p, n) : write(to, p, n);
        if (r <= 0)
            return false;
        p += r, n -= r;
    }
    return true;
}

/* Run the requests: size of the response, or -1 */
static long q_run(void)
{
    uint32_t n = nreq - 4, h[2];
    memcpy(req, &n, 4);
    bool ok = io(false, req, nreq) && io(true, (void *)h, 8) &&
        h[1] <= sizeof(rsp) && io(true, rsp, h[1]);
    nreq = 4;
    if (ok && !h[0])
        return h[1];

    report(!ok ? "the module does not answer" : h[0] == 2 ?
        "the module unbalances its stack" : "the module traps");
    kill(node, SIGKILL);
    waitpid(node, NULL, 0);
    close(to), close(from);
    node_start();
    return -1;
}

static int r_int(int i) { int v; memcpy(&v, rsp + 4*i, 4); return v; }

static int call1(const char *f, int n, int a, int b, int c, int d)
{
    q_call(f, n, a, b, c, d);
    return q_run() == 4 ? r_int(0) : INT_MIN / 3;
}

/* --- Interrogations --- */

static bool bad(const char *what, int hr, int a, int b, int c, int d,
    long f, long r)
{
    report("WebAssembly: %s(hr=%d, %d, %d, %d, %d) is %ld, %ld in the "
        "native build", what, hr, a, b, c, d, r, f);
    return false;
}

/* Calls are sent by batches */
static struct { const char *n; int hr, a[4]; long f; } B[4096];
static int nb_;

static bool flush(void)
{
    if (!nb_)
        return true;
    int n = nb_;
    nb_ = 0;
    if (q_run() != 4L * n)
        return false;
    for (int i = 0; i < n; i++)
        if (r_int(i) != B[i].f)
            return bad(B[i].n, B[i].hr, B[i].a[0], B[i].a[1], B[i].a[2],
                B[i].a[3], B[i].f, r_int(i));
    return true;
}

static bool queue(const char *n, int nargs, int hr, int a, int b, int c, int d,
    long f)
{
    if (hr < 0)
        q_call(n, nargs, a, b, c, d);
    else
        q_call(n, nargs, hr, a, b, c, d);
    B[nb_].n = n, B[nb_].hr = hr, B[nb_].f = f;
    int v[4] = { a, b, c, d };
    memcpy(B[nb_++].a, v, 16);
    R.transitions++;
    return nb_ < COUNT(B) || flush();
}

static bool queries(void)
{
    static const int dts[] = { 2500, 5000, 7500, 10000, 0, -1, 2499, 5001,
        20000, INT_MAX, INT_MIN };
    static const int srs[] = { 8000, 16000, 24000, 32000, 48000, 96000, 0, -1,
        44100, 95999, 192000, INT_MAX, INT_MIN };

#define Q(name, n, hr, a, b, c, d, ...) \
    if (!queue("lc3_" #name, n, hr, a, b, c, d, lc3_##name(__VA_ARGS__))) \
        return false

    for (int hr = 0; hr < 2; hr++)
    for (int i = 0; i < COUNT(dts); i++)
    for (int j = 0; j < COUNT(srs); j++) {
        int dt = dts[i], sr = srs[j];

        Q(hr_frame_samples, 3, hr, dt, sr, 0, 0, hr, dt, sr);
        Q(hr_delay_samples, 3, hr, dt, sr, 0, 0, hr, dt, sr);
        for (int b = 0; b < 400; b++) {
            int br = b < 300 ? b * 2500 : (b - 348) * (INT_MAX / 64);
            int nc = b % 10 - 1;
            Q(hr_frame_bytes, 4, hr, dt, sr, br, 0, hr, dt, sr, br);
            Q(hr_frame_block_bytes, 5, hr, dt, sr, nc, br,
                hr, dt, sr, nc, br);
            if (!hr) {
                Q(frame_bytes, 2, -1, dt, br, 0, 0, dt, br);
                Q(frame_block_bytes, 3, -1, dt, nc, br, 0, dt, nc, br);
            }
        }
        for (int n = -3; n < 640; n += 1 + (n > 30)) {
            int m = n >= 630 ? (n - 630) * (INT_MAX / 9) : n;
            Q(hr_resolve_bitrate, 4, hr, dt, sr, m, 0, hr, dt, sr, m);
            if (!hr)
                Q(resolve_bitrate, 2, -1, dt, m, 0, 0, dt, m);
        }
        if (!flush())
            return false;

        /* The sizes of the contexts depend on the target */
        for (int d = 0; d < 2; d++) {
            int f = d ? lc3_hr_decoder_size(hr, dt, sr) :
                        lc3_hr_encoder_size(hr, dt, sr);
            int r = call1(d ? "lc3_hr_decoder_size" : "lc3_hr_encoder_size",
                3, hr, dt, sr, 0);
            int q = hr ? r : call1(d ? "lc3_decoder_size" : "lc3_encoder_size",
                2, dt, sr, 0, 0);
            int m = r ? call1("mem_size", 3, d, dt, sr, 0) : 0;
            if (!f != !r || r != q || r > 65536 || r < 0 || r % 4 || r > m)
                return bad("context size", hr, dt, sr, d, m, f, r);
            if (r && !hr && dt == 10000 && (sr == 16000 || sr == 48000) &&
                    r > call1("mem_size_td", 1, 2 * d + (sr == 48000), 0, 0, 0))
                return bad("typedef size", hr, dt, sr, d, m, f, r);
        }

        /* Setup */
        static uint8_t mem[65536], cmp[65536];
        for (int k = -1; k < COUNT(srs); k++)
            for (int d = 0; d < 4; d++) {
                if (hr && d > 1)
                    continue;
                int sp = k < 0 ? 0 : srs[k];
                q_fill(0, 65536, 0x5a);
                static const char *n[] = { "lc3_hr_setup_encoder",
                    "lc3_hr_setup_decoder", "lc3_setup_encoder",
                    "lc3_setup_decoder" };
                int at = 64 + 4 * (k & 1);
                if (d < 2)
                    q_call(n[d], 5, hr, dt, sr, sp, wbase + at);
                else
                    q_call(n[d], 4, dt, sr, sp, wbase + at);
                q_read(0, 65536);
                if (q_run() != 65540)
                    return false;
                unsigned r = r_int(0);
                void *f = d & 1 ?
                    (void *)lc3_hr_setup_decoder(hr, dt, sr, sp, mem) :
                    (void *)lc3_hr_setup_encoder(hr, dt, sr, sp, mem);
                if (!f != !r || (r && r != wbase + at))
                    return bad(n[d], hr, dt, sr, sp, at, !!f, r);
                memset(cmp, 0x5a, sizeof(cmp));
                int size = !r ? 0 : call1(d & 1 ? "lc3_hr_decoder_size" :
                    "lc3_hr_encoder_size", 3, hr, dt, sp > 0 ? sp : sr, 0);
                static uint8_t w[65536];
                if (r) {
                    q_read(0, 65536);
                    if (q_run() != 65536) return false;
                    memcpy(w, rsp, 65536);
                } else
                    memcpy(w, rsp + 4, 65536);
                if (memcmp(w, cmp, at) ||
                    memcmp(w + at + size, cmp, 65536 - at - size))
                    return bad("setup writes outside", hr, dt, sr, sp, d, 0, 1);
                R.transitions++;
                state_add(hash64(&dt, 4, ((d * 31L + sr) * 31 + sp) * 2 + hr));
            }
    }
    /* NULL contexts and memory */
    if (call1("lc3_setup_encoder", 4, 10000, 48000, 0, 0) ||
        call1("lc3_setup_decoder", 4, 10000, 48000, 0, 0) ||
        call1("lc3_encode", 4, 0, 0, 0, 0) != -1 ||
        call1("lc3_decode", 4, 0, 0, 0, 0) != -1)
        return bad("NULL", 0, 0, 0, 0, 0, 0, 1);
    q_data();
    if (q_run() != 4 || r_int(0))
        return bad("modified data", 0, 0, 0, 0, 0, 0, 1);
    R.validated++;
    return true;
}

/* --- Histories --- */

static long frames, frames_diff, ncl;
static double maxerr;

#define NF  12
#define GUARD 64

/* Layout of the memory of the module */
#define A_ENC   GUARD
#define A_DEC   (A_ENC + 32768 + 4)
#define A_PCM   (A_DEC + 32768 + 8)
#define A_FRM   (A_PCM + 16384)
#define A_OUT   (A_FRM + 4096 + 1)
#define A_END   (A_OUT + 16384 + 3)

static bool history(int i, int l, int m, int z)
{
    const struct cfg *c = &CFG[i];
    int ns = cfg_ns(c), n0 = cfg_min(c), n1 = cfg_max(c);
    static int32_t p24[2 * 960]; static int16_t p16[2 * 960];
    static uint8_t pp[4 * 2 * 960];
    static uint8_t o[4 * 2 * 1024], f[640], pat[65536];
    char s[64];

    unsigned ze = lc3_hr_encoder_size(c->hr, c->dt, c->pcm);
    unsigned zd = lc3_hr_decoder_size(c->hr, c->dt, c->pcm);
    void *e = malloc(ze), *d = malloc(zd);
    bool ok = true, clipped = false;

    cfg_str(c, s);
    trace("%s letters %s %s mode %d", s, PNAME[l], PNAME[m], z);
    lc3_encoder_t le = lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, e);
    lc3_decoder_t ld = lc3_hr_setup_decoder(c->hr, c->dt, c->sr, c->pcm, d);

    memset(pat, 0xa5 + z, sizeof(pat));
    q_fill(0, 65536 * 4, 0xa5 + z);
    q_call("lc3_hr_encoder_size", 3, c->hr, c->dt, c->pcm);
    q_call("lc3_hr_decoder_size", 3, c->hr, c->dt, c->pcm);
    q_call("lc3_hr_setup_encoder", 5, c->hr, c->dt, c->sr, c->pcm, wbase + A_ENC);
    q_call("lc3_hr_setup_decoder", 5, c->hr, c->dt, c->sr, c->pcm, wbase + A_DEC);
    if (q_run() != 16)
        goto fail;
    int we = r_int(0), wd = r_int(1);
    if (we <= 0 || we > 32768 || wd <= 0 || wd > 32768 ||
        r_int(2) != wbase + A_ENC || r_int(3) != wbase + A_DEC) {
        report("WebAssembly %s: setup, sizes %d %d", s, we, wd);
        goto fail;
    }

    const int sz[] = { n0, n1, (n0 + n1) / 2, n0 + 30, (3*n0 + n1) / 4, n0 + 5 };
    for (int t = 0; ok && t < NF; t++) {
        int nb = sz[(t + z + l) % 6], st = 1 + (t + z) % 2;
        int fmt = c->hr ? (t + z) % 3 + 1 : (t + z + l) % 4;
        int esz = fmt == 0 ? 2 : fmt == 2 ? 3 : 4;
        int np = esz * st * ns;
        pcm_letter(t < NF/2 ? l : m, c->pcm, ns, t, p24);
        memset(pp, 0x33, sizeof(pp));
        for (int k = 0; k < ns; k++) {
            uint8_t *q = pp + esz * st * k;
            float v = p24[k] * 0x1p-23f;
            if (fmt == 0) memcpy(q, &(int16_t){ p24[k] >> 8 }, 2);
            else if (fmt == 3) memcpy(q, &v, 4);
            else memcpy(q, &p24[k], esz);
        }
        if (t == NF - 3 && z == 0) {
            lc3_encoder_disable_ltpf(le);
            u32(0), u32(24), u32(1), memcpy(req + nreq,
                "lc3_encoder_disable_ltpf", 24), nreq += 24, u32(wbase + A_ENC);
        } else
            q_call("lc3_frame_samples", 2, 0, 0);
        int r0 = lc3_encode(le, fmt, pp, st, nb, f);
        q_write(A_PCM, pp, np);
        q_call("lc3_encode", 6, wbase + A_ENC, fmt, wbase + A_PCM, st, nb,
            wbase + A_FRM + t % 4);
        q_read(A_FRM, 4096);
        R.transitions += 2;
        if (q_run() != 4104)
            goto fail;
        int at = t % 4, diff = memcmp(rsp + 8 + at, f, nb);
        if (r0 != r_int(1) || memcmp(rsp + 8, pat, at) ||
            memcmp(rsp + 8 + at + nb, pat, 4096 - at - nb)) {
            report("WebAssembly %s: encoding frame %d of %d bytes returns "
                "%d, %d in the native build, or writes outside of the frame",
                s, t, nb, r_int(1), r0);
            ok = false;
            break;
        }
        frames++, frames_diff += !!diff;
#ifdef EXACT
        if (diff) {
            report("WebAssembly %s: another frame %d of %d bytes", s, t, nb);
            ok = false;
        }
#endif
        /* The frame of the native build is decoded */
        int lost = (t + z) % 5 == 3, dmg = (t + z) % 7 == 5;
        if (dmg) f[(t * 17) % nb] ^= 0x41, f[nb - 1 - t % 3] ^= 0x12;
        fmt = (t + z + m) % 4;
        esz = fmt == 0 ? 2 : fmt == 2 ? 3 : 4;
        np = esz * st * ns;
        memset(o, 0x3c, sizeof(o));
        int r1 = lc3_decode(ld, lost ? NULL : f, nb, fmt, o, st);
        q_write(A_FRM + at, f, nb);
        q_fill(A_OUT, 16384, 0x3c);
        int ao = A_OUT + (esz == 3 ? t % 4 : 3);    /* Aligned with the type */
        q_call("lc3_decode", 6, wbase + A_DEC, lost ? 0 : wbase + A_FRM + at,
            nb, fmt, wbase + ao, st);
        q_read(A_OUT, 16384);
        q_fill(A_FRM, 4096, 0xa5 + z);
        q_data();
        if (q_run() != 16392)
            goto fail;
        uint8_t *w = rsp + 4 + ao - A_OUT;
        int tail = 16384 - (ao - A_OUT) - (np - (st - 1) * esz);
        bool out = false;
        for (int k = 0; k < ao - A_OUT; k++) out |= rsp[4 + k] != 0x3c;
        for (int k = 0; k < tail; k++)
            out |= w[np - (st - 1) * esz + k] != 0x3c;
        if (r1 != r_int(0) || out) {
            report("WebAssembly %s: decoding frame %d of %d bytes returns %d, "
                "%d in the native build, or writes outside of the PCM", s, t,
                nb, r_int(0), r1);
            ok = false;
            break;
        }
        int v; memcpy(&v, rsp + 4 + 16384, 4);
        if (v) {
            report("WebAssembly %s: frame %d: the data or the stack below "
                "is modified", s, t);
            ok = false;
        }
        double err = 0, peak = 0;
        for (int k = 0; k < ns; k++) {
            double a[2];
            for (int x = 0; x < 2; x++) {
                const uint8_t *q = (x ? w : o) + esz * st * k;
                float g; int16_t h; int32_t u = 0;
                if (fmt == 0) memcpy(&h, q, 2), a[x] = h / 32768.;
                else if (fmt == 3) memcpy(&g, q, 4), a[x] = g;
                else memcpy(&u, q, esz), a[x] =
                    (int32_t)((uint32_t)u << 8) / 2147483648.;
                if (fmt == 1 && u != (int32_t)((uint32_t)u << 8) >> 8) a[x] = 9;
            }
            double u = fabs(a[0] - a[1]);
            if (u > err || u != u) err = u != u ? 9 : u;
            if (fabs(a[0]) > peak) peak = fabs(a[0]);
            for (int x = 1; x < st && k < ns - 1; x++)
                for (int y = 0; y < esz; y++)
                    out |= w[esz * (st * k + x) + y] != 0x3c;
        }
#ifdef EXACT
        double lim = 0;
#else
        double lim = 3e-5 * MAX(peak, 0.1) + (fmt == 0 ? 0x1p-15 :
            fmt < 3 ? 0x1p-23 : 0);
        /* The level is not known when clipped */
        clipped |= peak > 0.999;
        if (clipped) lim = 9, ncl++;
#endif
        if (lim < 9 && err > maxerr) maxerr = err;
        if (out || err >= (lim ? lim : 0x1p-149)) {
            report("WebAssembly %s: the output of frame %d of %d bytes "
                "differs by %g of the native build (peak %g, format %d), or "
                "writes outside", s, t, nb, err, peak, fmt);
            ok = false;
        }
        state_add(hash64(f, nb, hash64(o, ns * 4, i)));
    }

    /* Memory around the contexts, and refused calls */
    q_read(0, A_PCM);
    if (q_run() != A_PCM)
        goto fail;
    for (int k = 0; k < A_PCM; k++)
        if (rsp[k] != pat[0] && !(k >= A_ENC && k < A_ENC + we) &&
                !(k >= A_DEC && k < A_DEC + wd)) {
            report("WebAssembly %s: byte at %d modified, encoder %d:%d "
                "decoder %d:%d", s, k, A_ENC, we, A_DEC, wd);
            ok = false;
            break;
        }
    static const int out[] = { -1, 0, 19, 401, 626, 211, 376, 77, 46, 53, 20, 400, 625 };
    for (int k = 0; ok && k < COUNT(out); k++) {
        int r0 = lc3_encode(le, 1, pp, 1, out[k], f);
        int r1 = lc3_decode(ld, f, out[k], 0, o, 1);
        q_call("lc3_encode", 6, wbase + A_ENC, 1, wbase + A_PCM, 1, out[k], wbase + A_FRM);
        q_write(A_FRM, f, sizeof(f));
        q_call("lc3_decode", 6, wbase + A_DEC, wbase + A_FRM, out[k], 0, wbase + A_OUT, 1);
        if (q_run() != 8)
            goto fail;
        if (r_int(0) != r0 || r_int(1) != r1) {
            report("WebAssembly %s: size %d gives %d, %d instead of %d, %d",
                s, out[k], r_int(0), r_int(1), r0, r1);
            ok = false;
        }
    }
    free(e), free(d);
    R.validated++;
    return ok;

fail:
    free(e), free(d);
    return false;
}

int main(int argc, char **argv)
{
    run_init(argc, argv);
    cfg_init();
    node_start();
    u32(5);
    if (q_run() != 4)
        return 2;
    wbase = r_int(0);

    int per = NPCM * (R.thorough ? NPCM : 6);
    while (work_next((long)NCFG * per + 1)) {
        watchdog(R.thorough ? 800 : 60);
        if (!R.item) {
            queries();
            continue;
        }
        int i = (R.item - 1) / per, l = (R.item - 1) % per;
        for (int z = 0; z < 3; z++)
            if (!history(i, l % NPCM, R.thorough ? l / NPCM :
                    (l % NPCM + 5 * z + 3 + 17 * (l / NPCM)) % NPCM, z))
                break;
    }
    close(to);
    stat_add("frames", frames);
    stat_add("frames_diff", frames_diff);
    stat_add("frames_clipped", ncl);
    stat_add("maxerr_e9", maxerr * 1e9);
    return run_end();
}
