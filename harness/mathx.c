/*
 * C20 - Fast math: every single-precision operand of the domains.
 */
#include "common.h"
#include "mathx.h"

#define N 65536
#define LOG10_2 0.30102999566398119521

static float x[N], y[N], z[N];
static double lg[N];
static int32_t q[N];
static int e[N];
static double w_exp2, w_log2, w_log10, w_db;

static bool bad(const char *f, float x, double got, double want)
{
    report("%s(%.9g = %a) is %.10g instead of %.10g", f, x, x, got, want);
    return false;
}

static uint32_t bits(float v) { uint32_t u; memcpy(&u, &v, 4); return u; }

static bool normal(float v)
{
    int b = bits(v) >> 23 & 0xff;
    return b > 0 && b < 255;
}

static bool block(uint32_t hi)
{
    bool neg = hi >> 15;
    for (int i = 0; i < N; i++) {
        uint32_t u = hi << 16 | i;
        memcpy(x + i, &u, 4);
    }
    if ((hi >> 7 & 0xff) == 255)
        return true;

    /* Denormals are taken as 0 */
    bool den = (hi >> 7 & 0xff) == 0;
    float a = fabsf(x[0]), b = fabsf(x[N-1]);

    /* 2^x */
    if (a <= 100) {
        k_exp2(x, y, N);
        for (int i = 0; i < N; i++) {
            if (fabsf(x[i]) > 100) break;
            double w = exp2(x[i]), d = fabs(y[i] - w) / w;
            w_exp2 = d > w_exp2 ? d : w_exp2;
            if (!(d <= 5e-7)) return bad("lc3_exp2f", x[i], y[i], w);
        }
        R.transitions += N;
    }

    if (!neg && !den) {
        k_log2(x, y, N), k_log10(x, z, N);
        for (int i = 0; i < N; i++) {
            double l = log2(x[i]), w = l, d = fabs(y[i] - w);
            lg[i] = l;
            w_log2 = d > w_log2 ? d : w_log2;
            if (!(d <= 2e-4)) return bad("lc3_log2f", x[i], y[i], w);
            w = l * LOG10_2, d = fabs(z[i] - w);
            w_log10 = d > w_log10 ? d : w_log10;
            if (!(d <= 1e-4)) return bad("lc3_log10f", x[i], z[i], w);
        }
        R.transitions += 2*N;
    }

    if (a >= 0x1p-63f && b <= 0x1p63f) {
        static int32_t last[2] = { 1 << 30 };
        k_db(x, q, N);
        for (int i = 0; i < N; i++) {
            double w = neg || den ? log2(fabs(x[i])) : lg[i];
            w *= 10 * LOG10_2 * 65536;
            double d = fabs(q[i] - w);
            w_db = d > w_db ? d : w_db;
            if (!(d <= 120)) return bad("lc3_db_q16", x[i], q[i], w);
            if (i && q[i] < q[i-1])
                return bad("monotonic lc3_db_q16", x[i], q[i], q[i-1]);
        }
        /* Up to the next block */
        uint32_t u = (hi + 1) << 16;
        float nx; int32_t nq;
        memcpy(&nx, &u, 4);
        k_db(&nx, &nq, 1);
        if (fabsf(nx) <= 0x1p63f && nq < q[N-1])
            return bad("monotonic lc3_db_q16", nx, nq, q[N-1]);
        R.transitions += N;
    } else if (den) {
        k_db(x, q, N);
        for (int i = 0; i < N; i++) {
            double w = -191.2 * 65536;
            if (fabs(q[i] - w) > 0.1 * 65536)
                return bad("lc3_db_q16", x[i], q[i], w);
        }
    }

    if (!den) {
        k_frexp(x, y, e, N);
        for (int i = 0; i < N; i++) {
            uint32_t u = (bits(x[i]) & 0x7fffff) | 126u << 23;
            int we = (int)(bits(x[i]) >> 23 & 0xff) - 126;
            float w; memcpy(&w, &u, 4);
            if (!(fabsf(y[i]) == w) || e[i] != we ||
                    bits(y[i]) >> 31 != bits(x[i]) >> 31)
                return bad("lc3_frexpf", x[i], y[i], w);
        }
        R.transitions += N;
    }

    static const int es[] = { -16, -15, -8, 8, 15, 1, -1, 16, 23, -23, 31, 100, -100 };
    for (int k = 0; k < COUNT(es); k++) {
        if (den && hi & 0x7fff) break;
        double m = ldexp(1, es[k]);
        k_ldexp(x, y, es[k], N);
        for (int i = 0; i < (den ? 1 : N); i++) {
            double w = x[i] * m;
            if (w && (fabs(w) < 0x1p-126 || fabs(w) >= 0x1p128)) continue;
            if (y[i] != w || bits(y[i]) >> 31 != bits(x[i]) >> 31)
                return bad("lc3_ldexpf", x[i], y[i], w);
        }
        R.transitions += N;
    }
    return true;
}

int main(int argc, char **argv)
{
    run_init(argc, argv);
    while (work_next(65536 / 64)) {
        watchdog(R.thorough ? 800 : 60);
        trace("C20");
        bool ok = true;
        for (int i = 0; ok && i < 64; i++)
            ok = block(R.item * 64 + i);
        if (ok) R.validated++, state_add(R.item + 1);
    }
    sample("max errors: exp2 %.3g, log2 %.3g, log10 %.3g, dB %.4g (Q16)",
        w_exp2, w_log2, w_log10, w_db);
    return run_end();
}
