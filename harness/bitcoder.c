/*
 * C21 - Bit coder: all sequences of operations up to a depth, on buffers of
 * all small sizes. The number of bits is predicted by a model of the range
 * (a product of probabilities), the values are read back.
 *
 * Uses the internal interface of the bit coder.
 */
#include "common.h"
#include "bits.h"
#include "tables.h"

#define GUARD 64
#define MAXOPS 1600
#define MAXLEN 640

struct op { const struct lc3_ac_model *m; int s; unsigned v; int n; };

static struct op ops[MAXOPS];
static int left[MAXOPS + 1];        /* bits left before each operation */
static int nops;

/* --- Model --- */

struct model { uint32_t range; long used; };

static int bitlen(uint32_t r) { int n = 0; for (; r; r >>= 1) n++; return n; }

static void m_start(struct model *m) { *m = (struct model){ 0xffffff, 0 }; }

static void m_op(struct model *m, const struct op *o)
{
    if (!o->m) { m->used += o->n; return; }
    m->range = (m->range >> 10) * o->m->s[o->s].range;
    while (m->range < 0x10000) m->range <<= 8, m->used += 8;
}

static int m_left(const struct model *m, int len)
{
    return 8*len - m->used - (26 - bitlen(m->range));
}

/* --- Models of symbols --- */

static struct lc3_ac_model X[6];

static void make_models(void)
{
    static const int w[6][17] = {
        /* Rare symbol at an end, carries; dominant in the middle; even; */
        { 1, 1008, 1,1,1,1,1,1,1,1,1,1,1,1,1,1,1 },
        { 1,1,1,1,1,1,1,1,1,1,1,1,1,1,1, 1008, 1 },
        { 60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,60,64 },
        { 1,1,1,1,1,1,1,1,1009,1,1,1,1,1,1,1,0 },
        { 512,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,497 },
        { 2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,643 },
    };
    for (int k = 0; k < 6; k++)
        for (int i = 0, l = 0; i < 17; i++) {
            X[k].s[i].low = l, X[k].s[i].range = w[k][i];
            l += w[k][i];
        }
}

static void write_op(lc3_bits_t *w, const struct op *o)
{
    if (o->m) lc3_put_symbol(w, o->m, o->s);
    else if (o->n == 1) lc3_put_bit(w, o->v);
    else lc3_put_bits(w, o->v, o->n);
}

/* --- Check of a complete sequence --- */

static long n_fit, n_over;

static char *seq(void)
{
    static char s[1024];
    int n = s[0] = 0;
    for (int i = 0; i < nops && n < 900; i++)
        n += ops[i].m ? sprintf(s + n, " sym%d/%04x", ops[i].s,
                (int)(ops[i].m - lc3_spectrum_models) & 0xffff) :
            sprintf(s + n, " %x:%d", ops[i].v, ops[i].n);
    return s;
}

static bool check(lc3_bits_t *w, const struct model *m, uint8_t *buf, int len)
{
    static uint8_t sv[MAXLEN + 2*GUARD];
    bool fit = m_left(m, len) >= 0;

    R.transitions += nops;
    if (lc3_check_bits(w) != (fit ? 0 : -1) ||
            lc3_get_bits_left(w) != MAX(m_left(m, len), 0)) {
        report("%d bytes, writing of%s: %d bits left, %s instead of %d", len,
            seq(), lc3_get_bits_left(w), lc3_check_bits(w) ? "overflow" :
            "no overflow", m_left(m, len));
        return false;
    }
    lc3_flush_bits(w);
    for (int i = 0; i < GUARD; i++)
        if (buf[-1-i] != 0x5a || buf[len+i] != 0x5a) {
            report("%d bytes, writing of%s out of the buffer", len, seq());
            return false;
        }
    memcpy(sv, buf - GUARD, len + 2*GUARD);

    lc3_bits_t r;
    struct model q;
    m_start(&q);
    lc3_setup_bits(&r, LC3_BITS_MODE_READ, buf, len);
    for (int i = 0; i < nops; i++) {
        const struct op *o = &ops[i];
        struct op g = *o;
        if (fit && lc3_get_bits_left(&r) != left[i]) {
            report("%d bytes, reading of%s: %d bits left instead of %d "
                "at operation %d", len, seq(), lc3_get_bits_left(&r),
                left[i], i);
            return false;
        }
        if (o->m) g.s = lc3_get_symbol(&r, o->m);
        else g.v = o->n > 1 ? lc3_get_bits(&r, o->n) : lc3_get_bit(&r);
        if (fit && (g.s != o->s || g.v != o->v)) {
            report("%d bytes, reading of%s: operation %d gives %d/%x", len,
                seq(), i, g.s, g.v);
            return false;
        }
        if (g.m && (g.s < 0 || g.s > 16)) {
            report("%d bytes, reading of%s: symbol %d", len, seq(), g.s);
            return false;
        }
        m_op(&q, &g);
    }
    /* When more bits are read than present, it is signalled */
    bool over = m_left(&q, len) < 0;
    int c = lc3_check_bits(&r);
    if (fit ? c != 0 : (over && c == 0)) {
        report("%d bytes, reading of%s: check %d, %d bits left", len, seq(),
            c, m_left(&q, len));
        return false;
    }
    if (memcmp(sv, buf - GUARD, len + 2*GUARD)) {
        report("%d bytes, reading of%s modifies the buffer", len, seq());
        return false;
    }
    fit ? n_fit++ : n_over++;
    return true;
}

/* The buffer initially holds `fill` */
static uint8_t store[MAXLEN + 2*GUARD];
static int misalign;

static uint8_t *start(lc3_bits_t *w, struct model *m, int len, int fill)
{
    memset(store, 0x5a, sizeof(store));
    uint8_t *b = store + GUARD;
    memset(b, fill, len);
    lc3_setup_bits(w, LC3_BITS_MODE_WRITE, b, len);
    m_start(m), nops = 0;

    /* Some plain bits, as the side data of any frame */
    ops[0] = (struct op){ NULL, 0, 0x15abcde1 & (~0u >> (8 - (len & 7))), 24 + (len & 7) };
    left[0] = m_left(m, len);
    write_op(w, ops), m_op(m, ops), nops = 1;
    return b;
}

static bool whole(int len, int fill, const struct op *o, int n)
{
    lc3_bits_t w; struct model m;
    uint8_t *b = start(&w, &m, len, fill);
    for (int i = 0; i < n; i++) {
        left[nops] = MAX(m_left(&m, len), 0);
        if (lc3_get_bits_left(&w) != left[nops]) {
            report("%d bytes, writing of%s: %d bits left instead of %d", len,
                seq(), lc3_get_bits_left(&w), left[nops]);
            return false;
        }
        ops[nops++] = o[i];
        write_op(&w, &o[i]), m_op(&m, &o[i]);
    }
    R.validated++;
    return check(&w, &m, b, len);
}

/* All words over an alphabet, each prefix is checked */
static bool dfs(const struct op *al, int na, int depth, lc3_bits_t *w,
    const struct model *m, uint8_t *b, int len)
{
    static uint8_t sv[32][64];
    int d = nops;

    lc3_bits_t w1 = *w;
    memcpy(sv[d], b, len);
    state_add(hash64(sv[d], len, hash64(&m->range, 4, m->used) + d));
    trace("C21 %d bytes%s", len, seq());
    if (!check(&w1, m, b, len)) return false;
    memcpy(b, sv[d], len);
    R.validated++;
    /* Beyond the overflow, some more */
    if (!depth || m_left(m, len) < -24)
        return true;
    for (int a = 0; a < na; a++) {
        struct model m1 = *m;
        w1 = *w;
        left[d] = MAX(m_left(m, len), 0);
        ops[d] = al[a], nops = d + 1;
        write_op(&w1, &al[a]), m_op(&m1, &al[a]);
        if (!dfs(al, na, depth - 1, &w1, &m1, b, len)) return false;
        nops = d;
        memcpy(b, sv[d], len);
    }
    return true;
}

static bool words(const struct op *al, int na, int depth, int len, int fill)
{
    lc3_bits_t w; struct model m;
    uint8_t *b = start(&w, &m, len, fill);
    return dfs(al, na, depth, &w, &m, b, len);
}

#define SYM(k, s) { &X[k], s }
#define FLD(v, n) { NULL, 0, v, n }

static const struct op MIX[] = {
    SYM(0, 1), SYM(0, 16), SYM(1, 15), SYM(2, 0), SYM(2, 16), SYM(4, 0),
    FLD(1, 1), FLD(0, 3), FLD(0xab, 8), FLD(0x1f0f, 13), FLD(0x1ffffff, 25),
    FLD(0xdeadbeef, 32),
};

static const struct op CARRY[] = {
    SYM(0, 16), SYM(1, 15), SYM(4, 0), SYM(4, 16), FLD(0x3f, 7) };

static const struct op CARRY2[] = {
    SYM(0, 1), SYM(1, 16), SYM(3, 8), SYM(5, 16), FLD(1, 1) };

static const struct op FIELDS[] = {
    FLD(0, 1), FLD(1, 1), FLD(3, 2), FLD(0x55, 7), FLD(0xff, 8), FLD(0x100, 9),
    FLD(0x7fffffff, 31), FLD(0x80000001, 32), FLD(0x8000, 16), FLD(0xffffff, 24) };

/* --- Reading of any content --- */

static bool content(int len, const uint8_t *d, const struct op *o, int n)
{
    uint8_t *b = malloc(len);           /* exact */
    memcpy(b, d, len);
    lc3_bits_t r; struct model q;
    m_start(&q);
    lc3_setup_bits(&r, LC3_BITS_MODE_READ, b, len);
    bool ok = true;
    for (int i = -1; ok && i < n; i++) {
        struct op g = i < 0 ? (struct op){ .n = 24 + (len & 7) } : o[i];
        if (g.m) g.s = lc3_get_symbol(&r, g.m);
        else g.v = lc3_get_bits(&r, g.n);
        if (g.m && (g.s < 0 || g.s > 16 || !g.m->s[g.s].range)) {
            report("content of %d bytes: symbol %d", len, g.s);
            ok = false;
            break;
        }
        m_op(&q, &g);
        int l = m_left(&q, len);
        R.transitions++;
        if (lc3_get_bits_left(&r) != MAX(l, 0) && l > -32) {
            report("content of %d bytes: %d bits left instead of %d after "
                "%d operations", len, lc3_get_bits_left(&r), l, i + 1);
            ok = false;
        }
        if (l < 0 && !lc3_check_bits(&r)) {
            report("content of %d bytes: reading past the end not signalled "
                "(%d bits, %d operations)", len, l, i + 1);
            ok = false;
        }
    }
    free(b);
    return ok;
}

#ifndef SHALLOW
#define DEEP 1
#else
#define DEEP 0
#endif

#define NSPEC 64
#define NTNSC 8

static const struct lc3_ac_model *real(int k)
{
    return k < NSPEC ? &lc3_spectrum_models[k] :
        k < NSPEC + 2 ? &lc3_tns_order_models[k - NSPEC] :
        &lc3_tns_coeffs_models[k - NSPEC - 2];
}

static bool real_models(int k)
{
    const struct lc3_ac_model *m = real(k);
    bool known = k >= NSPEC;
    int ns = 0;

    /* A valid split of the interval */
    for (int i = 0, l = 0; i < 17; i++) {
        if (m->s[i].range && m->s[i].low != l) {
            report("model %d: symbol %d at %d, not %d", k, i, m->s[i].low, l);
            return false;
        }
        l += m->s[i].range;
        if (m->s[i].range) ns = i + 1;
        if (l > 1024 || (i == 16 && l != 1024)) {
            report("model %d: sum %d", k, l);
            return false;
        }
    }

    for (int a = 0; a < ns; a++)
        for (int b = 0; b < ns; b++) {
            static struct op o[400];
            for (int p = 0; p < 4; p++) {
                int n = 0;
                for (int i = 0; i < 60; i++) {
                    o[n++] = (struct op){ m, i % (p + 2) ? b : a };
                    if (p & 1) o[n++] = (struct op){ NULL, 0, i & 3, 2 };
                }
                for (int len = 6; len <= 70; len += 8)
                    for (int z = 1; z <= n; z += DEEP ? 7 : 29)
                        if (!whole(len, 0xff * (z & 1), o, z)) return false;
            }
        }
    return true;
}

/* Long carry chains: a run near the top of the interval, ended by a carry or
 * by none, at every position */
static bool chains(int k)
{
    static struct op o[MAXOPS];
    for (int run = 0; run < 200; run += DEEP ? 1 : 7)
        for (int e = 0; e < 17; e++)
            for (int f = 0; f < 4; f++) {
                int n = 0;
                o[n++] = (struct op){ &X[2], k };
                for (int i = 0; i < run; i++)
                    o[n++] = (struct op){ &X[f == 3 ? 1 : 4], f == 3 ? 16 : 16 };
                if (f) o[n++] = (struct op){ &X[f == 1 ? 2 : 5], e };
                if (f == 2) o[n++] = (struct op){ NULL, 0, 5, 3 };
                for (int len = MAX(5, run / 8 - 3); len < run * (f == 3 ? 2 : 1) / 6 + 16; len += 3)
                    if (!whole(len, run & 1 ? 0xff : 0, o, n)) return false;
            }
    return true;
}

static bool contents(int k)
{
    static const struct op P[][8] = {
        { SYM(2,0), SYM(2,0), SYM(2,0), SYM(2,0), SYM(2,0), SYM(2,0), SYM(2,0), SYM(2,0) },
        { SYM(0,0), FLD(0,7), SYM(1,0), FLD(0,1), SYM(5,0), FLD(0,13), SYM(4,0), FLD(0,25) },
        { FLD(0,32), FLD(0,31), FLD(0,32), FLD(0,8), SYM(2,0), FLD(0,1), SYM(2,0), FLD(0,32) },
        { FLD(0,1), FLD(0,2), FLD(0,3), SYM(3,0), SYM(3,0), SYM(3,0), FLD(0,8), FLD(0,9) },
        { SYM(4,0), SYM(4,0), SYM(4,0), SYM(4,0), SYM(4,0), SYM(1,0), SYM(1,0), FLD(0,16) },
    };
    int hi = k;
    for (int p = 0; p < COUNT(P); p++)
        for (int lo = 0; lo < 256; lo++) {
            static const int tails[] = { 0, 0xff, 0x80, 0x01, 0x5a };
            for (int len = 5; len <= 14; len += DEEP ? 1 : 3)
                for (int t = 0; t < 5; t++) {
                    uint8_t d[16];
                    memset(d, tails[t], 16);
                    d[0] = hi, d[1] = lo;
                    if (!content(len, d, P[p], 8)) return false;
                    if (len > 2) {
                        memset(d, tails[t], 16), d[1] = hi, d[2] = lo;
                        if (!content(len, d, P[p], 8)) return false;
                    }
                }
        }
    return true;
}

int main(int argc, char **argv)
{
    run_init(argc, argv);
    make_models();

    int nr = NSPEC + 2 + NTNSC;
    while (work_next(24 + 24 + nr + 17 + 256)) {
        int k = R.item;
        trace("C21");
        watchdog(R.thorough ? 800 : 60);
        int x = DEEP ? R.thorough : -1;
        if (k < 24) {
            int len = 5 + k % 12;
            words(MIX, COUNT(MIX), (len <= 8 ? 5 : 4) + x + (R.thorough && len > 10), len,
                k < 12 ? 0 : 0xff);
        } else if ((k -= 24) < 24) {
            int len = 6 + k % 6;
            if (k < 6) words(CARRY, COUNT(CARRY), 8 + 2*x, len, 0xff);
            else if (k < 12) words(CARRY2, COUNT(CARRY2), 8 + 2*x, len, 0);
            else words(FIELDS, COUNT(FIELDS), 5 + x, len + (k >= 18) * 6,
                k & 1 ? 0xff : 0);
        } else if ((k -= 24) < nr)
            real_models(k);
        else if ((k -= nr) < 17)
            chains(k);
        else
            contents(k - 17);
    }
    stat_add("fit", n_fit), stat_add("overflow", n_over);
    return run_end();
}
