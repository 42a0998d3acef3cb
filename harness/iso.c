/*
 * C07 - Isolation of the contexts.
 *
 * Calls: all the interleavings of the calls of 2 and 3 contexts, each one
 * compared call by call to what it does alone, in a process of its own.
 *
 * Memory (-DSCHED, library instrumented at its memory accesses): each access
 * of a call is classified as own (context, buffers, stack) or foreign. When
 * nothing foreign is ever written, the accesses of two calls are independent
 * and all their interleavings are equivalent to the ones of the calls.
 * Otherwise, the calls are run by threads under a controlled scheduler, which
 * preempts a thread at each access to foreign locations that are written.
 */
#include "common.h"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/prctl.h>

#define NOPS    8
#define NSCRIPT 4
#define NFR     36

enum { O_END, O_NEW, O_WARM, O_SETUP, O_FRAME, O_FRAME2, O_PITCH, O_LOST,
       O_BAD, O_NOLTPF };

static const char *ONAME[] = { "", "new", "warm", "setup", "frame", "frame2",
    "pitch", "lost", "bad", "noltpf" };

static const int SCRIPT[2][NSCRIPT][NOPS] = {
    /* Encoders */
    {{ O_WARM, O_PITCH, O_FRAME2, O_NOLTPF, O_PITCH },
     { O_NEW, O_FRAME, O_PITCH, O_SETUP, O_FRAME2 },
     { O_WARM, O_PITCH, O_FRAME },
     { O_NEW, O_FRAME2, O_FRAME }},
    /* Decoders */
    {{ O_WARM, O_LOST, O_BAD, O_PITCH, O_LOST },
     { O_NEW, O_LOST, O_LOST, O_SETUP, O_FRAME2 },
     { O_WARM, O_BAD, O_LOST },
     { O_NEW, O_FRAME2, O_BAD }},
};

/* --- Contexts --- */

struct ctx {
    const struct cfg *c;
    int dec, script, nops, ns, fmt;
    unsigned char *mem, *pristine;
    size_t size;
    void *h;
    int pc, t;                  /* Next operation, frames done */
    int32_t *pcm;
    uint8_t *buf;
    uint64_t out;               /* Digest of the last output */
};

struct frames { uint8_t d[NFR + NOPS][640]; int nb[NFR + NOPS]; };

/* Shared with the children */
static struct sh {
    uint64_t alone[3][NOPS];
    struct frames fr[3];
    long transitions, execs, validated, accesses, foreign, points;
    int nviol, nstates;
    uint64_t states[1 << 20];
} *sh;

static int letter_of(const struct ctx *x, int t, int op)
{
    static const int w[] = { P_VOICE, P_MUSIC, P_NB, P_TNS, P_WB, P_NOISE,
        P_SINE, P_FADE, P_CLICK, P_HIGH };
    int k = x->script * 3 + x->dec + (x->c - CFG) + t;
    return op == O_PITCH ? P_PITCH : op == O_FRAME2 ? P_ATTACK :
        op == O_WARM ? (t ? P_PITCH : P_VOICE) : w[k % COUNT(w)];
}

/* Frames needed to get the long term postfilter active */
static int warm_len(const struct cfg *c)
{
    return c->dt >= 7500 ? 4 : c->dt == 5000 ? 7 : 12;
}

static int size_of(const struct cfg *c, int op)
{
    int a = cfg_min(c), b = cfg_max(c);
    /* Second one low enough for the postfilter */
    return op == O_FRAME2 || c->hr ? a + (b - a) / (op == O_FRAME2 ? 5 : 8) :
        MAX(a, 45 * c->dt / 10000);
}

static const char *ctx_str(const struct ctx *x)
{
    static char s[4][256];
    static int k;
    char *p = s[k++ & 3];
    cfg_str(x->c, p);
    strcat(p, x->dec ? " decoder" : " encoder");
    for (int i = 0; i < x->nops; i++)
        sprintf(p + strlen(p), " %s", ONAME[SCRIPT[x->dec][x->script][i]]);
    return p;
}

static void ctx_open(struct ctx *x, const struct cfg *c, int dec, int script)
{
    memset(x, 0, sizeof(*x));
    x->c = c, x->dec = dec, x->script = script;
    while (x->nops < NOPS && SCRIPT[dec][script][x->nops]) x->nops++;
    x->ns = cfg_ns(c);
    x->fmt = LC3_PCM_FORMAT_S24;
    x->size = dec ? lc3_hr_decoder_size(c->hr, c->dt, c->pcm) :
                    lc3_hr_encoder_size(c->hr, c->dt, c->pcm);
    x->mem = malloc(x->size);
    x->pcm = malloc(x->ns * sizeof(*x->pcm));
    x->buf = malloc(640);
}

static void ctx_close(struct ctx *x)
{
    free(x->mem), free(x->pcm), free(x->buf);
}

static void ctx_start(struct ctx *x)
{
    memset(x->mem, 0x5a, x->size);
    x->pc = x->t = 0, x->h = NULL, x->out = 0;
}

#ifdef SCHED
static void own(const struct ctx *x, const uint8_t *in, int n);
#else
static void own(const struct ctx *x, const uint8_t *in, int n) { }
#endif

static void setup(struct ctx *x)
{
    const struct cfg *c = x->c;
    own(x, NULL, 0);
    x->h = x->dec ? (void *)lc3_hr_setup_decoder(c->hr, c->dt, c->sr, c->pcm, x->mem)
        : (void *)lc3_hr_setup_encoder(c->hr, c->dt, c->sr, c->pcm, x->mem);
}

/* One frame; `rec` takes (encoder) or gives (decoder) the coded frames */
static int frame(struct ctx *x, struct frames *rec, int op)
{
    int t = x->t++, r;

    if (!x->dec) {
        int nb = size_of(x->c, op);
        pcm_letter(letter_of(x, t, op), x->c->pcm, x->ns, t, x->pcm);
        own(x, NULL, 0);
        r = lc3_encode(x->h, x->fmt, x->pcm, 1, nb, x->buf);
        x->out = hash64(x->buf, nb, x->out + r + 1);
        if (rec) memcpy(rec->d[t], x->buf, nb), rec->nb[t] = nb;
    } else {
        int nb = rec->nb[t];
        memcpy(x->buf, rec->d[t], nb);
        if (op == O_BAD) memset(x->buf, 0xff, nb);
        own(x, NULL, 0);
        r = lc3_decode(x->h, op == O_LOST ? NULL : x->buf, nb, x->fmt, x->pcm, 1);
        x->out = hash64(x->pcm, x->ns * 4, x->out + r + 1);
    }
    return r;
}

/* The next operation of the context, true when the last one */
static void step(struct ctx *x, struct frames *rec)
{
    int op = SCRIPT[x->dec][x->script][x->pc++];
    x->out = 1;
    switch (op) {
    case O_NEW:
    case O_SETUP: setup(x); break;
    case O_WARM:
        setup(x);
        for (int i = 0; i < warm_len(x->c); i++) frame(x, rec, O_WARM);
        break;
    case O_NOLTPF:
        own(x, NULL, 0);
        lc3_encoder_disable_ltpf(x->h); break;
    default: frame(x, rec, op);
    }
    __atomic_fetch_add(&sh->transitions, 1, __ATOMIC_RELAXED);
}

/* In a process of its own */
static bool in_child(void (*f)(void *), void *arg)
{
    int st;
    fflush(R.out);
    pid_t p = fork();
    if (!p) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        watchdog(20);
        R.nviol = 0;
        f(arg);
        fflush(R.out);
        _exit(0);
    }
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) {
        if (WIFEXITED(st)) exit(WEXITSTATUS(st));
        kill(getpid(), WTERMSIG(st));
    }
    return true;
}

/* Frames of the configuration for the decoders: what an encoder gives */
static void make_frames(void *arg)
{
    struct ctx *x = arg, e;
    struct frames *f = &sh->fr[x->pc];
    ctx_open(&e, x->c, 0, 0);
    ctx_start(&e);
    setup(&e);
    for (int i = 0; i < x->nops; i++) {
        int op = SCRIPT[1][x->script][i];
        if (op == O_WARM)
            for (int k = 0; k < warm_len(e.c); k++) frame(&e, f, O_WARM);
        else if (op >= O_FRAME && op <= O_BAD)
            frame(&e, f, op);
    }
}

static struct { struct ctx x[3]; int n; } W;

static void run_alone(void *arg)
{
    struct ctx *x = arg;
    int k = x - W.x;
    ctx_start(x);
    for (int i = 0; i < x->nops; i++) {
        step(x, &sh->fr[k]);
        sh->alone[k][i] = x->out;
    }
}

static void child_viol(const char *fmt, ...)
{
    char s[3000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(s, sizeof(s), fmt, ap);
    va_end(ap);
    if (!sh->nviol++) report("%s", s);
}

static void prepare(int n, const struct cfg **c, const int *dec, const int *script)
{
    W.n = n;
    for (int i = 0; i < n; i++) {
        ctx_open(&W.x[i], c[i], dec[i], script[i]);
        if (dec[i]) {
            W.x[i].pc = i;      /* Index of the frames */
            in_child(make_frames, &W.x[i]);
            W.x[i].pc = 0;
        }
        in_child(run_alone, &W.x[i]);
    }
}

static bool check(struct ctx *x, const char *order)
{
    int k = x - W.x;
    if (x->out == sh->alone[k][x->pc - 1])
        return true;
    char s[1200] = "";
    for (int i = 0; i < W.n; i++)
        sprintf(s + strlen(s), " [%c] %s;", 'A' + i, ctx_str(&W.x[i]));
    child_viol("the output of call %d (%s) of context %c differs from the "
        "one it gives alone, contexts%s order %s", x->pc - 1,
        ONAME[SCRIPT[x->dec][x->script][x->pc - 1]], 'A' + k, s, order);
    return false;
}

/* All the interleavings of the calls */
static void merge_all(void *arg)
{
    int left[3], tot = 0;
    char ord[64];
    for (int i = 0; i < W.n; i++) tot += W.x[i].nops;

    /* Words in lexicographic order */
    int n = 0;
    for (int i = 0; i < W.n; i++)
        for (int j = 0; j < W.x[i].nops; j++) ord[n++] = 'A' + i;
    ord[n] = 0;

    for (;;) {
        watchdog(20);
        for (int i = 0; i < W.n; i++) ctx_start(&W.x[i]);
        trace("%s / %s / %s order %s", ctx_str(&W.x[0]), ctx_str(&W.x[1]),
            W.n > 2 ? ctx_str(&W.x[2]) : "", ord);
        for (int i = 0; i < n; i++) {
            struct ctx *x = &W.x[ord[i] - 'A'];
            step(x, &sh->fr[x - W.x]);
            if (!check(x, ord)) return;
            uint64_t h = R.item + 1;
            for (int k = 0; k < W.n; k++)
                h = hash64(&W.x[k].pc, sizeof(int), h * 31 + W.x[k].out);
            if (sh->nstates < COUNT(sh->states) && state_add(h))
                sh->states[sh->nstates++] = h;
        }
        sh->execs++, sh->validated++;

        int i = n - 2, j = n - 1;
        while (i >= 0 && ord[i] >= ord[i+1]) i--;
        if (i < 0) break;
        while (ord[j] <= ord[i]) j--;
        char c = ord[i]; ord[i] = ord[j], ord[j] = c;
        for (int a = i + 1, b = n - 1; a < b; a++, b--)
            c = ord[a], ord[a] = ord[b], ord[b] = c;
    }
}

#ifdef SCHED
#include "iso_sched.h"
#endif

/* --- Items --- */

#define KINDS 3     /* enc/enc, enc/dec, dec/dec */

int main(int argc, char **argv)
{
    run_init(argc, argv);
    cfg_init();
    R.cont = 1;
    sh = mmap(NULL, sizeof(*sh), PROT_READ|PROT_WRITE,
        MAP_SHARED|MAP_ANONYMOUS, -1, 0);

    /* Pairs (i, j) of configurations; distances make each one meet itself,
     * its neighbours (other rates), other durations and other modes */
    static int D[80], nd;
    for (int d = 0; d < NCFG; d++)
        if (R.thorough || d < 2 || d == 5 || d == 15 || d == 31 || d == NCFG/2)
            D[nd++] = d;

    long npairs = (long)NCFG * nd * KINDS, ntri = R.thorough ? NCFG * 8 : NCFG/3;
#ifdef SCHED
    ntri = 0;
    if (!R.thorough) npairs = (long)NCFG * 2 * KINDS;
#endif
    while (work_next(npairs + ntri)) {
        const struct cfg *c[3];
        int dec[3], script[3], n;
        if (R.item < npairs) {
            int k = R.item % KINDS, d = R.item / KINDS / NCFG,
                i = R.item / KINDS % NCFG;
            n = 2;
            c[0] = &CFG[i], c[1] = &CFG[(i + D[d]) % NCFG];
            dec[0] = k == 2, dec[1] = k > 0;
            script[0] = (i + d) & 1, script[1] = (i + d + d/2) & 1;
        } else {
            int i = R.item - npairs;
            n = 3;
            for (int k = 0; k < 3; k++) {
                c[k] = &CFG[(i * 3 + k * (1 + i / 23 + 7 * (i & 1))) % NCFG];
                dec[k] = (i >> k) & 1;
                script[k] = 2 + ((i + k) & 1);
            }
        }
        sh->nviol = sh->nstates = 0;
        prepare(n, c, dec, script);
#ifdef SCHED
        in_child(schedules, NULL);
#else
        in_child(merge_all, NULL);
#endif
        R.nviol += sh->nviol;
        for (int i = 0; i < sh->nstates; i++) state_add(sh->states[i]);
        if (R.item % 101 == 0)
            sample("%s / %s: %ld executions so far", ctx_str(&W.x[0]),
                ctx_str(&W.x[1]), sh->execs);
        for (int i = 0; i < n; i++) ctx_close(&W.x[i]);
    }

    R.transitions = sh->transitions, R.execs = sh->execs;
    R.validated = sh->validated;
#ifdef SCHED
    stat_add("accesses", sh->accesses);
    stat_add("foreign_written", sh->foreign);
    stat_add("preemption_points", sh->points);
#endif
    return run_end();
}
