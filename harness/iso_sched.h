/* Instrumented accesses and controlled scheduler of iso.c */

#include <semaphore.h>
#include <sys/mman.h>

#define STACK (1 << 20)

struct th {
    pthread_t id;
    struct ctx *x;
    uint8_t *stack;
    sem_t go;
    long points, stop[2];       /* Points reached, ones to switch at */
    int calls, maxcalls;        /* Calls done, ones to do before switching */
    bool done;
    const uint8_t *lo[3], *hi[3];
    struct pt { const void *site; int call; } *pts;
};

#define MAXPTS (1 << 20)

static struct {
    struct th t[2];
    bool record, infeasible, free;
    int phase;
} G;

static __thread struct th *me;

/* Granules written by a call out of what it owns */
static struct { uintptr_t t[1 << 16]; int n; } F;

static bool f_find(uintptr_t g, bool add)
{
    unsigned i = (g * 0x9e3779b97f4a7c15ull) >> 48;
    for (;; i = (i + 1) & 0xffff) {
        if (F.t[i] == g) return true;
        if (!F.t[i]) break;
    }
    if (add && F.n < 40000) F.t[i] = g, F.n++;
    return false;
}

static void own(const struct ctx *x, const uint8_t *in, int n)
{
    if (!me) return;
    me->lo[0] = x->mem, me->hi[0] = x->mem + x->size;
    me->lo[1] = (uint8_t *)x->pcm, me->hi[1] = (uint8_t *)(x->pcm + x->ns);
    me->lo[2] = x->buf, me->hi[2] = x->buf + 640;
}

/* Give the processor to the other thread, until it gives it back */
static void give(struct th *t)
{
    struct th *o = &G.t[t == &G.t[0]];
    if (G.free || o->done) return;
    sem_post(&o->go);
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_sec += 5;
    while (sem_timedwait(&t->go, &ts))
        if (errno == ETIMEDOUT) {
            /* The other one waits for this one: not a schedule */
            G.infeasible = G.free = true;
            return;
        }
}

static void access_(const void *p, size_t n, bool write, const void *site)
{
    struct th *t = me;
    const uint8_t *a = p;
    if (!t || !n) return;
    __atomic_fetch_add(&sh->accesses, 1, __ATOMIC_RELAXED);
    if (a >= t->stack && a < t->stack + STACK) return;
    for (int i = 0; i < 3; i++)
        if (a >= t->lo[i] && a + n <= t->hi[i]) return;

    bool hit = false;
    for (uintptr_t g = (uintptr_t)a >> 3; g <= ((uintptr_t)a + n - 1) >> 3; g++)
        hit |= f_find(g, write);
    if (write) hit = true;
    if (!hit) return;

    long k = t->points++;
    if (G.record && k < MAXPTS)
        t->pts[k] = (struct pt){ site, t->calls };
    if (k == t->stop[0] || k == t->stop[1])
        give(t);
}

#define SITE __builtin_return_address(0)

void __tsan_init(void) { }
void __tsan_func_entry(void *p) { }
void __tsan_func_exit(void) { }
#define RW(n) \
    void __tsan_read##n(void *p) { access_(p, n, 0, SITE); } \
    void __tsan_write##n(void *p) { access_(p, n, 1, SITE); } \
    void __tsan_read_write##n(void *p) { access_(p, n, 1, SITE); } \
    void __tsan_unaligned_read##n(void *p) { access_(p, n, 0, SITE); } \
    void __tsan_unaligned_write##n(void *p) { access_(p, n, 1, SITE); } \
    void __tsan_unaligned_read_write##n(void *p) { access_(p, n, 1, SITE); } \
    void __tsan_volatile_read##n(void *p) { access_(p, n, 0, SITE); } \
    void __tsan_volatile_write##n(void *p) { access_(p, n, 1, SITE); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access_(p, n, 0, SITE); }
void __tsan_write_range(void *p, size_t n) { access_(p, n, 1, SITE); }
void *__tsan_memcpy(void *d, const void *s, size_t n)
{ access_(s, n, 0, SITE); access_(d, n, 1, SITE); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n)
{ access_(s, n, 0, SITE); access_(d, n, 1, SITE); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n)
{ access_(d, n, 1, SITE); return memset(d, c, n); }

#define ATOM(b, T) \
    T __tsan_atomic##b##_load(const volatile T *a, int o) \
    { access_((void *)a, sizeof(T), 0, SITE); return __atomic_load_n(a, 5); } \
    void __tsan_atomic##b##_store(volatile T *a, T v, int o) \
    { access_((void *)a, sizeof(T), 1, SITE); __atomic_store_n(a, v, 5); } \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int o) \
    { access_((void *)a, sizeof(T), 1, SITE); return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int o) \
    { access_((void *)a, sizeof(T), 1, SITE); return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int o) \
    { access_((void *)a, sizeof(T), 1, SITE); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int o) \
    { access_((void *)a, sizeof(T), 1, SITE); return __atomic_fetch_or(a, v, 5); } \
    T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int o) \
    { access_((void *)a, sizeof(T), 1, SITE); return __atomic_fetch_and(a, v, 5); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *e, T v, int o, int f) \
    { access_((void *)a, sizeof(T), 1, SITE); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *e, T v, int o, int f) \
    { access_((void *)a, sizeof(T), 1, SITE); return __atomic_compare_exchange_n(a, e, v, 0, 5, 5); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T e, T v, int o, int f) \
    { access_((void *)a, sizeof(T), 1, SITE); __atomic_compare_exchange_n(a, &e, v, 0, 5, 5); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int o) { }

/* --- Threads --- */

static bool t_bad;

static void *t_run(void *arg)
{
    struct th *t = arg;
    struct ctx *x = t->x;
    while (sem_wait(&t->go)) ;
    me = t;
    while (x->pc < x->nops) {
        step(x, &sh->fr[x - W.x]);
        t->calls++;
        if (!G.free && x->out != sh->alone[x - W.x][x->pc - 1] && !t_bad) {
            t_bad = true;
            if (!G.infeasible) check(x, "(schedule)");
        }
        if (t->maxcalls && !--t->maxcalls)
            give(t);
    }
    me = NULL;
    t->done = true;
    sem_post(&G.t[t == &G.t[0]].go);
    return NULL;
}

/* Thread `a` first; it stops at `p`, the other at `q` or after `m` calls */
static bool execute(int a, long p, long q, int m)
{
    pthread_attr_t at;
    t_bad = G.infeasible = G.free = false;
    watchdog(20);
    for (int i = 0; i < 2; i++) {
        struct th *t = &G.t[i];
        t->x = &W.x[i];
        ctx_start(t->x);
        t->points = 0, t->calls = 0, t->done = false;
        t->stop[0] = i == a ? p : q, t->stop[1] = -1;
        t->maxcalls = i == a ? 0 : m;
        sem_init(&t->go, 0, 0);
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, t->stack, STACK);
        if (pthread_create(&t->id, &at, t_run, t)) exit(2);
    }
    trace("%s / %s: thread %c preempted at access %ld; the other one at "
        "access %ld, or after %d calls", ctx_str(&W.x[0]), ctx_str(&W.x[1]),
        'A' + a, p, q, m);
    sem_post(&G.t[a].go);
    for (int i = 0; i < 2; i++) pthread_join(G.t[i].id, NULL);
    sh->execs++, sh->validated += !G.infeasible;
    if (sh->nstates < COUNT(sh->states)) {
        uint64_t h[] = { R.item, a, p, q, m };
        uint64_t v = hash64(h, sizeof(h), 77);
        sh->states[sh->nstates++] = v;
    }
    return !t_bad || G.infeasible;
}

/* First and last occurrence of each site in each call */
static int select_points(struct th *t, long *out, int max)
{
    int n = 0;
    long np = MIN(t->points, MAXPTS);
    struct { struct pt p; long first, last; } *s = calloc(4096, sizeof(*s));
    int ns = 0;
    for (long k = 0; k < np; k++) {
        int j = ns - 1;
        while (j >= 0 && s[j].p.call == t->pts[k].call &&
               s[j].p.site != t->pts[k].site) j--;
        if (j >= 0 && s[j].p.call == t->pts[k].call)
            s[j].last = k;
        else if (ns < 4096)
            s[ns].p = t->pts[k], s[ns].first = s[ns].last = k, ns++;
    }
    for (int j = 0; j < ns && n < max - 1; j++) {
        out[n++] = s[j].first;
        if (s[j].last != s[j].first) out[n++] = s[j].last;
    }
    free(s);
    return n;
}

static void schedules(void *arg)
{
    static long pt[2][8192];
    int np[2];
    double t0 = elapsed(), limit = R.thorough ? 120 : 15;

    for (int i = 0; i < 2; i++) {
        G.t[i].stack = mmap(NULL, STACK, PROT_READ|PROT_WRITE,
            MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
        G.t[i].pts = malloc(MAXPTS * sizeof(struct pt));
    }

    /* One after the other, to learn the locations that are written */
    if (!execute(0, -1, -1, 0) || !execute(1, -1, -1, 0)) return;
    sh->foreign += F.n;
    if (!F.n) return;

    G.record = true;
    for (int a = 0; a < 2; a++) {
        if (!execute(a, -1, -1, 0)) return;
        np[a] = select_points(&G.t[a], pt[a], COUNT(pt[a]));
        sh->points += np[a];
    }
    G.record = false;

    for (int a = 0; a < 2; a++)
        for (int m = 0; m < 2; m++)
            for (int i = 0; i < np[a]; i++) {
                if (elapsed() - t0 > limit) return;
                if (!execute(a, pt[a][i], -1, m ? 0 : 1)) return;
            }
    for (int a = 0; a < 2; a++)
        for (int i = 0; i < np[a]; i++)
            for (int j = 0; j < np[!a]; j++) {
                if (elapsed() - t0 > limit) return;
                if (!execute(a, pt[a][i], pt[!a][j], 0)) return;
            }
}
