/* Replays one execution of a concurrent scenario on the real compiled code.
 *
 * The code is instrumented by LLVM's ThreadSanitizer pass, whose callbacks are defined here.  Every thread runs as a
 * coroutine.  Atomic accesses to the shared cells named in the trace happen in the trace's order, and reads return the
 * value of the write the trace names, which must have been performed already by the code itself and must be one that
 * the C11 rules (coherence against everything that happens before, atomicity of updates) allow.
 * Independently of the solver, vector clocks detect data races and uses of memory that another thread released.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

#define MT 6
#define STACK (1 << 20)
#define ARENA (1 << 18)
#define MAXE 4096

typedef unsigned __int128 u128;
typedef struct { uint32_t c[MT]; } clk;
typedef struct { int thread; char kind; int block; long off; int size; long from; long mo; int spur; uint64_t write; int haswrite; } tev;
typedef struct { clk cur, relf, pend; bool hasrelf; ucontext_t ctx; char *stack; int state; int n, next; uint64_t *in; int nin, pin; int forever; } thr;
typedef struct { int done; uint64_t val; clk rel; int thread; uint32_t epoch; int ev; } hist;
typedef struct { uintptr_t a; size_t n; bool freed; bool setup; uint32_t fe; int ft; int align, owner; } blk;
enum { NEW, WAIT, DONE, STOP };
enum { KR, KW, KAR, KAW };

static int nth, nev;
static thr T[MT];
static tev E[MAXE];
static hist Hs[MAXE];
static blk B[1024];
static int nb, nsetup;
static char *arena;
static size_t used;
static uint32_t (*shadow)[MT][4];
static struct { uintptr_t a; uint32_t e[MT][4]; } S[65536];
static int cur = -1;        /* running thread; -1: setup */
static int now = -1;        /* trace position being executed */
static ucontext_t sched;
static char *entry[MT + 2];
static int forever;
static char logbuf[1 << 16];
static int loglen;

static void out(const char *st, const char *fmt, ...) {
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    printf("{\"status\": \"%s\", \"detail\": \"%s\", \"thread\": %d, \"at\": %d, \"log\": [%s]}\n", st, b, cur + 1, now, logbuf);
    fflush(stdout);
    _exit(0);
}
static void crash(int s) {
    char b[256];
    int n = snprintf(b, sizeof b, "{\"status\": \"%s\", \"detail\": \"signal %d\", \"thread\": %d, \"at\": %d, \"log\": []}\n",
                     s == SIGABRT ? "panic" : "signal", s, cur + 1, now);
    if (write(1, b, n)) {}
    _exit(0);
}

/* ------------------------------------------------------------------------------------------------ memory */
static blk *find(uintptr_t a) {
    if (a < (uintptr_t)arena || a >= (uintptr_t)arena + ARENA) return 0;
    for (int i = 0; i < nb; i++) if (a >= B[i].a && a < B[i].a + B[i].n) return &B[i];
    return 0;
}
static bool onstack(uintptr_t a) {
    for (int i = 0; i <= nth; i++) if (a >= (uintptr_t)T[i].stack && a < (uintptr_t)T[i].stack + STACK) return true;
    return false;
}
static uint32_t (*cell(uintptr_t a))[4] {
    if (a >= (uintptr_t)arena && a < (uintptr_t)arena + ARENA) return shadow[a - (uintptr_t)arena];
    size_t h = (a * 0x9E3779B97F4A7C15ull) >> 48;
    while (S[h].a && S[h].a != a) h = (h + 1) & 65535;
    S[h].a = a;
    return S[h].e;
}
static void place(uintptr_t a, char *b) {
    blk *k = find(a);
    if (k) sprintf(b, "block %d offset %ld", (int)(k - B), (long)(a - k->a));
    else sprintf(b, "static memory");
}
static void acc(uintptr_t a, size_t n, int kind) {
    if (cur < 0 || onstack(a)) return;
    bool in = a >= (uintptr_t)arena && a < (uintptr_t)arena + ARENA;
    char b[64];
    if (in) {
        blk *k = find(a);
        if (!k || a + n > k->a + k->n) out("oob", "access of %zu bytes outside any block", n);
        if (k->freed) { place(a, b); out("uaf", "thread %d uses %s released by thread %d", cur + 1, b, k->ft + 1); }
    } else {
        Dl_info i;
        if (!dladdr((void *)a, &i)) return;       /* not part of the program: C library memory */
    }
    clk *c = &T[cur].cur;
    for (size_t j = 0; j < n; j++) {
        uint32_t(*e)[4] = cell(a + j);
        for (int u = 0; u <= nth; u++) {
            if (u == cur) continue;
            for (int k = 0; k < 4; k++) {
                bool w = kind == KW || kind == KAW || k == KW || k == KAW;
                bool at = kind >= KAR && k >= KAR;
                if (w && !at && e[u][k] > c->c[u]) {
                    place(a + j, b);
                    out("race", "data race between threads %d and %d at %s", u + 1, cur + 1, b);
                }
            }
        }
        if (e[cur][kind] < c->c[cur]) e[cur][kind] = c->c[cur];
    }
}
void *sx_alloc(size_t n, size_t al, uint32_t owner) {
    if (!al || al & (al - 1) || n > 65536) out("alloc", "bad layout");
    uintptr_t a = ((uintptr_t)arena + used + al - 1) / al * al;
    if (a + n > (uintptr_t)arena + ARENA || nb >= 1024) out("error", "arena exhausted");
    used = a + n + 16 - (uintptr_t)arena;
    memset((void *)a, 0xa5, n);
    B[nb] = (blk){a, n, false, cur < 0, 0, 0, (int)al, (int)owner};
    nb++;
    return (void *)a;
}
void sx_free(void *p, size_t n, size_t al, uint32_t owner) {
    blk *k = find((uintptr_t)p);
    if (!k || k->a != (uintptr_t)p) out("alloc", "release of something that is no block");
    if (k->freed) out("uaf", "block %d released again by thread %d", (int)(k - B), cur + 1);
    if (k->n != n || k->align != (int)al || k->owner != (int)owner) out("alloc", "released with another layout");
    if (cur >= 0) {
        clk *c = &T[cur].cur;
        for (size_t j = 0; j < n; j++)
            for (int u = 0; u <= nth; u++)
                for (int q = 0; q < 4; q++)
                    if (u != cur && cell(k->a + j)[u][q] > c->c[u])
                        out("uaf", "memory released by thread %d while thread %d still uses it (block %d offset %zu)", cur + 1, u + 1, (int)(k - B), j);
    }
    k->freed = true;
    k->ft = cur;
}
void *sx_realloc(void *p, size_t o, size_t al, size_t n, uint32_t w) { out("error", "realloc"); return 0; }
uint64_t sx_live(void) { uint64_t r = 0; for (int i = 0; i < nb; i++) r += !B[i].freed; return r; }

/* ------------------------------------------------------------------------------------------------ inputs */
static uint64_t inp(void) {
    thr *t = &T[cur < 0 ? MT - 1 : cur];
    if (t->pin >= t->nin) out("diverge", "more inputs than expected");
    return t->in[t->pin++];
}
uint8_t sx_u8(void) { return inp(); }
uint16_t sx_u16(void) { return inp(); }
uint32_t sx_u32(void) { return inp(); }
uint64_t sx_u64(void) { return inp(); }
bool sx_bool(void) { return inp(); }
uint64_t sx_range(uint64_t a, uint64_t b) { uint64_t v = inp(); if (v < a || v > b) out("diverge", "input range"); return v; }
uint64_t sx_choose(uint64_t n) { uint64_t v = inp(); if (v >= n) out("diverge", "input range"); return v; }
uint64_t sx_conc(uint64_t v) { return v; }
void sx_assume(bool c) { if (!c) out("diverge", "assumption fails"); }
void sx_log(uint32_t t, uint64_t v) {
    loglen += snprintf(logbuf + loglen, sizeof logbuf - loglen, "%s[%d, %u, %lu]", loglen ? ", " : "", cur + 1, t, v);
}
void sx_cover(uint32_t i) {}
void sx_assert(bool c, uint32_t id) { if (!c) out("assert", "assertion %u", id); }
bool sx_try(void *f, void *d) { out("error", "catch"); return false; }

/* ------------------------------------------------------------------------------------------------ atomics */
static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void join(clk *a, const clk *b) { for (int i = 0; i < MT; i++) if (a->c[i] < b->c[i]) a->c[i] = b->c[i]; }
static int ncells;
static struct { int block; long off; int size; } C[256];
static int shared(uintptr_t a, int n, int *blk_, long *off) {
    blk *k = find(a);
    if (k && k->setup)
        for (int i = 0; i < ncells; i++)
            if (C[i].block == (int)(k - B) && C[i].off == (long)(a - k->a)) {
                if (C[i].size != n) out("diverge", "access size");
                *blk_ = C[i].block;
                *off = C[i].off;
                return 1;
            }
    return 0;
}
static uint64_t get(uintptr_t a, int n) { uint64_t v = 0; memcpy(&v, (void *)a, n); return v; }
static void put(uintptr_t a, uint64_t v, int n) { memcpy((void *)a, &v, n); }
static struct { int block; long off; long mo; } Top[256];
static int ntop;
static uint64_t mask(int n) { return n == 8 ? ~0ull : (1ull << (8 * n)) - 1; }

/* op: 0 load 1 store 2 xchg 3 add 4 sub 5 and 6 or 7 xor 8 nand 9 cas */
static uint64_t newval(int op, uint64_t o, uint64_t v) {
    switch (op) { case 1: case 2: case 9: return v; case 3: return o + v; case 4: return o - v; case 5: return o & v; case 6: return o | v; case 7: return o ^ v; case 8: return ~(o & v); }
    return o;
}
static int spins;
static uint64_t atomic(int op, uintptr_t a, uint64_t v, uint64_t cmp, int n, int mo, int fmo, bool *ok) {
    int b;
    long off;
    bool dummy;
    if (!ok) ok = &dummy;
    *ok = true;
    if (cur < 0 || !shared(a, n, &b, &off)) {
        uint64_t o = op == 1 ? 0 : get(a, n);
        bool w = op != 0 && !(op == 9 && o != cmp);
        *ok = !(op == 9 && o != cmp);
        acc(a, n, w ? KAW : KAR);
        if (w) put(a, newval(op, o, v) & mask(n), n);
        return o;
    }
    thr *t = &T[cur];
    if (forever && t->next >= t->n) {
        /* past the end of the trace: reads see the final values */
        uint64_t o = get(a, n);
        if (op == 0 || (op == 9 && o != cmp)) {
            if (++spins > 200) out("forever", "thread %d waits forever", cur + 1);
            *ok = false;
            return o;
        }
        out("diverge", "thread %d gets on", cur + 1);
    }
    /* wait for the turn */
    t->state = WAIT;
    swapcontext(&t->ctx, &sched);
    tev *e = &E[now];
    if (e->block != b || e->off != off) out("diverge", "thread %d accesses block %d offset %ld, trace says %d/%ld", cur + 1, b, off, e->block, e->off);
    uint64_t o = 0;
    clk s = {{0}};
    bool reads = op != 1;
    long rmo = 0;
    if (reads) {
        if (e->kind == 'W') out("diverge", "read where the trace writes");
        if (e->from >= 0) {
            hist *h = &Hs[e->from];
            if (!h->done || E[e->from].block != b || E[e->from].off != off) out("diverge", "source of a read");
            o = h->val;
            s = h->rel;
            rmo = E[e->from].mo;
        } else if (e->from == -2) {   /* written by a plain store */
            o = get(a, n);
            rmo = e->mo - 1;
        } else {
            for (int i = 0; i < now; i++) if (Hs[i].done && E[i].kind != 'R' && E[i].block == b && E[i].off == off && E[i].mo == 0) out("diverge", "initial value");
            o = Hs[now].val;          /* initial value, saved below */
        }
    }
    bool writes = op != 0 && !(op == 9 && (o != cmp || e->spur));
    *ok = !(op == 9 && !writes);
    if ((e->kind == 'R') != !writes) out("diverge", "thread %d %s where the trace has %c", cur + 1, writes ? "writes" : "does not write", e->kind);
    int rmode = op == 9 && !writes ? fmo : mo;
    /* coherence against everything that happens before */
    t->cur.c[cur]++;
    if (reads) { if (acq(rmode)) join(&t->cur, &s); else join(&t->pend, &s); }
    for (int i = 0; i < nev; i++) {
        if (i == now || !Hs[i].done || E[i].block != b || E[i].off != off) continue;
        bool iw = E[i].kind != 'R', ir = E[i].kind != 'W';
        long irm = ir ? (E[i].from < 0 ? 0 : E[E[i].from].mo) : 0;
        if (iw && writes && E[i].mo == e->mo) out("diverge", "modification order");
        if (Hs[i].thread != cur && Hs[i].epoch > t->cur.c[Hs[i].thread]) continue;
        if ((iw && writes && E[i].mo >= e->mo) || (iw && reads && e->from != -2 && E[i].mo > rmo) || (ir && E[i].from != -2 && writes && irm >= e->mo) || (ir && reads && E[i].from != -2 && e->from != -2 && irm > rmo))
            out("diverge", "incoherent trace");
    }
    if (reads && writes && e->mo != rmo + 1) out("diverge", "update is not atomic");
    acc(a, n, writes ? KAW : KAR);
    hist *h = &Hs[now];
    h->done = 1;
    h->thread = cur;
    h->epoch = t->cur.c[cur];
    if (writes) {
        h->val = newval(op, o, v) & mask(n);
        if (e->haswrite && h->val != e->write) out("diverge", "thread %d writes %lu, trace says %lu", cur + 1, h->val, e->write);
        if (rel(mo)) h->rel = t->cur; else if (t->hasrelf) h->rel = t->relf; else h->rel = (clk){{0}};
        if (reads) join(&h->rel, &s);
        int i;
        for (i = 0; i < ntop && !(Top[i].block == b && Top[i].off == off); i++) {}
        if (i == ntop) { Top[ntop].block = b; Top[ntop].off = off; Top[ntop++].mo = 0; }
        if (e->mo > Top[i].mo) { Top[i].mo = e->mo; put(a, h->val, n); }
    }
    t->cur.c[cur]++;
    t->next++;
    return o;
}
#define DEF(N, TY) \
    TY __tsan_atomic##N##_load(TY *a, int mo) { return atomic(0, (uintptr_t)a, 0, 0, N / 8, mo, mo, 0); } \
    void __tsan_atomic##N##_store(TY *a, TY v, int mo) { atomic(1, (uintptr_t)a, v, 0, N / 8, mo, mo, 0); } \
    TY __tsan_atomic##N##_exchange(TY *a, TY v, int mo) { return atomic(2, (uintptr_t)a, v, 0, N / 8, mo, mo, 0); } \
    TY __tsan_atomic##N##_fetch_add(TY *a, TY v, int mo) { return atomic(3, (uintptr_t)a, v, 0, N / 8, mo, mo, 0); } \
    TY __tsan_atomic##N##_fetch_sub(TY *a, TY v, int mo) { return atomic(4, (uintptr_t)a, v, 0, N / 8, mo, mo, 0); } \
    TY __tsan_atomic##N##_fetch_and(TY *a, TY v, int mo) { return atomic(5, (uintptr_t)a, v, 0, N / 8, mo, mo, 0); } \
    TY __tsan_atomic##N##_fetch_or(TY *a, TY v, int mo) { return atomic(6, (uintptr_t)a, v, 0, N / 8, mo, mo, 0); } \
    TY __tsan_atomic##N##_fetch_xor(TY *a, TY v, int mo) { return atomic(7, (uintptr_t)a, v, 0, N / 8, mo, mo, 0); } \
    TY __tsan_atomic##N##_fetch_nand(TY *a, TY v, int mo) { return atomic(8, (uintptr_t)a, v, 0, N / 8, mo, mo, 0); } \
    TY __tsan_atomic##N##_compare_exchange_val(TY *a, TY c, TY v, int mo, int fmo) { return atomic(9, (uintptr_t)a, v, c, N / 8, mo, fmo, 0); }
typedef struct { uint64_t v, ok; } casr;
casr sx_cas64(uint64_t *a, uint64_t c, uint64_t v, int mo, int fmo) { bool ok; uint64_t o = atomic(9, (uintptr_t)a, v, c, 8, mo, fmo, &ok); return (casr){o, ok}; }
DEF(8, uint8_t)
DEF(16, uint16_t)
DEF(32, uint32_t)
DEF(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (cur < 0) return;
    thr *t = &T[cur];
    if (acq(mo)) join(&t->cur, &t->pend);
    if (rel(mo)) { t->relf = t->cur; t->hasrelf = true; t->cur.c[cur]++; }
}
void __tsan_atomic_signal_fence(int mo) {}

/* ------------------------------------------------------------------------------------------------ plain accesses */
#define PL(N) \
    void __tsan_read##N(void *a) { acc((uintptr_t)a, N, KR); } \
    void __tsan_write##N(void *a) { acc((uintptr_t)a, N, KW); } \
    void __tsan_unaligned_read##N(void *a) { acc((uintptr_t)a, N, KR); } \
    void __tsan_unaligned_write##N(void *a) { acc((uintptr_t)a, N, KW); } \
    void __tsan_read_write##N(void *a) { acc((uintptr_t)a, N, KW); } \
    void __tsan_unaligned_read_write##N(void *a) { acc((uintptr_t)a, N, KW); }
PL(1) PL(2) PL(4) PL(8) PL(16)
void __tsan_read_range(void *a, size_t n) { acc((uintptr_t)a, n, KR); }
void __tsan_write_range(void *a, size_t n) { acc((uintptr_t)a, n, KW); }
void __tsan_vptr_read(void *a) { acc((uintptr_t)a, 8, KR); }
void __tsan_vptr_update(void *a, void *v) { acc((uintptr_t)a, 8, KW); }
void __tsan_func_entry(void *a) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { acc((uintptr_t)s, n, KR); acc((uintptr_t)d, n, KW); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { acc((uintptr_t)s, n, KR); acc((uintptr_t)d, n, KW); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) acc((uintptr_t)d, n, KW); return memset(d, c, n); }

/* ------------------------------------------------------------------------------------------------ threads */
static void (*fn[MT + 2])(void);
static void start(int t) {
    fn[t]();
    T[t].state = DONE;
    for (;;) swapcontext(&T[t].ctx, &sched);
}
static void resume(int t) {
    cur = t;
    swapcontext(&sched, &T[t].ctx);
    cur = -1;
}
static void mk(int t) {
    T[t].stack = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    getcontext(&T[t].ctx);
    T[t].ctx.uc_stack.ss_sp = T[t].stack;
    T[t].ctx.uc_stack.ss_size = STACK;
    T[t].ctx.uc_link = 0;
    T[t].cur.c[t] = 1;
    makecontext(&T[t].ctx, (void (*)(void))start, 1, t);
}
static long rd(FILE *f) { long v; if (fscanf(f, "%ld", &v) != 1) { fprintf(stderr, "bad trace\n"); exit(3); } return v; }
static uint64_t ru(FILE *f) { uint64_t v; if (fscanf(f, "%lu", &v) != 1) { fprintf(stderr, "bad trace\n"); exit(3); } return v; }
static void inputs(FILE *f, thr *t) {
    t->nin = rd(f);
    t->in = calloc(t->nin + 1, 8);
    for (int i = 0; i < t->nin; i++) t->in[i] = ru(f);
}
int main(int argc, char **argv) {
    FILE *f = fopen(argv[1], "r");
    char name[100], sym[120];
    if (!f || fscanf(f, "%99s", name) != 1) return 3;
    nth = rd(f);
    forever = rd(f);
    inputs(f, &T[MT - 1]);
    for (int i = 0; i <= nth; i++) inputs(f, &T[i]);
    ncells = rd(f);
    for (int i = 0; i < ncells; i++) { C[i].block = rd(f); C[i].off = rd(f); C[i].size = rd(f); }
    nev = rd(f);
    for (int i = 0; i < nev; i++) {
        tev *e = &E[i];
        e->thread = rd(f);
        fscanf(f, " %c", &e->kind);
        e->block = rd(f); e->off = rd(f); e->size = rd(f); e->from = rd(f); e->mo = rd(f); e->spur = rd(f); e->haswrite = rd(f); e->write = ru(f);
        T[e->thread].n++;
    }
    fclose(f);
    static char alt[65536];
    stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
    sigaltstack(&ss, 0);
    struct sigaction sa = {.sa_handler = crash, .sa_flags = SA_ONSTACK};
    sigaction(SIGABRT, &sa, 0);
    sigaction(SIGSEGV, &sa, 0);
    sigaction(SIGBUS, &sa, 0);
    sigaction(SIGILL, &sa, 0);
    sigaction(SIGFPE, &sa, 0);
    sigaction(SIGTRAP, &sa, 0);
    sigaction(SIGALRM, &sa, 0);
    alarm(20);
    if (!freopen("/dev/null", "w", stderr)) return 3;
    arena = mmap(0, ARENA + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    shadow = mmap(0, (size_t)ARENA * sizeof *shadow, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i <= nth + 1; i++) {
        if (i == nth + 1) sprintf(sym, "%s_s", name);
        else if (i == nth) sprintf(sym, "%s_f", name);
        else sprintf(sym, "%s_%d", name, i + 1);
        fn[i] = (void (*)(void))dlsym(RTLD_DEFAULT, sym);
        if (!fn[i]) { printf("{\"status\": \"error\", \"detail\": \"%s missing\"}\n", sym); return 3; }
    }
    fn[nth + 1]();
    nsetup = nb;
    if (T[MT - 1].pin != T[MT - 1].nin) out("diverge", "setup inputs");
    /* initial values */
    for (int i = 0; i < nev; i++)
        if (E[i].kind != 'W' && E[i].from == -1) {
            if (E[i].block < 0 || E[i].block >= nb) out("diverge", "block");
            Hs[i].val = get(B[E[i].block].a + E[i].off, E[i].size);
        }
    for (int i = 0; i <= nth; i++) mk(i);
    for (int i = 0; i < nth; i++) resume(i);
    int pos;
    for (pos = 0; pos < nev && E[pos].thread < nth; pos++) {
        int t = E[pos].thread;
        if (T[t].state != WAIT) { cur = t; out("diverge", "thread %d has ended", t + 1); }
        now = pos;
        resume(t);
    }
    bool all = true;
    for (int i = 0; i < nth; i++)
        if (T[i].state != DONE) {
            all = false;
            if (forever) { for (;;) resume(i); }
        }
    if (all && !forever) {
        thr *t = &T[nth];
        for (int i = 0; i < nth; i++) { T[i].cur.c[i]++; join(&t->cur, &T[i].cur); }
        resume(nth);
        for (; pos < nev; pos++) {
            if (t->state != WAIT) out("diverge", "final function has ended");
            now = pos;
            resume(nth);
        }
        if (t->state != DONE) out("diverge", "final function goes on");
        for (int i = 0; i < nth + 1; i++) if (T[i].pin != T[i].nin) out("diverge", "inputs of thread %d", i + 1);
        for (int i = 0; i < nb; i++) if (!B[i].freed) out("leak", "block %d is never released", i);
        out("ok", "");
    }
    out("cut", "");
}
