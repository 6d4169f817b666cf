/* Controlled OpenMP runtime for stateless model checking.
 *
 * Linked, instead of libgomp and libtsan, with code compiled by
 * "gfortran -fopenmp -fsanitize=thread".  The threads of a team are fibers; every
 * instrumented memory access and every synchronisation is a scheduling point, at
 * which the explorer's choice sequence decides which thread goes on.  All the events
 * are logged, so that the explorer can compute happens-before and backtrack points.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <ucontext.h>
#include <sys/mman.h>

#define MAXT 8
#define STACK (1 << 20)

enum { EV_READ, EV_WRITE, EV_ATOMIC, EV_ACQ, EV_REL, EV_BARRIER, EV_FORK, EV_JOIN, EV_END, EV_CLAIM };

typedef struct { int32_t tid, kind; uint64_t addr; int32_t size, enabled; } event_t;

static event_t *ev; static long nev, capev;
static int32_t *choices; static long nchoices;
static int nthreads_conf = 1;
static int controlled = 0;      /* explorer active */
static int deadlock = 0, diverged = 0, overflow = 0;
static long nregions = 0, nswitch = 0;
static long evmax = 2000000;

typedef struct {
    ucontext_t ctx;
    void *stack;
    int state;                  /* 0 unused 1 runnable 2 blocked-lock 3 barrier 4 finished */
    void *waitlock;
    long loop_idx;              /* worksharing constructs met so far */
    long single_idx;
} fiber_t;

static fiber_t fib[MAXT];
static ucontext_t main_ctx;
static int cur = -1;            /* current fiber or -1 */
static int team = 1;
static void (*team_fn)(void *); static void *team_data;
static int in_region = 0;

/* locks */
#define MAXL 64
static struct { void *id; int owner; } locks[MAXL]; static int nlocks;

/* work shares (dynamic loops, sections): one per construct index */
#define MAXW 256
static struct { long init, next, end, incr, chunk; int guided, is_static, inited; long done; } ws[MAXW];
static int single_taken[MAXW];

static void logev(int tid, int kind, void *addr, int size, int enabled) {
    if (!controlled) return;
    if (nev >= evmax) { overflow = 1; return; }
    if (nev >= capev) {
        capev = capev ? capev * 2 : 4096;
        ev = realloc(ev, capev * sizeof *ev);
    }
    event_t *e = &ev[nev++];
    e->tid = tid; e->kind = kind; e->addr = (uint64_t) addr; e->size = size; e->enabled = enabled;
}

static int lock_index(void *id) {
    for (int i = 0; i < nlocks; i++) if (locks[i].id == id) return i;
    if (nlocks == MAXL) { fprintf(stderr, "mcomp: too many locks\n"); abort(); }
    locks[nlocks].id = id; locks[nlocks].owner = -1;
    return nlocks++;
}

static int enabled_mask(void) {
    int m = 0;
    for (int t = 0; t < team; t++) {
        if (fib[t].state == 1) m |= 1 << t;
        if (fib[t].state == 2 && locks[lock_index(fib[t].waitlock)].owner < 0) m |= 1 << t;
    }
    return m;
}

static void switch_to(int t) {
    int me = cur;
    if (t == me) return;
    nswitch++;
    cur = t;
    if (me < 0) swapcontext(&main_ctx, &fib[t].ctx);
    else swapcontext(&fib[me].ctx, &fib[t].ctx);
}

/* choose who performs the next event; the running fiber has already announced its own.
 * Returns in the caller when the caller has been chosen. The index of the decision is nev. */
static int announcing = 0; static ucontext_t announcer_ctx;
static void schedule(void) {
    if (announcing) {           /* run up to the first visible operation only */
        int me = cur;
        swapcontext(&fib[me].ctx, &announcer_ctx);
        return;                 /* chosen, later */
    }
    int m = enabled_mask();
    if (!m) {
        int unfinished = 0;
        for (int t = 0; t < team; t++) if (fib[t].state != 4) unfinished = 1;
        if (unfinished) deadlock = 1;
        int me = cur; cur = -1;
        if (me >= 0) swapcontext(&fib[me].ctx, &main_ctx);
        return;
    }
    int t;
    if (nev < nchoices) {
        t = choices[nev];
        if (t < 0 || t >= team || !(m >> t & 1)) { diverged = 1; t = -1; }
    } else t = -1;
    if (t < 0) {
        t = (cur >= 0 && (m >> cur & 1)) ? cur : __builtin_ctz(m);
    }
    switch_to(t);
}

static void announce(int t) {
    int me = cur;
    announcing = 1; cur = t;
    swapcontext(&announcer_ctx, &fib[t].ctx);
    announcing = 0; cur = me;
}

static inline int mask_now(void) { return enabled_mask(); }

static void point(int kind, void *addr, int size) {
    if (cur < 0 || !controlled || !in_region || overflow) return;
    schedule();
    logev(cur, kind, addr, size, mask_now());
}

static void fiber_main(int t) {
    team_fn(team_data);
    /* termination is an event of the thread */
    schedule();
    logev(t, EV_END, 0, 0, mask_now());
    fib[t].state = 4;
    schedule();             /* never comes back unless chosen wrongly */
    for (;;) { cur = -1; setcontext(&main_ctx); }
}

static void run_region(void (*fn)(void *), void *data, unsigned n) {
    if (!controlled || in_region) {      /* sequential, or nested: team of one */
        int st = team, sc = cur, sr = in_region, sctl = controlled;
        if (in_region) { fn(data); return; }
        team = 1; cur = -1; in_region = 0; controlled = 0;
        fn(data);
        team = st; cur = sc; in_region = sr; controlled = sctl;
        return;
    }
    team = n ? (int) n : nthreads_conf;
    if (team > MAXT) team = MAXT;
    team_fn = fn; team_data = data;
    nregions++;
    memset(ws, 0, sizeof ws); memset(single_taken, 0, sizeof single_taken);
    nlocks = 0;
    logev(-1, EV_FORK, 0, team, 0);
    for (int t = 0; t < team; t++) {
        if (!fib[t].stack) {
            fib[t].stack = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        }
        getcontext(&fib[t].ctx);
        fib[t].ctx.uc_stack.ss_sp = fib[t].stack;
        fib[t].ctx.uc_stack.ss_size = STACK;
        fib[t].ctx.uc_link = &main_ctx;
        makecontext(&fib[t].ctx, (void (*)(void)) fiber_main, 1, t);
        fib[t].state = 1; fib[t].loop_idx = 0; fib[t].single_idx = 0;
    }
    in_region = 1; cur = -1;
    for (int t = 0; t < team; t++) announce(t);
    schedule();
    /* back in main: every fiber finished, or deadlock */
    in_region = 0; cur = -1; team = 1;
    logev(-1, EV_JOIN, 0, 0, 0);
}

/* ---- explorer interface ---- */
void mc_begin(int nthreads, int32_t *ch, long n, long maxev) {
    nthreads_conf = nthreads; choices = ch; nchoices = n; nev = 0;
    deadlock = diverged = overflow = 0; nregions = nswitch = 0;
    controlled = 1; in_region = 0; cur = -1; evmax = maxev;
}
void mc_end(void) { controlled = 0; }
long mc_nevents(void) { return nev; }
event_t *mc_events(void) { return ev; }
int mc_deadlock(void) { return deadlock; }
int mc_diverged(void) { return diverged; }
int mc_overflow(void) { return overflow; }
long mc_regions(void) { return nregions; }
long mc_switches(void) { return nswitch; }

/* ---- GOMP ---- */
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { run_region(fn, data, n); }

static void lock(void *id) {
    if (cur < 0 || !in_region || !controlled) return;
    fib[cur].waitlock = id; fib[cur].state = 2;
    int l = lock_index(id);
    schedule();
    fib[cur].state = 1;
    if (deadlock) return;
    l = lock_index(id);
    locks[l].owner = cur;
    logev(cur, EV_ACQ, id, 1, mask_now());
}
static void unlock(void *id) {
    if (cur < 0 || !in_region || !controlled) return;
    schedule();
    locks[lock_index(id)].owner = -1;
    logev(cur, EV_REL, id, 1, mask_now());
}
static char crit, atom, ord;
void GOMP_critical_start(void) { lock(&crit); }
void GOMP_critical_end(void) { unlock(&crit); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&atom); }
void GOMP_atomic_end(void) { unlock(&atom); }
void GOMP_ordered_start(void) { lock(&ord); }
void GOMP_ordered_end(void) { unlock(&ord); }

void GOMP_barrier(void) {
    if (cur < 0 || !in_region || !controlled) return;
    int waiting = 0, alive = 0;
    schedule();
    for (int t = 0; t < team; t++) {
        if (fib[t].state != 4) alive++;
        if (fib[t].state == 3) waiting++;
    }
    logev(cur, EV_BARRIER, 0, waiting + 1 == team, mask_now());
    if (waiting + 1 == team) {
        for (int t = 0; t < team; t++) if (fib[t].state == 3) { fib[t].state = 1; announce(t); }
        return;
    }
    fib[cur].state = 3;
    schedule();
}
bool GOMP_cancellation_point(int w) { return false; }

/* ---- worksharing loops: chunks are claimed from a shared record ---- */
static bool ws_next(long w, long *istart, long *iend) {
    point(EV_CLAIM, &ws[w], 8);
    long n = ws[w].incr > 0 ? (ws[w].end - ws[w].next + ws[w].incr - 1) / ws[w].incr
                            : (ws[w].next - ws[w].end - ws[w].incr - 1) / -ws[w].incr;
    if (ws[w].incr > 0 ? ws[w].next >= ws[w].end : ws[w].next <= ws[w].end) return false;
    long k = ws[w].chunk;
    if (k < 1) k = 1;
    if (ws[w].guided) { long q = (n + team - 1) / team; if (q > k) k = q; }
    if (k > n) k = n;
    *istart = ws[w].next;
    ws[w].next += k * ws[w].incr;
    *iend = ws[w].next;
    return true;
}
static long cur_ws(void) { return cur < 0 ? 0 : fib[cur].loop_idx - 1; }
static bool ws_start(long s, long e, long inc, long chunk, int guided, long *is, long *ie) {
    long w;
    if (cur < 0 || !in_region || !controlled) { w = MAXW - 1; ws[w].inited = 0; }
    else { w = fib[cur].loop_idx++; if (w >= MAXW - 1) abort(); point(EV_CLAIM, &ws[w], 8); }
    if (!ws[w].inited) {
        ws[w].inited = 1; ws[w].init = ws[w].next = s; ws[w].end = e; ws[w].incr = inc; ws[w].chunk = chunk; ws[w].guided = guided;
    }
    if (w == MAXW - 1) {
        if (inc > 0 ? s >= e : s <= e) return false;
        long n = inc > 0 ? (e - s + inc - 1) / inc : (s - e - inc - 1) / -inc;
        *is = s; *ie = s + n * inc; ws[w].next = e;
        return true;
    }
    return ws_next(w, is, ie);
}
static bool seq_pending; static long seq_s, seq_e;
static bool ws_more(long *is, long *ie) {
    if (cur < 0 || !in_region || !controlled) {
        if (!seq_pending) return false;
        seq_pending = false;
        *is = seq_s; *ie = seq_e;
        return true;
    }
    return ws_next(cur_ws(), is, ie);
}
/* static schedule asked at run time: one contiguous chunk per thread (or round robin) */
#define LOOP(name, g) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return ws_start(s, e, i, c, g, a, b); } \
    bool GOMP_loop_##name##_next(long *a, long *b) { return ws_more(a, b); }
LOOP(dynamic, 0) LOOP(guided, 1) LOOP(static, 0)
LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 1)
LOOP(ordered_dynamic, 0) LOOP(ordered_guided, 1) LOOP(ordered_static, 0)
#define LOOPR(name) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return ws_start(s, e, i, 1, 0, a, b); } \
    bool GOMP_loop_##name##_next(long *a, long *b) { return ws_more(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { }

typedef struct { void (*fn)(void *); void *data; long s, e, i, c; int g; } ploop_t;
static ploop_t pl;
static void pl_init(void) {
    ws[0].inited = 1; ws[0].next = pl.s; ws[0].end = pl.e; ws[0].incr = pl.i; ws[0].chunk = pl.c; ws[0].guided = pl.g;
}
static void pl_main(void *d) {
    if (cur >= 0 && controlled && in_region) {
        if (!ws[0].inited) pl_init();
        fib[cur].loop_idx = 1;
    } else {
        long n = pl.i > 0 ? (pl.e - pl.s + pl.i - 1) / pl.i : (pl.s - pl.e - pl.i - 1) / -pl.i;
        seq_pending = n > 0; seq_s = pl.s; seq_e = pl.s + n * pl.i;
    }
    pl.fn(d);
}
static void parallel_loop(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, int g) {
    pl = (ploop_t) {fn, data, s, e, i, c, g};
    run_region(pl_main, data, n);
}
#define PLOOP(name, g) void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned f) \
    { parallel_loop(fn, data, n, s, e, i, c, g); }
PLOOP(dynamic, 0) PLOOP(guided, 1) PLOOP(static, 0) PLOOP(nonmonotonic_dynamic, 0) PLOOP(nonmonotonic_guided, 1)
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned f) \
    { parallel_loop(fn, data, n, s, e, i, 1, 0); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)

bool GOMP_single_start(void) {
    if (cur < 0 || !in_region || !controlled) return true;
    long w = fib[cur].single_idx++;
    if (w >= MAXW) abort();
    point(EV_CLAIM, &single_taken[w], 4);
    if (single_taken[w]) return false;
    single_taken[w] = 1;
    return true;
}
static unsigned seq_sections, seq_section;
unsigned GOMP_sections_next(void) {
    long a, b;
    if (cur < 0 || !in_region || !controlled) return seq_section < seq_sections ? ++seq_section : 0;
    return ws_next(cur_ws(), &a, &b) ? (unsigned) a : 0;
}
unsigned GOMP_sections_start(unsigned n) {
    long a, b;
    if (cur < 0 || !in_region || !controlled) { seq_sections = n; seq_section = n ? 1 : 0; return seq_section; }
    return ws_start(1, (long) n + 1, 1, 1, 0, &a, &b) ? (unsigned) a : 0;
}
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) { }

int omp_get_thread_num(void) { return cur < 0 ? 0 : cur; }
int omp_get_num_threads(void) { return in_region ? team : 1; }
int omp_get_max_threads(void) { return controlled ? nthreads_conf : 1; }
int omp_get_num_procs(void) { return nthreads_conf; }
int omp_in_parallel(void) { return in_region; }
int omp_get_level(void) { return in_region; }
double omp_get_wtime(void) { return 0; }
void omp_set_num_threads(int n) { }
int omp_get_thread_num_(void) { return omp_get_thread_num(); }
int omp_get_num_threads_(void) { return omp_get_num_threads(); }
int omp_get_max_threads_(void) { return omp_get_max_threads(); }
int omp_get_num_procs_(void) { return omp_get_num_procs(); }
int omp_in_parallel_(void) { return in_region; }
void omp_set_num_threads_(int *n) { }
/* explicit locks */
void omp_init_lock(void *l) {} void omp_destroy_lock(void *l) {}
void omp_set_lock(void *l) { lock(l); } void omp_unset_lock(void *l) { unlock(l); }
void omp_init_lock_(void *l) {} void omp_destroy_lock_(void *l) {}
void omp_set_lock_(void *l) { lock(l); } void omp_unset_lock_(void *l) { unlock(l); }

/* ---- TSan entry points ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) {}
void __tsan_vptr_read(void **p) {}
#define RW(n) \
    void __tsan_read##n(void *p) { point(EV_READ, p, n); } \
    void __tsan_write##n(void *p) { point(EV_WRITE, p, n); } \
    void __tsan_unaligned_read##n(void *p) { point(EV_READ, p, n); } \
    void __tsan_unaligned_write##n(void *p) { point(EV_WRITE, p, n); } \
    void __tsan_volatile_read##n(void *p) { point(EV_READ, p, n); } \
    void __tsan_volatile_write##n(void *p) { point(EV_WRITE, p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { point(EV_READ, p, (int) n); }
void __tsan_write_range(void *p, long n) { point(EV_WRITE, p, (int) n); }
/* an "omp atomic" is expanded by gfortran to this load followed, without another call,
 * by an inline compare-and-swap: one indivisible update, logged as such */
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *p, int mo) { point(EV_ATOMIC, (void *) p, b / 8); return *p; } \
    void __tsan_atomic##b##_store(volatile T *p, T v, int mo) { point(EV_ATOMIC, (void *) p, b / 8); *p = v; } \
    T __tsan_atomic##b##_exchange(volatile T *p, T v, int mo) { point(EV_ATOMIC, (void *) p, b / 8); T o = *p; *p = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int mo) { point(EV_ATOMIC, (void *) p, b / 8); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int mo) { point(EV_ATOMIC, (void *) p, b / 8); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int mo) { point(EV_ATOMIC, (void *) p, b / 8); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int mo) { point(EV_ATOMIC, (void *) p, b / 8); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int mo) { point(EV_ATOMIC, (void *) p, b / 8); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int mo) { point(EV_ATOMIC, (void *) p, b / 8); T o = *p; *p = ~(o & v); return o; } \
    bool __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int mf) \
        { point(EV_ATOMIC, (void *) p, b / 8); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
    bool __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int mf) \
        { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, mo, mf); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int mo, int mf) \
        { __tsan_atomic##b##_compare_exchange_strong(p, &e, v, mo, mf); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}

/* library calls that move memory, redirected with --wrap */
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) {
    if (in_region && cur >= 0 && n) { point(EV_READ, (void *) s, (int) n); point(EV_WRITE, d, (int) n); }
    return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
    if (in_region && cur >= 0 && n) { point(EV_READ, (void *) s, (int) n); point(EV_WRITE, d, (int) n); }
    return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
    if (in_region && cur >= 0 && n) point(EV_WRITE, d, (int) n);
    return __real_memset(d, c, n);
}
