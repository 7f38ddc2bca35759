/* A controlled OpenMP runtime and shared-access monitor.

   The kernel is compiled with -fopenmp -fsanitize=thread but linked against
   this file instead of libgomp and libtsan.  A parallel region runs its team
   members as coroutines, each until it ends or waits at a barrier, in the order
   and with the assignment of work chunks the driver asks for; every instrumented access inside the region is
   recorded, and two members touching one byte between the same barriers, at
   least one writing and not both inside a critical section, are a conflict.  If no region has conflicts
   every other interleaving of the same assignment is equivalent. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>

typedef unsigned long long u64;
enum { MAXT = 8 };

/* --- driver interface --- */
static int team_limit = MAXT, icv = 3, order[MAXT] = {0, 1, 2, 3, 4, 5, 6, 7};
static const int *assign; static long nassign;
static long nconf, nacc, nregions, nchunks, natomic, nbarrier, nescaped, last_team, last_chunk;
static u64 conf_pc, conf_pc2, conf_addr; static int conf_t1, conf_t2;

void rt_setup(int limit, int default_threads, const int *ord, const int *asg, long n) {
    team_limit = limit; icv = default_threads;
    for (int i = 0; i < MAXT; i++) order[i] = ord ? ord[i] : i;
    assign = asg; nassign = n;
    nconf = nacc = nregions = nchunks = natomic = nbarrier = nescaped = last_team = last_chunk = 0;
}
long rt_stat(int k) {
    switch (k) {
    case 0: return nconf; case 1: return nacc; case 2: return nregions; case 3: return nchunks;
    case 4: return natomic; case 5: return nbarrier; case 6: return nescaped; case 7: return last_team;
    case 8: return last_chunk; case 9: return (long)conf_pc; case 10: return conf_t1; case 11: return conf_t2;
    case 12: return (long)conf_pc2; default: return 0;
    }
}
void *rt_base(void) { return (void *)rt_base; }

/* --- region state --- */
static int active, cur, team = 1, crit;
enum { STACK = 1 << 20 };
static char *stacks[MAXT];
static ucontext_t main_ctx, ctx[MAXT];
static int waiting[MAXT], done[MAXT], loopno[MAXT];

/* --- shadow --- */
typedef struct { uintptr_t g; unsigned ep; uint8_t w[MAXT], r[MAXT], cw[MAXT], cr[MAXT]; u64 pc; } Sh;
enum { LOG = 20, N = 1 << LOG };
static Sh *sh; static unsigned epoch = 0; static long fill;

static Sh *slot(uintptr_t g) {
    u64 h = (g * 0x9E3779B97F4A7C15ull) >> (64 - LOG);
    for (long k = 0; k < N; k++) {
        Sh *s = &sh[(h + k) & (N - 1)];
        if (s->ep != epoch) { memset(s, 0, sizeof *s); s->ep = epoch; s->g = g; fill++; return s; }
        if (s->g == g) return s;
    }
    abort();
}

static void hit(uintptr_t a, int size, int wr, u64 pc) {
    if (!active) return;
    uintptr_t lo = (uintptr_t)stacks[cur];
    if (a >= lo && a < lo + STACK) return;      /* private stack */
    nacc++;
    while (size > 0) {
        uintptr_t g = a >> 3; int off = a & 7, n = 8 - off < size ? 8 - off : size;
        uint8_t m = (uint8_t)(((1u << n) - 1) << off);
        Sh *s = slot(g);
        for (int t = 0; t < team && t < MAXT; t++) {
            if (t == cur) continue;
            uint8_t other = s->w[t] | (wr ? s->r[t] : 0);
            if (!crit) other |= s->cw[t] | (wr ? s->cr[t] : 0);
            if (other & m) {
                if (!nconf) { conf_pc = pc; conf_pc2 = s->pc; conf_addr = a; conf_t1 = t; conf_t2 = cur; }
                nconf++;
            }
        }
        uint8_t *x = crit ? (wr ? s->cw : s->cr) : (wr ? s->w : s->r);
        x[cur] |= m;
        if (wr || !s->pc) s->pc = pc;
        a += n; size -= n;
    }
}
static void forget(uintptr_t a, size_t n) {
    if (!active) return;
    for (uintptr_t g = a >> 3; g <= (a + n) >> 3; g++) {
        u64 h = (g * 0x9E3779B97F4A7C15ull) >> (64 - LOG);
        for (long k = 0; k < N; k++) {
            Sh *s = &sh[(h + k) & (N - 1)];
            if (s->ep != epoch) break;
            if (s->g == g) { memset(s->w, 0, 4 * MAXT); break; }
        }
    }
}

#define PC ((u64)__builtin_return_address(0))
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) \
  void __tsan_read##n(void *p) { hit((uintptr_t)p, n, 0, PC); } \
  void __tsan_write##n(void *p) { hit((uintptr_t)p, n, 1, PC); } \
  void __tsan_read_write##n(void *p) { hit((uintptr_t)p, n, 1, PC); } \
  void __tsan_unaligned_read##n(void *p) { hit((uintptr_t)p, n, 0, PC); } \
  void __tsan_unaligned_write##n(void *p) { hit((uintptr_t)p, n, 1, PC); } \
  void __tsan_volatile_read##n(void *p) { hit((uintptr_t)p, n, 0, PC); } \
  void __tsan_volatile_write##n(void *p) { hit((uintptr_t)p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { hit((uintptr_t)p, (int)n, 0, PC); }
void __tsan_write_range(void *p, unsigned long n) { hit((uintptr_t)p, (int)n, 1, PC); }
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void __tsan_vptr_read(void **p) { (void)p; }
#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *p, int mo) { (void)mo; natomic += active; return *p; } \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { (void)mo; natomic += active; *p = v; } \
  T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { (void)mo; natomic += active; T o = *p; *p = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { (void)mo; natomic += active; T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { (void)mo; natomic += active; T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { (void)mo; natomic += active; T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { (void)mo; natomic += active; T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { (void)mo; natomic += active; T o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fo) { (void)mo; (void)fo; natomic += active; if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fo); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fo) { (void)mo; (void)fo; natomic += active; T o = *p; if (o == e) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) forget((uintptr_t)p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (p) forget((uintptr_t)p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (p && p != q) forget((uintptr_t)p, n); return p; }
void __wrap_free(void *p) { __real_free(p); }
void *__real_memcpy(void *, const void *, size_t); void *__real_memset(void *, int, size_t); void *__real_memmove(void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { hit((uintptr_t)s, (int)n, 0, PC); hit((uintptr_t)d, (int)n, 1, PC); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { hit((uintptr_t)s, (int)n, 0, PC); hit((uintptr_t)d, (int)n, 1, PC); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { hit((uintptr_t)d, (int)n, 1, PC); return __real_memset(d, c, n); }

/* --- OpenMP --- */
int omp_get_thread_num(void) { return active ? cur : 0; }
int omp_get_num_threads(void) { return active ? team : 1; }
int omp_get_max_threads(void) { return icv; }
int omp_get_num_procs(void) { return icv; }
int omp_in_parallel(void) { return active; }
void omp_set_num_threads(int n) { if (n > 0) icv = n; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int d) { (void)d; }

/* work-sharing loops of a region, in program order */
enum { MAXL = 64 };
typedef struct { long start, end, incr, chunk, n; int ready, kind; long pos[MAXT]; } Loop;
static Loop LOOPS[MAXL];
#define W (LOOPS[loopno[cur] % MAXL])

static void loop_init(int kind, long start, long end, long incr, long chunk) {
    if (!W.ready) {
        W.start = start; W.end = end; W.incr = incr; W.chunk = chunk > 0 ? chunk : 1; W.kind = kind;
        long total = incr > 0 ? (end - start + incr - 1) / incr : (start - end - incr - 1) / -incr;
        if (total < 0) total = 0;
        if (kind == 1 && chunk <= 0) W.chunk = (total + team - 1) / team > 0 ? (total + team - 1) / team : 1;
        W.n = (total + W.chunk - 1) / W.chunk;
        nchunks += W.n; last_chunk = W.chunk;
        for (int t = 0; t < MAXT; t++) W.pos[t] = 0;
        W.ready = 1;
    }
}
static int owner(long k) {
    if (W.kind == 1) return (int)(k % team);
    if (assign && k < nassign) return assign[k] % team;
    return (int)(k % team);
}
static _Bool loop_next(long *s, long *e) {
    while (W.pos[cur] < W.n) {
        long k = W.pos[cur]++;
        if (owner(k) != cur) continue;
        *s = W.start + k * W.chunk * W.incr;
        *e = *s + W.chunk * W.incr;
        if (W.incr > 0 ? *e > W.end : *e < W.end) *e = W.end;
        return 1;
    }
    return 0;
}
#define LOOP(name, kind) \
  _Bool GOMP_loop_##name##_start(long a, long b, long i, long c, long *s, long *e) { loop_init(kind, a, b, i, c); return loop_next(s, e); } \
  _Bool GOMP_loop_##name##_next(long *s, long *e) { return loop_next(s, e); } \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, long c, unsigned f) { (void)f; region(fn, d, nt, 1, kind, a, b, i, c); }
static void region(void (*fn)(void *), void *data, unsigned nt, int loop, int kind, long a, long b, long i, long c);
LOOP(static, 1) LOOP(dynamic, 0) LOOP(guided, 0) LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 0)
#define LOOPR(name) \
  _Bool GOMP_loop_##name##_start(long a, long b, long i, long *s, long *e) { loop_init(0, a, b, i, 1); return loop_next(s, e); } \
  _Bool GOMP_loop_##name##_next(long *s, long *e) { return loop_next(s, e); } \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, unsigned f) { (void)f; region(fn, d, nt, 1, 0, a, b, i, 1); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime)
static void barrier(void) {
    if (!active || team == 1) return;
    nbarrier++;
    waiting[cur] = 1;
    swapcontext(&ctx[cur], &main_ctx);
}
void GOMP_barrier(void) { barrier(); }
void GOMP_loop_end(void) { loopno[cur]++; barrier(); }
void GOMP_loop_end_nowait(void) { loopno[cur]++; }
void GOMP_parallel(void (*fn)(void *), void *d, unsigned nt, unsigned f) { (void)f; region(fn, d, nt, 0, 0, 0, 0, 1, 1); }
void GOMP_critical_start(void) { crit++; }
void GOMP_critical_end(void) { crit--; }
void GOMP_critical_name_start(void **p) { (void)p; crit++; }
void GOMP_critical_name_end(void **p) { (void)p; crit--; }
void GOMP_atomic_start(void) { crit++; }
void GOMP_atomic_end(void) { crit--; }
_Bool GOMP_single_start(void) { return cur == order[0]; }

static void (*body)(void *);
static void *body_arg;
static void entry(int t) {
    body(body_arg);
    done[t] = 1;
}

static void region(void (*fn)(void *), void *data, unsigned nt, int loop, int kind, long a, long b, long i, long c) {
    if (active) { fn(data); return; }
    nregions++;
    team = nt ? (int)nt : icv;
    if (team > MAXT) team = MAXT;
    if (team > team_limit) team = team_limit;
    last_team = team;
    if (!sh) sh = calloc(N, sizeof *sh);
    for (int l = 0; l < MAXL; l++) LOOPS[l].ready = 0;
    body = fn; body_arg = data;
    for (int t = 0; t < team; t++) {
        if (!stacks[t]) stacks[t] = malloc(STACK);
        loopno[t] = waiting[t] = done[t] = 0;
        getcontext(&ctx[t]);
        ctx[t].uc_stack.ss_sp = stacks[t];
        ctx[t].uc_stack.ss_size = STACK;
        ctx[t].uc_link = &main_ctx;
        makecontext(&ctx[t], (void (*)(void))entry, 1, t);
    }
    cur = 0;
    if (loop) loop_init(kind, a, b, i, c);
    for (int left = team; left;) {
        if (++epoch == 0) { memset(sh, 0, N * sizeof *sh); epoch = 1; }
        fill = 0;
        for (int k = 0; k < MAXT; k++) {
            int t = order[k];
            if (t >= team || done[t]) continue;
            cur = t; waiting[t] = 0; crit = 0;
            active = 1;
            swapcontext(&main_ctx, &ctx[t]);
            active = 0;
            if (done[t]) left--;
        }
    }
    cur = 0; team = 1; crit = 0;
}
