/* Driver side of the kernel's verification hooks: a table of scripted draws
   per ray (ray r is the one whose stream is seeded with BASE + r). */
typedef unsigned long long u64;
static int ACTIVE, B;
static long NR;
static u64 BASE;
static double DEF;
static const int *POS;
static const double *VAL;
static int *USED, *SEEDED;
static long BAD;
static __thread long cur = -1;
static __thread int n;

void verif_setup(int active, long nr, u64 base, int b, double def,
                 const int *pos, const double *val, int *used, int *seeded) {
    ACTIVE = active; NR = nr; BASE = base; B = b; DEF = def;
    POS = pos; VAL = val; USED = used; SEEDED = seeded; BAD = 0;
}
long verif_bad(void) { return BAD; }
long verif_current(void) { return cur; }

void pvtrace_verif_seed(void *rng, u64 seed) {
    (void)rng;
    n = 0;
    cur = -1;
    if (!ACTIVE) return;
    if (seed - BASE < (u64)NR) {
        cur = (long)(seed - BASE);
        __atomic_fetch_add(&SEEDED[cur], 1, __ATOMIC_RELAXED);
    } else {
        __atomic_fetch_add(&BAD, 1, __ATOMIC_RELAXED);
    }
}

double pvtrace_verif_uniform(void *rng, double u) {
    int i = n++, k;
    (void)rng;
    if (!ACTIVE) return u;
    if (cur < 0) return DEF;
    USED[cur] = n;
    for (k = 0; k < B; k++)
        if (POS[cur * B + k] == i) return VAL[cur * B + k];
    return DEF;
}
