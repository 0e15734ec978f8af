/* Deterministic simulation runtime.
 *
 * Linked into the harness binary.  All crates (the repository's, rayon, crossbeam, ...) are compiled
 * with LLVM's tsan pass, so every atomic operation becomes a call of a __tsan_atomic* function below: a
 * scheduling point.  Threads that take part in a simulation ("sim threads") run one at a time; a seeded
 * scheduler (or a recorded schedule) decides at each point who runs next.  Blocking (futex) is simulated,
 * so deadlock is visible.  libc entry points that meet faults in real deployments are interposed.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <sys/uio.h>
#include <unistd.h>
#include <pthread.h>
#include <dlfcn.h>
#include <stdlib.h>
#include <time.h>

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void rfutex_wait(uint32_t *p, uint32_t v) { raw6(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void rfutex_wake(uint32_t *p, int n) { raw6(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, n, 0, 0, 0); }

/* ------------------------------------------------------------------ scheduler ---------------- */
#define MAXT 72
enum { UNUSED = 0, RUN = 1, BLOCKED = 2, DONE = 3 };
enum { EV_SWITCH = 0, EV_SPURIOUS = 1 };
enum { POL_RANDOM = 0, POL_PCT = 1, POL_RR = 2, POL_SERIAL = 3 };

typedef struct { uint64_t step; uint32_t kind; uint32_t arg; } sim_event;

typedef struct {
    uint64_t steps, switches, forced, spurious, stalls, futex_waits, futex_wakes, yields, hash, sched_hash;
    uint64_t nthreads, overflow, mmap_calls, mmap_failed, malloc_calls, malloc_failed, io_ops, io_faults, rmw_ops;
    uint64_t nevents;
    uint64_t contended;
} sim_stats;

typedef struct {
    uint64_t seed;
    uint32_t policy, log2p;
    uint32_t quantum, replay;
    uint64_t max_steps;
    uint32_t spurious, stall;     /* enable those fault kinds */
    uint64_t nevents_in;
} sim_cfg;

typedef struct {
    volatile int state;
    uint32_t baton;
    uint32_t ready;
    volatile uint32_t *wait_addr;
    uint32_t wait_bits;
    uint64_t prio;
    uint64_t stall_until;
    int woken;
} thr;

static thr T[MAXT];
static int nthr;
static volatile int active;
static int cur;
static __thread int me = -1;
static __thread int inrt = 0;
static sim_cfg C;
static sim_stats *ST;           /* shared memory */
static sim_event *EV_OUT;       /* recorded schedule (shared memory) */
static uint64_t EV_CAP;
static const sim_event *EV_IN;
static uint64_t ev_pos;
static uint64_t step, next_event, fair_deadline, pol_next, rng;
static uint64_t low_prio;
static __thread int malloc_armed;
static volatile long thread_fail_at = -1;
static long thread_count, thread_failed;
void sim_thread_faults(long at) { thread_fail_at = at; thread_count = 0; }
long sim_thread_failed(void) { return thread_failed; }
#define FAIR 3000

static uint64_t rnd(void) {
    rng += 0x9E3779B97F4A7C15ull;
    uint64_t z = rng;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t gap(void) { /* geometric-ish with mean 2^log2p */
    if (C.log2p == 0) return 1;
    uint64_t m = 1ull << C.log2p;
    return 1 + rnd() % (2 * m - 1);
}
static void recompute(void) {
    uint64_t n = fair_deadline;
    if (C.replay) {
        if (ev_pos < C.nevents_in && EV_IN[ev_pos].step < n) n = EV_IN[ev_pos].step;
    } else if (pol_next < n) n = pol_next;
    if (C.max_steps < n) n = C.max_steps;
    next_event = n;
}
static void record(uint32_t kind, uint32_t arg) {
    if (ST->nevents < EV_CAP) { EV_OUT[ST->nevents].step = step; EV_OUT[ST->nevents].kind = kind; EV_OUT[ST->nevents].arg = arg; ST->nevents++; }
    else ST->overflow++;
    ST->sched_hash = (ST->sched_hash ^ ((uint64_t)kind << 40 ^ (uint64_t)arg << 32 ^ step)) * 0x100000001b3ull;
}
static void finish_hard(int code) { ST->steps = step; raw6(SYS_exit_group, code, 0, 0, 0, 0, 0); }

static void hand_to(int t) {
    int self = me;
    if (t == self) return;
    ST->switches++;
    cur = t;
    fair_deadline = step + FAIR;
    recompute();
    __atomic_store_n(&T[t].baton, 1, __ATOMIC_SEQ_CST);
    rfutex_wake(&T[t].baton, 1);
    if (T[self].state == DONE) return;
    while (!__atomic_load_n(&T[self].baton, __ATOMIC_SEQ_CST)) rfutex_wait(&T[self].baton, 0);
    __atomic_store_n(&T[self].baton, 0, __ATOMIC_SEQ_CST);
}
static int runnable_count(int excl) { int n = 0; for (int i = 0; i < nthr; i++) if (i != excl && T[i].state == RUN) n++; return n; }
static int default_next(void) { for (int k = 1; k <= nthr; k++) { int i = (me + k) % nthr; if (i != me && T[i].state == RUN) return i; } return -1; }
static int random_other(void) {
    int c[MAXT], n = 0;
    for (int i = 0; i < nthr; i++) if (i != me && T[i].state == RUN && T[i].stall_until <= step) c[n++] = i;
    if (!n) for (int i = 0; i < nthr; i++) if (i != me && T[i].state == RUN) c[n++] = i;
    if (!n) return -1;
    return c[rnd() % n];
}
static int best_prio(int excl) {
    int b = -1;
    for (int i = 0; i < nthr; i++) if (i != excl && T[i].state == RUN && (b < 0 || T[i].prio > T[b].prio)) b = i;
    return b;
}
/* decide who runs next; must: the current thread cannot continue.  yield: should not continue. */
static void schedule(int must, int yield) {
    if (step >= C.max_steps) finish_hard(78);
    if (must && runnable_count(-1) == 0) {
        finish_hard(77); /* every thread blocked: deadlock */
    }
    int target = me;
    int fair = step >= fair_deadline;
    if (C.replay) {
        int have = 0;
        while (ev_pos < C.nevents_in && EV_IN[ev_pos].step <= step) {
            const sim_event *e = &EV_IN[ev_pos++];
            if (e->step < step || e->arg >= (uint32_t)nthr) continue;
            if (e->kind == EV_SPURIOUS) { if (T[e->arg].state == BLOCKED) { T[e->arg].state = RUN; ST->spurious++; record(EV_SPURIOUS, e->arg); } }
            else if (T[e->arg].state == RUN) { target = (int)e->arg; have = 1; }
        }
        if (!have && (must || yield || fair)) { int d = default_next(); if (d >= 0) target = d; }
        if (have || target != me) record(EV_SWITCH, target);
    } else {
        if (C.spurious && (rnd() & 0xff) == 0) {
            int c[MAXT], n = 0;
            for (int i = 0; i < nthr; i++) if (T[i].state == BLOCKED && T[i].wait_addr) c[n++] = i;
            if (n) { int t = c[rnd() % n]; T[t].state = RUN; ST->spurious++; record(EV_SPURIOUS, t); }
        }
        int polev = step >= pol_next;
        switch (C.policy) {
        case POL_RANDOM:
            if (polev) {
                pol_next = step + gap();
                if (C.stall && (rnd() & 0x3f) == 0) { T[me].stall_until = step + 64 + rnd() % 20000; ST->stalls++; }
            }
            if (polev || must || yield || fair) { int t = random_other(); if (t >= 0 && (must || yield || fair || (rnd() & 3) || T[me].stall_until > step)) target = t; }
            break;
        case POL_PCT:
            if (polev) { pol_next = step + gap(); T[me].prio = low_prio--; }
            if (yield || fair) T[me].prio = low_prio--;
            { int b = best_prio(-1); if (b >= 0) target = b; }
            if (yield && target == me) { int t = best_prio(me); if (t >= 0) target = t; }
            break;
        case POL_RR:
            if (polev) pol_next = step + C.quantum;
            if (polev || must || yield || fair) { int t = default_next(); if (t >= 0) target = t; }
            break;
        default:
            pol_next = UINT64_MAX;
            if (must || yield || fair) { int t = default_next(); if (t >= 0) target = t; }
        }
        if (target != me) record(EV_SWITCH, target);
    }
    if (must && (target == me || T[target].state != RUN)) { int t = default_next(); if (t < 0) { if (T[me].state == RUN) target = me; else finish_hard(77); } else target = t; }
    if (fair || target != me) fair_deadline = step + FAIR;
    recompute();
    if (target != me) { if (must || yield) ST->forced++; hand_to(target); }
}
static inline void point(int kind) {
    if (me < 0 || !active || inrt) return;
    inrt = 1;
    step++;
    ST->hash = (ST->hash ^ ((uint64_t)me << 8 ^ kind)) * 0x100000001b3ull;
    if (step >= next_event) schedule(0, 0);
    inrt = 0;
}
void sim_point(void) { point(60); }

void sim_begin(const sim_cfg *cfg, sim_stats *st, sim_event *out, uint64_t cap, const sim_event *in) {
    memset(T, 0, sizeof T);
    C = *cfg; ST = st; EV_OUT = out; EV_CAP = cap; EV_IN = in; ev_pos = 0;
    memset(ST, 0, sizeof *ST);
    ST->hash = ST->sched_hash = 0xcbf29ce484222325ull;
    rng = C.seed; step = 0; low_prio = 1ull << 40; nthr = 1; cur = 0; me = 0;
    T[0].state = RUN; T[0].prio = (1ull << 50) + (rnd() >> 20);
    fair_deadline = FAIR; pol_next = C.policy == POL_RR ? C.quantum : gap();
    ST->nthreads = 1;
    recompute();
    active = 1;
}
void sim_end(void) { if (ST) ST->steps = step; active = 0; me = -1; }
uint64_t sim_now(void) { return step; }
int sim_self(void) { return me; }
int sim_new_thread(void) {
    if (nthr >= MAXT) finish_hard(79);
    int id = nthr++;
    T[id].state = UNUSED; T[id].prio = (1ull << 50) + (rnd() >> 20);
    ST->nthreads = nthr;
    return id;
}
/* the new OS thread is parked at its entry: from now on the scheduler may choose it */
void sim_wait_ready(int id) {
    while (!__atomic_load_n(&T[id].ready, __ATOMIC_SEQ_CST)) rfutex_wait(&T[id].ready, 0);
    T[id].state = RUN;
    if (C.policy == POL_PCT && !C.replay) next_event = step + 1;
    point(61);
}
void sim_thread_start(int id) {
    __atomic_store_n(&T[id].ready, 1, __ATOMIC_SEQ_CST);
    rfutex_wake(&T[id].ready, 1);
    while (!__atomic_load_n(&T[id].baton, __ATOMIC_SEQ_CST)) rfutex_wait(&T[id].baton, 0);
    __atomic_store_n(&T[id].baton, 0, __ATOMIC_SEQ_CST);
    me = id;
}
static volatile uint32_t exit_word[MAXT];
void sim_thread_exit(void) {
    inrt = 1;
    int self = me;
    exit_word[self] = 1;
    for (int i = 0; i < nthr; i++) if (T[i].state == BLOCKED && T[i].wait_addr == &exit_word[self]) T[i].state = RUN;
    T[self].state = DONE;
    step++;
    if (runnable_count(-1) == 0) finish_hard(77);
    schedule(1, 0);
    me = -1;
}
static void block_on(volatile uint32_t *addr, uint32_t bits) {
    T[me].state = BLOCKED; T[me].wait_addr = addr; T[me].wait_bits = bits;
    schedule(1, 0);
    T[me].wait_addr = 0;
}
/* wait until simulated thread id has finished */
void sim_join(int id) {
    inrt = 1;
    while (!exit_word[id]) { step++; block_on(&exit_word[id], ~0u); }
    inrt = 0;
}

/* ------------------------------------------------------------------ threads ------------------ */
/* Threads created by simulated threads are simulated.  A thread leaves the simulation after its
 * thread-local destructors have run. */
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static pthread_key_t exit_key;
static pthread_t T_pt[MAXT];
static void exit_hook(void *p) { (void)p; if (me >= 0 && active) sim_thread_exit(); }
__attribute__((constructor)) static void threads_init(void) {
    real_create = dlsym(RTLD_NEXT, "pthread_create");
    real_join = dlsym(RTLD_NEXT, "pthread_join");
    pthread_key_create(&exit_key, exit_hook);
}
typedef struct { void *(*f)(void *); void *a; int id; } boot;
static void *boot_main(void *p) {
    boot b = *(boot *)p;
    free(p);
    pthread_setspecific(exit_key, (void *)1);
    sim_thread_start(b.id);
    return b.f(b.a);
}
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
    if (me < 0 || !active || inrt) return real_create(t, at, f, a);
    if (thread_fail_at >= 0 && thread_count++ == thread_fail_at) { thread_failed++; return EAGAIN; }
    int armed = malloc_armed;
    malloc_armed = 0;
    boot *b = malloc(sizeof *b);
    b->f = f; b->a = a; b->id = sim_new_thread();
    int id = b->id;
    inrt = 1;
    int r = real_create(t, at, boot_main, b);
    inrt = 0;
    malloc_armed = armed;
    if (r) { T[id].state = DONE; exit_word[id] = 1; free(b); return r; }
    T_pt[id] = *t;
    sim_wait_ready(id);
    return 0;
}
int pthread_join(pthread_t t, void **ret) {
    if (me >= 0 && active && !inrt)
        for (int i = nthr - 1; i > 0; i--) if (T_pt[i] == t && T[i].state != UNUSED) { sim_join(i); break; }
    return real_join(t, ret);
}

/* ------------------------------------------------------------------ time --------------------- */
/* Virtual time: 100 ns per scheduling step plus what sleeping skipped. */
static uint64_t skipped_ns;
static uint64_t vnow(void) { return 1000000000000ull + step * 100 + skipped_ns; }
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (me >= 0 && active && (c == CLOCK_MONOTONIC || c == CLOCK_REALTIME || c == CLOCK_BOOTTIME)) {
        point(54);
        uint64_t n = vnow() + (c == CLOCK_REALTIME ? 1500000000000000000ull : 0);
        ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull;
        return 0;
    }
    long r = raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}
static void vsleep_until(uint64_t t) {
    while (vnow() < t) {
        if (runnable_count(me) == 0) { skipped_ns += t - vnow(); break; }
        step++; schedule(0, 1);
    }
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *rq, struct timespec *rm) {
    if (me >= 0 && active && !inrt) {
        uint64_t d = (uint64_t)rq->tv_sec * 1000000000ull + rq->tv_nsec;
        if (flags & TIMER_ABSTIME) { if (c == CLOCK_REALTIME) d -= 1500000000000000000ull; } else d += vnow();
        inrt = 1; vsleep_until(d); inrt = 0;
        return 0;
    }
    return (int)-raw6(SYS_clock_nanosleep, c, flags, (long)rq, (long)rm, 0, 0);
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
    int r = clock_nanosleep(CLOCK_MONOTONIC, 0, rq, rm);
    if (r) { errno = r; return -1; }
    return 0;
}

/* ------------------------------------------------------------------ libc seams --------------- */
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && me >= 0 && active && !inrt) {
        int op = (int)b & 127;
        uint32_t *addr = (uint32_t *)a;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            inrt = 1; step++; ST->futex_waits++;
            ST->hash = (ST->hash ^ ((uint64_t)me << 8 ^ 50)) * 0x100000001b3ull;
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (uint32_t)c) { inrt = 0; errno = EAGAIN; return -1; }
            if (d) { /* timed wait: poll; time jumps forward when everybody else is blocked */
                const struct timespec *ts = (const struct timespec *)d;
                uint64_t dl = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
                if (op == FUTEX_WAIT) dl += vnow();
                else if ((int)b & FUTEX_CLOCK_REALTIME) dl -= 1500000000000000000ull;
                int to = 1;
                while (vnow() < dl) {
                    if (runnable_count(me) == 0) { skipped_ns += dl - vnow(); break; }
                    step++; schedule(0, 1);
                    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (uint32_t)c) { to = 0; break; }
                }
                inrt = 0;
                if (to) { errno = ETIMEDOUT; return -1; }
                return 0;
            }
            block_on(addr, op == FUTEX_WAIT_BITSET ? (uint32_t)f : ~0u);
            inrt = 0;
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            point(51);
            inrt = 1; ST->futex_wakes++;
            int n_woken = 0; uint32_t bits = op == FUTEX_WAKE_BITSET ? (uint32_t)f : ~0u;
            for (int k = 0; k < nthr && n_woken < (int)c; k++) {
                int i = (me + 1 + k) % nthr;
                if (T[i].state == BLOCKED && T[i].wait_addr == addr && (T[i].wait_bits & bits)) { T[i].state = RUN; n_woken++; }
            }
            raw6(n, a, b, c, d, e, f);
            if (C.policy == POL_PCT && !C.replay && next_event > step + 1) next_event = step + 1;
            inrt = 0;
            return n_woken;
        }
    }
    if (n == SYS_getrandom && active) { unsigned char *p = (unsigned char *)a; for (long i = 0; i < b; i++) p[i] = (unsigned char)(0x5a + 31 * i); return b; }
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    if (active) { unsigned char *p = buf; for (size_t i = 0; i < len; i++) p[i] = (unsigned char)(0x5a + 31 * i); return (ssize_t)len; }
    long r = raw6(SYS_getrandom, (long)buf, len, flags, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}
int sched_yield(void) {
    if (me >= 0 && active && !inrt) {
        inrt = 1; step++; ST->yields++;
        ST->hash = (ST->hash ^ ((uint64_t)me << 8 ^ 52)) * 0x100000001b3ull;
        schedule(0, 1);
        inrt = 0;
        return 0;
    }
    return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}

/* memory faults */
static volatile long mmap_fail_at = -1, mmap_fail_n = 0;   /* index of first failing call, number of failing calls */
static volatile long malloc_fail_min = -1;
static volatile uint64_t malloc_fail_mask_seed;
static volatile long malloc_fail_at = -1;
static long mmap_count;
static __thread long malloc_count;
void sim_mmap_faults(long at, long n) { mmap_fail_at = at; mmap_fail_n = n; mmap_count = 0; }
long sim_mmap_count(void) { return mmap_count; }
void *mmap(void *a, size_t l, int p, int f, int fd, off_t o) {
    static __thread int seen;
    if (active && me >= 0 && fd == -1 && !(me > 0 && !seen++ && (f & MAP_PRIVATE))) { /* the runtime's own signal stack of a new thread is not ours to fail */
        long i = mmap_count++;
        ST->mmap_calls++;
        point(53);
        if (mmap_fail_at >= 0 && i >= mmap_fail_at && i < mmap_fail_at + mmap_fail_n) { ST->mmap_failed++; errno = ENOMEM; return MAP_FAILED; }
    }
    long r = raw6(SYS_mmap, (long)a, l, p, f, fd, o);
    if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; }
    return (void *)r;
}
void *mmap64(void *a, size_t l, int p, int f, int fd, off_t o) { return mmap(a, l, p, f, fd, o); }

extern void *__libc_malloc(size_t);
extern void *__libc_memalign(size_t, size_t);
/* the next malloc of this thread fails iff armed: used around one call of the allocator under test */
void sim_malloc_arm(int on) { malloc_armed = on; malloc_count = 0; }
long sim_malloc_hits(void) { return malloc_count; }
/* process wide: the k-th allocation made by simulated threads from now on fails, n times in a row */
static volatile int pm_on;
static long pm_count, pm_at = -1, pm_n;
void sim_malloc_plan(long at, long n) { pm_count = 0; pm_at = at; pm_n = n; pm_on = 1; }
long sim_malloc_stop(void) { pm_on = 0; return pm_count; }
static int pm_fail(void) {
    if (!pm_on || !active || me < 0 || inrt) return 0;
    long i = __atomic_fetch_add(&pm_count, 1, __ATOMIC_SEQ_CST);
    if (pm_at >= 0 && i >= pm_at && i < pm_at + pm_n) { ST->malloc_failed++; return 1; }
    return 0;
}
void *malloc(size_t n) {
    if (pm_on && pm_fail()) { errno = ENOMEM; return 0; }
    if (malloc_armed && active) { malloc_count++; ST->malloc_failed++; errno = ENOMEM; return 0; }
    return __libc_malloc(n);
}
extern void *__libc_calloc(size_t, size_t);
void *calloc(size_t a, size_t b) {
    if (pm_on && pm_fail()) { errno = ENOMEM; return 0; }
    if (malloc_armed && active) { malloc_count++; ST->malloc_failed++; errno = ENOMEM; return 0; }
    return __libc_calloc(a, b);
}
extern void *__libc_realloc(void *, size_t);
void *realloc(void *p, size_t n) {
    if (pm_on && pm_fail()) { errno = ENOMEM; return 0; }
    if (malloc_armed && active) { malloc_count++; ST->malloc_failed++; errno = ENOMEM; return 0; }
    return __libc_realloc(p, n);
}
int posix_memalign(void **out, size_t al, size_t n) {
    if (pm_on && pm_fail()) return ENOMEM;
    if (malloc_armed && active) { malloc_count++; ST->malloc_failed++; return ENOMEM; }
    void *p = __libc_memalign(al, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void *aligned_alloc(size_t al, size_t n) {
    if (pm_on && pm_fail()) { errno = ENOMEM; return 0; }
    if (malloc_armed && active) { malloc_count++; ST->malloc_failed++; errno = ENOMEM; return 0; }
    return __libc_memalign(al, n);
}

/* file faults: every operation on a file below the watched directory has an index */
typedef struct { uint32_t op; uint32_t action; } io_fault;
enum { IO_OK = 0, IO_EACCES = 1, IO_ENOSPC = 2, IO_EIO = 3, IO_SHORT = 4, IO_EINTR = 5, IO_CRASH = 6, IO_TORN_CRASH = 7, IO_EMFILE = 8, IO_EDQUOT = 9, IO_ZERO = 10 };
static char io_dir[512];
static io_fault io_plan[64];
static int io_nplan;
static uint32_t io_op;
static unsigned char io_fd[4096];
static uint32_t io_sticky;      /* once the disk is full it stays full */
static char io_kind[4096];
void sim_io_watch(const char *dir, const io_fault *plan, int n) {
    strncpy(io_dir, dir, sizeof io_dir - 1);
    io_nplan = n > 64 ? 64 : n;
    for (int i = 0; i < io_nplan; i++) io_plan[i] = plan[i];
    io_op = 0; io_sticky = 0;
    memset(io_fd, 0, sizeof io_fd);
}
uint32_t sim_io_ops(void) { return io_op; }
const char *sim_io_kinds(void) { return io_kind; }
static int io_action(char kind) {
    uint32_t i = io_op++;
    if (i < sizeof io_kind - 1) { io_kind[i] = kind; io_kind[i + 1] = 0; }
    if (ST) ST->io_ops++;
    for (int k = 0; k < io_nplan; k++) if (io_plan[k].op == i) { if (ST) ST->io_faults++; return (int)io_plan[k].action; }
    if (io_sticky && kind == 'w') return (int)io_sticky;
    return IO_OK;
}
static void io_crash(void) { finish_hard(66); }
static int io_open(const char *path, int flags, int mode) {
    int watch = active && io_dir[0] && !strncmp(path, io_dir, strlen(io_dir)) && (flags & (O_WRONLY | O_RDWR | O_CREAT));
    if (watch) {
        switch (io_action('o')) {
        case IO_EACCES: errno = EACCES; return -1;
        case IO_ENOSPC: errno = ENOSPC; return -1;
        case IO_EDQUOT: errno = EDQUOT; return -1;
        case IO_EIO: errno = EIO; return -1;
        case IO_EMFILE: errno = EMFILE; return -1;
        case IO_EINTR: errno = EINTR; return -1;
        case IO_CRASH: case IO_TORN_CRASH: io_crash(); break;
        }
    }
    long r = raw6(SYS_openat, AT_FDCWD, (long)path, flags, mode, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    if (r < 4096) io_fd[r] = (unsigned char)watch;
    return (int)r;
}
int open(const char *p, int flags, ...) { int m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } return io_open(p, flags, m); }
int open64(const char *p, int flags, ...) { int m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } return io_open(p, flags | O_LARGEFILE, m); }
static ssize_t io_write(int fd, const void *b, size_t n) {
    long r = raw6(SYS_write, fd, (long)b, n, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}
ssize_t write(int fd, const void *b, size_t n) {
    if (active && fd >= 0 && fd < 4096 && io_fd[fd]) {
        switch (io_action('w')) {
        case IO_EACCES: errno = EBADF; return -1;
        case IO_ENOSPC: io_sticky = IO_ENOSPC; errno = ENOSPC; return -1;
        case IO_EDQUOT: io_sticky = IO_EDQUOT; errno = EDQUOT; return -1;
        case IO_EMFILE: case IO_EIO: errno = EIO; return -1;
        case IO_SHORT: return io_write(fd, b, n > 1 ? n / 2 : n);
        case IO_ZERO: return 0;
        case IO_EINTR: errno = EINTR; return -1;
        case IO_CRASH: io_crash(); break;
        case IO_TORN_CRASH: io_write(fd, b, n / 2); io_crash(); break;
        }
    }
    return io_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (active && fd >= 0 && fd < 4096 && io_fd[fd]) { /* one short write of the first non-empty buffer: always allowed */
        for (int i = 0; i < n; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
        return 0;
    }
    long r = raw6(SYS_writev, fd, (long)v, n, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}
static int io_sync(int fd, long nr) {
    if (active && fd >= 0 && fd < 4096 && io_fd[fd]) {
        switch (io_action('s')) {
        case IO_OK: case IO_SHORT: case IO_ZERO: break;
        case IO_EINTR: errno = EINTR; return -1;
        case IO_CRASH: case IO_TORN_CRASH: io_crash(); break;
        default: errno = EIO; return -1;
        }
    }
    long r = raw6(nr, fd, 0, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}
int fsync(int fd) { return io_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return io_sync(fd, SYS_fdatasync); }

/* ------------------------------------------------------------------ atomics ------------------ */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_atomic_thread_fence(int mo) { (void)mo; point(9); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
#define ATOMICS(N, TY) \
    TY __tsan_atomic##N##_load(const volatile TY *p, int mo) { (void)mo; point(1); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##N##_store(volatile TY *p, TY v, int mo) { (void)mo; point(2); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_exchange(volatile TY *p, TY v, int mo) { (void)mo; point(3); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_add(volatile TY *p, TY v, int mo) { (void)mo; point(4); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_sub(volatile TY *p, TY v, int mo) { (void)mo; point(4); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_and(volatile TY *p, TY v, int mo) { (void)mo; point(4); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_or(volatile TY *p, TY v, int mo) { (void)mo; point(4); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_xor(volatile TY *p, TY v, int mo) { (void)mo; point(4); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_nand(volatile TY *p, TY v, int mo) { (void)mo; point(4); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_compare_exchange_val(volatile TY *p, TY c, TY v, int mo, int fmo) { (void)mo; (void)fmo; point(5); __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
