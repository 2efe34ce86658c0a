/* A deterministic scheduler for real threads.
 *
 * The crates under test are compiled with atomics instrumented in the manner of ThreadSanitizer;
 * the functions the compiler calls are defined here. Of the threads under control only one runs at
 * a time, and every atomic operation, clock reading, yield and futex call is a point at which the
 * scheduler may let another one run. futex waits of controlled threads are emulated, so that the
 * scheduler always knows who is blocked: no thread able to run while some are not finished is a
 * deadlock. The seed determines the schedule. Sequential consistency is what is explored.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <errno.h>
#include <linux/futex.h>
#include <sys/syscall.h>

#define MAXT 8
enum { S_NONE, S_RUN, S_BLOCKED, S_DONE };
enum { V_OK, V_DEADLOCK, V_STUCK };

struct thr { int state, timed, timedout; uint32_t baton, start; uint32_t *addr; uint32_t bits; long prio; };
static struct thr T[MAXT];
static int nT, cur, verdict, active;
static uint32_t main_baton;
static uint64_t rng, points, limit, switches;
static int strat;            /* 0 random walk, 1 priorities, changed at random moments, 2 the same, at random places */
static long countdown, mean, low;
static uint64_t change[16]; static int nchange, ichange;
static uint64_t gtick;       /* nanoseconds of the common clock */
static uint64_t run_len;
/* The places in the code where points have been met: how often in this run and in the one before
 * (of the same program), and at which time from now the priorities change there. */
#define PLACES 16384
static uint32_t p_cnt[PLACES], p_last[PLACES], p_at[PLACES];
static uint16_t p_seen[PLACES]; static int p_n;

static __thread int me = -1;
static __thread int64_t virt = -1;   /* -1 real time, -2 the common clock, else this thread's own time */

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static void baton_wait(uint32_t *b) {
    while (__atomic_load_n(b, __ATOMIC_SEQ_CST) == 0) raw(SYS_futex, (long)b, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(b, 0, __ATOMIC_SEQ_CST);
}
static void baton_give(uint32_t *b) {
    __atomic_store_n(b, 1, __ATOMIC_SEQ_CST);
    raw(SYS_futex, (long)b, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static uint64_t rnd(void) {
    rng += 0x9e3779b97f4a7c15ull; uint64_t z = rng;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
static long geom(void) { return 1 + (long)(rnd() % (uint64_t)(2 * mean)); }

static int pick(int except_if_possible) {
    int best = -1, n = 0;
    for (int i = 0; i < nT; i++) if (T[i].state == S_RUN && i != except_if_possible) {
        n++;
        if (strat) { if (best < 0 || T[i].prio > T[best].prio) best = i; }
        else if (rnd() % n == 0) best = i;
    }
    if (best < 0 && except_if_possible >= 0 && T[except_if_possible].state == S_RUN) return except_if_possible;
    if (best < 0)
        for (int i = 0; i < nT; i++) if (T[i].state == S_BLOCKED && T[i].timed) { T[i].state = S_RUN; T[i].timedout = 1; return i; }
    return best;
}
static void finish(int v) { verdict = v; active = 0; baton_give(&main_baton); }

/* Lets `to` run; the caller stops until it is chosen again (unless it is done). */
static void pass(int to, int stay) {
    int self = me;
    if (to == self) return;
    switches++; run_len = 0; cur = to;
    baton_give(&T[to].baton);
    if (stay) baton_wait(&T[self].baton);
}
static void block(void) {    /* the caller is not S_RUN */
    int to = pick(-1);
    if (to < 0) { finish(V_DEADLOCK); baton_wait(&T[me].baton); return; }
    pass(to, 1);
}
static void point_slow(int yield) {
    int to;
    if (points > limit) { finish(V_STUCK); baton_wait(&T[me].baton); return; }
    if (strat) {
        if (yield || run_len > 30000) { T[me].prio = --low; to = pick(-1); }
        else { T[me].prio = --low; ichange++; to = pick(-1); }
    } else { countdown = geom(); to = pick(me); }
    run_len = 0;
    pass(to, 1);
}
void sch_begin(int n, uint64_t seed, int strategy, long mean_, int nch, uint64_t len, uint64_t lim);
static inline void point(void *place) {
    if (me < 0 || !active) return;
    points++; run_len++;
    uint32_t h = (uint32_t)(((uint64_t)((char *)place - (char *)sch_begin) * 0x9e3779b97f4a7c15ull) >> 50);
    uint32_t c = ++p_cnt[h];
    if (c == 1 && !p_last[h]) { p_last[h] = 1; p_seen[p_n++] = h; }
    if (strat == 2) { if (p_at[h] != c && run_len <= 30000) return; }
    else if (strat == 1) { if (!(ichange < nchange && points >= change[ichange]) && run_len <= 30000) return; }
    else if (--countdown > 0) return;
    point_slow(0);
}
#define HERE __builtin_return_address(0)
static void point_yield(void) { if (me >= 0 && active) { points++; point_slow(1); } }

/* --- for the harness --- */
void sch_point(void) { point(HERE); }
void sch_yield(void) { point_yield(); }
void sch_begin(int n, uint64_t seed, int strategy, long mean_, int nch, uint64_t len, uint64_t lim) {
    memset(T, 0, sizeof T); nT = n; rng = seed * 0x2545f4914f6cdd1dull + 77; strat = strategy; mean = mean_ < 1 ? 1 : mean_;
    points = switches = run_len = 0; limit = lim; verdict = V_OK; low = 0; main_baton = 0; ichange = 0; nchange = nch > 16 ? 16 : nch;
    for (int i = 0; i < n; i++) T[i].prio = 1000 + (long)(rnd() % 1000) * 8 + i;
    for (int i = 0; i < nchange; i++) change[i] = 1 + rnd() % (len ? len : 1);
    for (int i = 0; i < nchange; i++) for (int j = i + 1; j < nchange; j++) if (change[j] < change[i]) { uint64_t x = change[i]; change[i] = change[j]; change[j] = x; }
    countdown = geom();
    /* (A new program: len == 0.) */
    if (len == 0) { memset(p_last, 0, sizeof p_last); p_n = 0; }
    else for (int i = 0; i < p_n; i++) if (p_cnt[p_seen[i]]) p_last[p_seen[i]] = p_cnt[p_seen[i]];
    memset(p_cnt, 0, sizeof p_cnt); memset(p_at, 0, sizeof p_at);
    if (strat == 2 && p_n) for (int i = 0; i < nchange; i++) {
        uint32_t h = p_seen[rnd() % p_n];
        /* (Rare places rather than common ones.) */
        for (int j = rnd() % 4; j > 0; j--) { uint32_t g = p_seen[rnd() % p_n]; if (p_last[g] < p_last[h]) h = g; }
        p_at[h] = 1 + rnd() % p_last[h];
    }
}
/* A worker, before its first controlled step. */
void sch_worker_enter(int id) { baton_wait(&T[id].baton); me = id; }
void sch_worker_leave(void) {
    int self = me, left = 0;
    T[self].state = S_DONE;
    for (int i = 0; i < nT; i++) if (T[i].state != S_DONE) left++;
    int to = left ? pick(-1) : -1;
    me = -1;
    if (!left) { finish(V_OK); return; }
    if (to < 0) { finish(V_DEADLOCK); return; }
    cur = to; switches++; run_len = 0;
    baton_give(&T[to].baton);
}
/* The main thread: runs all workers to the end. */
int sch_run(void) {
    for (int i = 0; i < nT; i++) T[i].state = S_RUN;
    active = 1;
    cur = pick(-1);
    baton_give(&T[cur].baton);
    baton_wait(&main_baton);
    return verdict;
}
uint64_t sch_points(void) { return points; }
uint64_t sch_switches(void) { return switches; }
int sch_me(void) { return me; }
void clk_mode(int64_t v) { virt = v; }
void clk_set(uint64_t ns) { gtick = ns; }
uint64_t clk_now(void) { return gtick; }

/* --- what the C library would do --- */
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (c == CLOCK_MONOTONIC && me >= 0) { point(HERE); gtick++; ts->tv_sec = 1000000 + gtick / 1000000000; ts->tv_nsec = gtick % 1000000000; return 0; }
    if (c == CLOCK_MONOTONIC && virt == -2) { gtick++; ts->tv_sec = 1000000 + gtick / 1000000000; ts->tv_nsec = gtick % 1000000000; return 0; }
    if (c == CLOCK_MONOTONIC && virt >= 0) { ts->tv_sec = 1000000 + virt / 1000000000; ts->tv_nsec = virt % 1000000000; return 0; }
    return (int)raw(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
}
int sched_yield(void) { if (me >= 0) { point_yield(); return 0; } return (int)raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
int nanosleep(const struct timespec *r, struct timespec *m) {
    if (me >= 0) { gtick += r->tv_sec * 1000000000ull + r->tv_nsec; point_yield(); return 0; }
    long e = raw(SYS_nanosleep, (long)r, (long)m, 0, 0, 0, 0);
    if (e < 0) { errno = -e; return -1; }
    return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *r, struct timespec *m) {
    if (me >= 0) { if (!f) gtick += r->tv_sec * 1000000000ull + r->tv_nsec; point_yield(); return 0; }
    return (int)-raw(SYS_clock_nanosleep, c, f, (long)r, (long)m, 0, 0);
}
static long futex(uint32_t *addr, int op, uint32_t val, long timeout, uint32_t bits) {
    int cmd = op & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        point(HERE);
        if (!active) return raw(SYS_futex, (long)addr, op, val, timeout, 0, bits);
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
        struct thr *t = &T[me];
        t->state = S_BLOCKED; t->addr = addr; t->bits = cmd == FUTEX_WAIT ? ~0u : bits; t->timed = timeout != 0; t->timedout = 0;
        block();
        t->addr = 0;
        return t->timedout ? -ETIMEDOUT : 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        uint32_t m = cmd == FUTEX_WAKE ? ~0u : bits; long n = 0;
        int s = rnd() % nT;
        for (int j = 0; j < nT && n < (long)val; j++) {
            int i = (s + j) % nT;
            if (T[i].state == S_BLOCKED && T[i].addr == addr && (T[i].bits & m)) { T[i].state = S_RUN; T[i].addr = 0; n++; }
        }
        long r = raw(SYS_futex, (long)addr, op, val, 0, 0, bits);
        point(HERE);
        return n + (r > 0 ? r : 0);
    }
    return raw(SYS_futex, (long)addr, op, val, timeout, 0, bits);
}
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    long r = (n == SYS_futex && me >= 0) ? futex((uint32_t *)a, (int)b, (uint32_t)c, d, (uint32_t)f) : raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

/* --- what the compiler calls for each atomic operation --- */
#define OPS(N, TY) \
TY __tsan_atomic##N##_load(const volatile TY *a, int mo) { point(HERE); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##N##_store(volatile TY *a, TY v, int mo) { point(HERE); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_exchange(volatile TY *a, TY v, int mo) { point(HERE); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_add(volatile TY *a, TY v, int mo) { point(HERE); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_sub(volatile TY *a, TY v, int mo) { point(HERE); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_and(volatile TY *a, TY v, int mo) { point(HERE); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_or(volatile TY *a, TY v, int mo) { point(HERE); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_xor(volatile TY *a, TY v, int mo) { point(HERE); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_fetch_nand(volatile TY *a, TY v, int mo) { point(HERE); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int mo, int f) { point(HERE); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int mo, int f) { point(HERE); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
TY __tsan_atomic##N##_compare_exchange_val(volatile TY *a, TY c, TY v, int mo, int f) { point(HERE); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
OPS(8, uint8_t)
OPS(16, uint16_t)
OPS(32, uint32_t)
OPS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) {}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
