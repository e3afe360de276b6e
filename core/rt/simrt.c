/* Deterministic simulation runtime.
 *
 * - Every basic block edge of the code under test calls __sanitizer_cov_trace_pc_guard.  While a
 *   simulation is active, that is one step of simulated time and a point at which the scheduler
 *   may hand the baton to another thread.  Threads are real, but only the holder of the baton runs.
 * - malloc & co, clocks, entropy, futexes, mutexes, sleeping, thread creation and joining are
 *   replaced, for the C code, the Rust code and the precompiled Rust standard library alike.
 * - Memory that is requested by code under test comes from its own heap, which decides placement,
 *   initial contents and reuse, checks red zones and double frees, counts what is alive and fails
 *   when it is told to.
 *
 * This file is not instrumented. */
#define _GNU_SOURCE
#include "simrt.h"
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <dlfcn.h>
#include <time.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <ucontext.h>

/* ---------------------------------------------------------------- raw system calls */

static long raw6(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}

/* ---------------------------------------------------------------- state */

enum { T_UNUSED, T_READY, T_BLOCKED, T_STALLED, T_DONE };

typedef struct {
    int state;
    int baton;                  /* futex word */
    int in_target;
    const void *wait_addr;
    int wait_kind;              /* 1 futex 2 join 3 mutex 4 sleep */
    uint64_t wake_at;           /* simulated time, for sleeps and timeouts */
    int timed_out;
    pthread_t pt;
    uint64_t steps;             /* own steps */
    uint64_t op_start;          /* own steps at the last sim_enter */
    uint64_t edges;             /* basic block edges this thread was the first to run */
    uint64_t events;            /* runtime events */
    int must_stall;
} thr_t;

static sim_shared_t dummy;
static sim_shared_t *S = &dummy;
static thr_t T[SIM_MAXTHREADS];
static int nthreads;
static int active;
static int current;
static __thread int my_id = -1;
static __thread int in_target;  /* this thread is running code under test */
static __thread int my_sim;     /* this thread belongs to the simulation */
static uint64_t step;           /* simulated time */
static uint64_t time_skew;      /* time that passed while everything slept */
static uint64_t mono_jump;      /* jumps of the clock so far */
static int64_t real_jump;
static uint64_t clock_rng;
static uint64_t next_event = UINT64_MAX;
static uint64_t next_switch = UINT64_MAX;
static uint64_t sched_rng, ent_rng;
static uint32_t replay_pos;
static uint64_t points[256];
static uint32_t npoints, point_pos, burst_left;
static int fault_armed;
static void sites_reset(void);
static uint64_t fault_count[2];
static uint64_t n_contention;
static pthread_key_t exit_key;
static int inited;

static uint32_t n_guards;
static uint8_t *cov;

static uint64_t rnd(uint64_t *s)
{
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static void violation(uint32_t kind, const char *fmt, ...)
{
    if (S->violation)
        return;
    S->violation = kind;
    S->viol_thread = my_id < 0 ? 0 : my_id;
    S->viol_step = step;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(S->viol_msg, sizeof S->viol_msg, fmt, ap);
    va_end(ap);
}

static void die(void)
{
    S->steps = step;
    for (int i = 0; i < nthreads; i++)
        S->tsteps[i] = T[i].steps;
    raw6(SYS_exit_group, 77, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}

/* ---------------------------------------------------------------- scheduler */

/* Whatever the scheduler chose, nobody runs longer than this while others are ready: code that
 * waits actively for another thread makes progress in the end. */
#define QUANTUM 20000000ull
static uint64_t turn_start;

static void recompute_next(void)
{
    uint64_t n = S->budget ? S->budget : UINT64_MAX;
    if (next_switch < n)
        n = next_switch;
    if (nthreads > 1 && turn_start + QUANTUM < n)
        n = turn_start + QUANTUM;
    if (my_id >= 0) {
        thr_t *t = &T[my_id];
        uint64_t left;
        if (S->thread_budget[my_id] && in_target) {
            uint64_t end = t->op_start + S->thread_budget[my_id];
            left = end > t->steps ? end - t->steps : 0;
            if (step + left < n)
                n = step + left;
        }
        if (S->stall[my_id].mode == 1 && in_target) {
            left = S->stall[my_id].at > t->steps ? S->stall[my_id].at - t->steps : 0;
            if (step + left < n)
                n = step + left;
        }
    }
    next_event = n;
}

/* own steps are accounted when the baton moves */
static uint64_t slice_start;
static void account(void)
{
    if (my_id >= 0) {
        T[my_id].steps += step - slice_start;
        slice_start = step;
    }
}

static void draw_next_switch(void)
{
    switch (S->sched_mode) {
    case 1: {
        /* geometric with the given mean */
        double u = (double)(rnd(&sched_rng) >> 11) / 9007199254740992.0;
        double m = (double)S->sched_mean;
        /* -ln(1-u), by hand: no libm in here */
        double x = 1.0 - u, acc = 0;
        while (x < 0.5) { x *= 2; acc += 0.6931471805599453; }
        double y = 1.0 - x, p = y, l = 0;
        for (int i = 1; i < 24; i++) { l += p / i; p *= y; }
        next_switch = step + 1 + (uint64_t)((acc + l) * m);
        break;
    }
    case 2:
        if (burst_left) {
            burst_left--;
            next_switch = step + 1 + rnd(&sched_rng) % (S->burst_mean ? S->burst_mean : 1);
            break;
        }
        next_switch = point_pos < npoints ? points[point_pos++] : UINT64_MAX;
        if (next_switch != UINT64_MAX)
            burst_left = S->burst_len;
        if (next_switch <= step)
            next_switch = step + 1;
        break;
    case 3:
        next_switch = UINT64_MAX;
        while (replay_pos < S->n_replay && S->replay[replay_pos].step < step)
            replay_pos++;
        if (replay_pos < S->n_replay) {
            next_switch = S->replay[replay_pos].step;
        }
        break;
    default:
        next_switch = UINT64_MAX;
    }
}

static int pick(int forced)
{
    int ready[SIM_MAXTHREADS], n = 0;
    for (int i = 0; i < nthreads; i++)
        if (T[i].state == T_READY)
            ready[n++] = i;
    if (n == 0)
        return -1;
    if (S->sched_mode == 3) {
        while (replay_pos < S->n_replay && S->replay[replay_pos].step < step)
            replay_pos++;
        if (replay_pos < S->n_replay && S->replay[replay_pos].step == step) {
            int t = (int)S->replay[replay_pos].target;
            replay_pos++;
            for (int i = 0; i < n; i++)
                if (ready[i] == t)
                    return t;
        }
        if (!forced)
            return my_id;
        return ready[0];
    }
    if (S->sched_mode == 0)
        return forced ? ready[0] : my_id;
    return ready[rnd(&sched_rng) % (uint64_t)n];
}

/* The next ready thread after this one. */
static int next_ready(void)
{
    for (int k = 1; k <= nthreads; k++) {
        int i = (my_id + k) % nthreads;
        if (T[i].state == T_READY)
            return i;
    }
    return my_id;
}

static void wait_baton(int id)
{
    while (__atomic_load_n(&T[id].baton, __ATOMIC_ACQUIRE) == 0)
        raw6(SYS_futex, (long)&T[id].baton, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    __atomic_store_n(&T[id].baton, 0, __ATOMIC_RELEASE);
    current = id;
    slice_start = step;
    turn_start = step;
}

static void log_switch(int to, uint32_t site, int forced)
{
    if (S->n_switch < SIM_MAXSWITCH) {
        S->log[S->n_switch].step = step;
        S->log[S->n_switch].target = (uint32_t)to;
        S->log[S->n_switch].site = site;
        S->n_switch++;
    } else if (S->sched_mode != 3) {
        /* a run is only useful if it can be replayed: no more preemption */
        S->sched_mode = 0;
        next_switch = UINT64_MAX;
    }
    if (forced)
        S->n_forced++;
    uint64_t h = S->inter_sig ^ ((uint64_t)(my_id + 1) << 56) ^ ((uint64_t)(to + 1) << 48) ^ site;
    S->inter_sig = rnd(&h);
}

/* Gives the baton to `to`; returns when this thread gets it back (unless it is done). */
static void give(int to, int wait)
{
    int me = my_id;
    if (to == me)
        return;
    account();
    T[me].in_target = in_target;
    __atomic_store_n(&T[to].baton, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)&T[to].baton, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
    if (wait)
        wait_baton(me);
}

static void wake_sleepers(void)
{
    for (int i = 0; i < nthreads; i++)
        if (T[i].state == T_BLOCKED && T[i].wake_at && T[i].wake_at <= step + time_skew) {
            T[i].state = T_READY;
            T[i].timed_out = 1;
            T[i].wake_at = 0;
        }
}

/* The running thread can't go on. */
static void must_switch(uint32_t site, int wait)
{
    for (;;) {
        wake_sleepers();
        int to = pick(1);
        if (to >= 0) {
            log_switch(to, site, 1);
            if (!wait) {
                /* this thread ends: nothing may be touched once the other one has the baton */
                draw_next_switch();
                give(to, 0);
                return;
            }
            if (to != my_id)
                give(to, 1);
            draw_next_switch();
            recompute_next();
            return;
        }
        /* nobody can run: jump to the next timer */
        uint64_t best = 0;
        for (int i = 0; i < nthreads; i++)
            if (T[i].state == T_BLOCKED && T[i].wake_at && (!best || T[i].wake_at < best))
                best = T[i].wake_at;
        if (!best) {
            int stalled = 0, blocked = 0;
            for (int i = 0; i < nthreads; i++) {
                stalled += T[i].state == T_STALLED;
                /* the harness itself waits for its threads: that is no wait of the code under test */
                blocked += T[i].state == T_BLOCKED && !(T[i].wait_kind == 2 && !T[i].in_target);
            }
            if (blocked) {
                char buf[256];
                int n = 0;
                for (int i = 0; i < nthreads && n < 200; i++)
                    if (T[i].state == T_BLOCKED)
                        n += snprintf(buf + n, sizeof buf - n, " thread %d waits (%s)", i,
                                      T[i].wait_kind == 1 ? "futex" : T[i].wait_kind == 2 ? "join"
                                      : T[i].wait_kind == 3 ? "mutex" : "sleep");
                violation(SIM_V_DEADLOCK, "%s:%s",
                          stalled ? "callers wait for ever for a stalled caller" : "deadlock", buf);
            }
            die();
        }
        time_skew = best > step ? best - step : 0;
    }
}

static void slow_step(uint32_t site)
{
    account();
    wake_sleepers();
    thr_t *t = &T[my_id];
    if (S->budget && step >= S->budget) {
        violation(SIM_V_BUDGET, "the run did not end within %llu steps", (unsigned long long)S->budget);
        die();
    }
    if (S->thread_budget[my_id] && t->steps - t->op_start >= S->thread_budget[my_id]) {
        violation(SIM_V_BUDGET, "a call on thread %d did not end within %llu of its own steps", my_id,
                  (unsigned long long)S->thread_budget[my_id]);
        die();
    }
    if (t->must_stall || (S->stall[my_id].mode == 1 && t->steps >= S->stall[my_id].at)) {
        S->stalled |= 1u << my_id;
        t->state = T_STALLED;
        must_switch(site, 1);   /* never comes back */
    }
    if (step >= next_switch) {
        int to = pick(0);
        if (to >= 0 && to != my_id) {
            log_switch(to, site, 0);
            give(to, 1);
        }
        draw_next_switch();
    }
    if (nthreads > 1 && step >= turn_start + QUANTUM) {
        turn_start = step;
        int to = next_ready();
        if (to != my_id) {
            log_switch(to, site, 0);
            give(to, 1);
            draw_next_switch();
        }
    }
    recompute_next();
}

/* The last edges that a thread ran: where a request for memory comes from. */
static __thread uint32_t trail[8], trail_at;

void __sanitizer_cov_trace_pc_guard(uint32_t *guard)
{
    if (!in_target)
        return;
    step++;
    trail[trail_at++ & 7] = *guard;
    if (__builtin_expect(cov[*guard] < 3, 0)) {
        if (cov[*guard]++ == 0) {
            thr_t *t = &T[my_id];
            if (t->edges++ == S->stall[my_id].at && S->stall[my_id].mode == 2) {
                t->must_stall = 1;
                slow_step(*guard);
                return;
            }
        }
        if (S->newedge_permille && (S->sched_mode == 1 || S->sched_mode == 2)
            && rnd(&sched_rng) % 1000 < S->newedge_permille) {
            next_switch = step;
            slow_step(*guard);
            return;
        }
    }
    if (__builtin_expect(step >= next_event, 0))
        slow_step(*guard);
}

void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop)
{
    static uint32_t n = 1;
    static uint8_t buf[1 << 19];
    if (start == stop || *start)
        return;
    for (uint32_t *p = start; p < stop; p++)
        *p = n < sizeof buf ? n++ : 0;
    n_guards = n;
    cov = buf;
}

static uint8_t nocov[4];

void sim_event(uint32_t site)
{
    if (!my_sim || !active || my_id != current)
        return;
    if (!in_target)
        return;
    step++;
    if (T[my_id].events++ == S->stall[my_id].at && S->stall[my_id].mode == 3) {
        T[my_id].must_stall = 1;
        slow_step(site);
        return;
    }
    if (S->event_switch_permille && S->sched_mode != 3 && S->sched_mode != 0
        && rnd(&sched_rng) % 1000 < S->event_switch_permille) {
        next_switch = step;
        slow_step(site);
    } else if (step >= next_event)
        slow_step(site);
}

/* ---------------------------------------------------------------- atomic operations
 *
 * Every atomic operation of the Rust code is a point of its own at which another thread may go on:
 * a load and a store that follow each other without a branch are two steps. */

static uint8_t atomic_seen[4096];

static void atomic_point(const void *pc)
{
    if (!in_target || nthreads < 2 || !my_sim || !active)
        return;
    uint64_t x = (uint64_t)pc;
    uint8_t *seen = &atomic_seen[rnd(&x) % sizeof atomic_seen];
    if (*seen < 3) {
        ++*seen;
        if (S->newedge_permille && (S->sched_mode == 1 || S->sched_mode == 2)
            && rnd(&sched_rng) % 1000 < S->newedge_permille) {
            step++;
            next_switch = step;
            slow_step(0xF0000010u);
            return;
        }
    }
    /* there are few of them, and each may be the one that matters */
    uint32_t p = S->event_switch_permille;
    if (p && S->sched_mode != 3 && S->sched_mode != 0 && rnd(&sched_rng) % 1000 < 10 * p) {
        step++;
        next_switch = step;
        slow_step(0xF0000010u);
        return;
    }
    sim_event(0xF0000010u);
}

#define POINT atomic_point(__builtin_return_address(0))
#define SEQ __ATOMIC_SEQ_CST
#define RMW(bits, T, name, op) \
    T __tsan_atomic##bits##_fetch_##name(volatile T *p, T v, int mo) \
    { (void)mo; POINT; return __atomic_fetch_##op(p, v, SEQ); }
#define ATOMICS(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int mo) { (void)mo; POINT; return __atomic_load_n(p, SEQ); } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { (void)mo; POINT; __atomic_store_n(p, v, SEQ); } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { (void)mo; POINT; return __atomic_exchange_n(p, v, SEQ); } \
    RMW(bits, T, add, add) RMW(bits, T, sub, sub) RMW(bits, T, and, and) RMW(bits, T, or, or) \
    RMW(bits, T, xor, xor) RMW(bits, T, nand, nand) \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T old, T v, int mo, int fmo) \
    { (void)mo; (void)fmo; POINT; __atomic_compare_exchange_n(p, &old, v, 0, SEQ, SEQ); return old; }

ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

void __tsan_atomic_thread_fence(int mo) { (void)mo; __atomic_thread_fence(SEQ); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; __atomic_signal_fence(SEQ); }

void sim_point(void)
{
    if (!my_sim || !active)
        return;
    int saved = in_target;
    in_target = 1;
    sim_event(0xF0000001u);
    in_target = saved;
}

void sim_enter(void)
{
    if (!my_sim)
        return;
    account();
    in_target = 1;
    T[my_id].op_start = T[my_id].steps;
    recompute_next();
}

void sim_leave(void)
{
    if (!my_sim)
        return;
    account();
    in_target = 0;
}

int sim_in_target(void) { return in_target; }
uint64_t sim_now_steps(void) { return step; }
uint64_t sim_my_steps(void) { if (my_id < 0) return 0; account(); return T[my_id].steps; }
int sim_my_id(void) { return my_id; }

static void reap(void *arg);

static void crash_handler(int sig, siginfo_t *si, void *uc_)
{
    ucontext_t *uc = uc_;
    S->sig = (uint32_t)sig;
    S->sig_addr = (uint64_t)si->si_addr;
    S->sig_pc = (uint64_t)uc->uc_mcontext.gregs[REG_RIP];
    S->steps = step;
    signal(sig, SIG_DFL);
    raw6(SYS_tgkill, raw6(SYS_getpid, 0, 0, 0, 0, 0, 0), raw6(SYS_gettid, 0, 0, 0, 0, 0, 0), sig, 0, 0, 0);
}

void sim_init(void)
{
    if (inited)
        return;
    inited = 1;
    if (!cov)
        cov = nocov;
    pthread_key_create(&exit_key, reap);
}

void sim_set_shared(sim_shared_t *s) { S = s; }

static void install_handlers(void)
{
    static char altstack[65536];
    stack_t ss = { .ss_sp = altstack, .ss_size = sizeof altstack };
    sigaltstack(&ss, 0);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = crash_handler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, 0);
    sigaction(SIGBUS, &sa, 0);
    sigaction(SIGILL, &sa, 0);
    sigaction(SIGFPE, &sa, 0);
}

static void theap_reset(void);

void sim_start(void)
{
    install_handlers();
    memset(T, 0, sizeof T);
    nthreads = 1;
    my_id = 0;
    my_sim = 1;
    current = 0;
    T[0].state = T_READY;
    T[0].pt = pthread_self();
    step = 0;
    time_skew = 0;
    mono_jump = 0;
    real_jump = 0;
    clock_rng = S->hash_seed ^ 0x5bd1e995c10cULL;
    slice_start = 0;
    turn_start = 0;
    sched_rng = S->sched_seed ^ 0xA5A5A5A5DEADBEEFull;
    ent_rng = S->hash_seed ^ 0x1234567890ABCDEFull;
    replay_pos = 0;
    npoints = point_pos = burst_left = 0;
    if (S->sched_mode == 2) {
        npoints = S->sched_points > 256 ? 256 : S->sched_points;
        for (uint32_t i = 0; i < npoints; i++) {
            uint64_t v = S->est_steps ? rnd(&sched_rng) % S->est_steps : 0;
            uint32_t j = i;
            while (j > 0 && points[j - 1] > v) { points[j] = points[j - 1]; j--; }
            points[j] = v;
        }
    }
    if (n_guards)
        memset(cov, 0, n_guards);
    memset(atomic_seen, 0, sizeof atomic_seen);
    theap_reset();
    active = 1;
    draw_next_switch();
    recompute_next();
}

void sim_stop(void)
{
    account();
    active = 0;
    in_target = 0;
    S->steps = step;
    for (int i = 0; i < nthreads; i++)
        S->tsteps[i] = T[i].steps;
    uint64_t edges = 0, h = 0;
    for (uint32_t i = 0; i < n_guards; i++)
        if (cov[i]) {
            edges++;
            uint64_t x = i;
            h ^= rnd(&x);
        }
    S->cov_edges = edges;
    S->cov_hash = h;
    my_sim = 0;
    my_id = -1;
}

/* ---------------------------------------------------------------- threads */

static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);

struct start { void *(*fn)(void *); void *arg; int id; int target; };

static void *trampoline(void *p)
{
    struct start st = *(struct start *)p;
    my_id = st.id;
    my_sim = 1;
    wait_baton(st.id);
    pthread_setspecific(exit_key, (void *)(intptr_t)(st.id + 1));
    static __thread char altstack[32768];
    stack_t ss = { .ss_sp = altstack, .ss_size = sizeof altstack };
    sigaltstack(&ss, 0);
    in_target = st.target;
    T[my_id].op_start = T[my_id].steps;
    recompute_next();
    return st.fn(st.arg);
}

/* Runs at the very end of a thread, after its thread local destructors. */
static void reap(void *arg)
{
    if (!my_sim || !active)
        return;
    int id = (int)(intptr_t)arg - 1;
    in_target = 0;
    account();
    T[id].state = T_DONE;
    for (int i = 0; i < nthreads; i++)
        if (T[i].state == T_BLOCKED && T[i].wait_kind == 2 && T[i].wait_addr == &T[id]) {
            T[i].state = T_READY;
            T[i].wait_addr = 0;
        }
    must_switch(0xF0000002u, 0);
    my_sim = 0;
}

static struct start starts[SIM_MAXTHREADS];

int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    if (!real_pthread_create)
        real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
    if (!active || !my_sim)
        return real_pthread_create(pt, attr, fn, arg);
    if (nthreads == SIM_MAXTHREADS)
        return EAGAIN;
    int id = nthreads++;
    struct start *st = &starts[id];
    st->fn = fn;
    st->arg = arg;
    st->id = id;
    st->target = in_target;
    T[id].state = T_READY;
    T[id].baton = 0;
    S->n_threads++;
    int saved = in_target;
    in_target = 0;
    int r = real_pthread_create(pt, attr, trampoline, st);
    in_target = saved;
    T[id].pt = *pt;
    if (r) {
        T[id].state = T_DONE;
        return r;
    }
    sim_event(0xF0000003u);
    return 0;
}

int pthread_join(pthread_t pt, void **ret)
{
    if (!real_pthread_join)
        real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
    if (active && my_sim) {
        /* the newest first: the library reuses the names of joined threads */
        for (int i = nthreads - 1; i >= 0; i--) {
            if (T[i].state != T_UNUSED && pthread_equal(T[i].pt, pt) && i != my_id) {
                while (T[i].state != T_DONE) {
                    T[my_id].state = T_BLOCKED;
                    T[my_id].in_target = in_target;
                    T[my_id].wait_kind = 2;
                    T[my_id].wait_addr = &T[i];
                    must_switch(0xF0000004u, 1);
                }
                break;
            }
        }
    }
    return real_pthread_join(pt, ret);
}

/* The calling thread waits for another one, as far as can be told. */
static void contention(void)
{
    if (!in_target)
        return;
    uint64_t n = n_contention++;
    for (int i = 0; i < nthreads; i++)
        if (i != my_id && S->stall[i].mode == 4 && S->stall[i].at == n && T[i].state == T_READY && T[i].in_target) {
            S->stalled |= 1u << i;
            T[i].state = T_STALLED;
        }
}

/* Blocks the calling thread on an address; returns 1 when it timed out. */
static int block_on(const void *addr, int kind, uint64_t timeout, uint32_t site)
{
    thr_t *t = &T[my_id];
    t->state = T_BLOCKED;
    t->in_target = in_target;
    t->wait_addr = addr;
    t->wait_kind = kind;
    t->timed_out = 0;
    t->wake_at = timeout ? step + time_skew + timeout : 0;
    must_switch(site, 1);
    t->wait_addr = 0;
    t->wake_at = 0;
    return t->timed_out;
}

static int wake_on(const void *addr, int kind, int n)
{
    int woken = 0;
    for (int i = 0; i < nthreads && woken < n; i++)
        if (T[i].state == T_BLOCKED && T[i].wait_kind == kind && T[i].wait_addr == addr) {
            T[i].state = T_READY;
            T[i].wait_addr = 0;
            woken++;
        }
    return woken;
}

static uint64_t mono_now(void)
{
    return S->clock_base + (step + time_skew) * (S->clock_rate ? S->clock_rate : 1) + mono_jump;
}

/* Nanoseconds as steps, rounded up. */
static uint64_t to_steps(uint64_t ns)
{
    uint64_t r = S->clock_rate ? S->clock_rate : 1;
    uint64_t n = ns / r + (ns % r != 0);
    return n ? n : 1;
}

static long sim_futex(int *addr, int op, int val, const struct timespec *ts)
{
    int cmd = op & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
            errno = EAGAIN;
            return -1;
        }
        S->n_futex_wait++;
        contention();
        uint64_t timeout = 0;
        if (ts) {
            timeout = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
            if (cmd == FUTEX_WAIT_BITSET) {
                uint64_t now = mono_now() + (op & FUTEX_CLOCK_REALTIME ? (uint64_t)real_jump : 0);
                timeout = timeout > now ? timeout - now : 1;
            }
            timeout = to_steps(timeout);
        }
        if (block_on(addr, 1, timeout, 0xF0000005u)) {
            errno = ETIMEDOUT;
            return -1;
        }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        int n = wake_on(addr, 1, val);
        sim_event(0xF0000006u);
        return n;
    }
    errno = ENOSYS;
    return -1;
}

static void entropy(void *buf, size_t n)
{
    uint8_t *p = buf;
    S->n_entropy++;
    while (n) {
        uint64_t v = rnd(&ent_rng);
        size_t k = n < 8 ? n : 8;
        memcpy(p, &v, k);
        p += k;
        n -= k;
    }
}

long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
    long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (active && my_sim) {
        if (n == SYS_futex) {
            int saved = in_target;
            long r = sim_futex((int *)a, (int)b, (int)c, (const struct timespec *)d);
            in_target = saved;
            return r;
        }
        if (n == SYS_getrandom) {
            entropy((void *)a, (size_t)b);
            return b;
        }
        if (n == SYS_getpid)
            return getpid();
        if (n == SYS_gettid)
            return gettid();
    }
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

ssize_t getrandom(void *buf, size_t n, unsigned flags)
{
    if (active && my_sim) {
        entropy(buf, n);
        return (ssize_t)n;
    }
    return (ssize_t)raw6(SYS_getrandom, (long)buf, (long)n, flags, 0, 0, 0);
}

int sched_yield(void)
{
    if (active && my_sim && nthreads > 1) {
        S->n_yield++;
        contention();
        step++;
        account();
        wake_sleepers();
        int to;
        if (S->sched_mode == 3) {
            while (replay_pos < S->n_replay && S->replay[replay_pos].step < step)
                replay_pos++;
            to = next_ready();
            if (replay_pos < S->n_replay && S->replay[replay_pos].step == step) {
                int t = (int)S->replay[replay_pos].target;
                if (t >= 0 && t < nthreads && T[t].state == T_READY)
                    to = t;
                replay_pos++;
            }
        } else
            to = S->sched_mode ? pick(1) : next_ready();
        log_switch(to, 0xF0000007u, 1);
        if (to != my_id)
            give(to, 1);
        draw_next_switch();
        if (in_target && step >= next_event)
            slow_step(0xF0000007u);
        recompute_next();
        return 0;
    }
    return (int)raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}

/* ---------------------------------------------------------------- clocks */

static uint64_t now_ns(clockid_t id)
{
    S->n_clock++;
    if (S->clock_jump && rnd(&clock_rng) % 1000 < S->clock_jump) {
        /* from a microsecond to some days */
        uint64_t by = 1000ull << (rnd(&clock_rng) % 39);
        by += rnd(&clock_rng) % by;
        S->n_clock_jump++;
        if (mono_now() > 6000000000000000000ull)
            ;
        else if (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE && id != CLOCK_TAI)
            mono_jump += by;
        else if (rnd(&clock_rng) & 1)
            real_jump += real_jump < 1000000000000000000 ? (int64_t)by : 0;
        else if (mono_now() + (uint64_t)real_jump > by)
            real_jump -= (int64_t)by;
    }
    uint64_t t = mono_now();
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI)
        t += (uint64_t)real_jump;
    return t;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (active && my_sim) {
        uint64_t t = now_ns(id);
        ts->tv_sec = (time_t)(t / 1000000000ull);
        ts->tv_nsec = (long)(t % 1000000000ull);
        return 0;
    }
    return (int)raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0);
}

int gettimeofday(struct timeval *tv, void *tz)
{
    (void)tz;
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *p)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p)
        *p = ts.tv_sec;
    return ts.tv_sec;
}

clock_t clock(void)
{
    struct timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return (clock_t)(ts.tv_sec * 1000000 + ts.tv_nsec / 1000);
}

clock_t times(struct tms *b)
{
    clock_t c = clock() / 10000;
    if (b) {
        b->tms_utime = c;
        b->tms_stime = b->tms_cutime = b->tms_cstime = 0;
    }
    return c;
}

static int sim_sleep(const struct timespec *ts)
{
    uint64_t d = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
    contention();
    block_on(&T[my_id], 4, to_steps(d), 0xF0000008u);
    return 0;
}

int nanosleep(const struct timespec *ts, struct timespec *rem)
{
    if (active && my_sim)
        return sim_sleep(ts);
    long r = raw6(SYS_nanosleep, (long)ts, (long)rem, 0, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}

int clock_nanosleep(clockid_t id, int flags, const struct timespec *ts, struct timespec *rem)
{
    if (active && my_sim) {
        if (flags & TIMER_ABSTIME) {
            uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
            uint64_t now = mono_now() + (id == CLOCK_REALTIME ? (uint64_t)real_jump : 0);
            struct timespec d = { 0, 1 };
            if (t > now) {
                d.tv_sec = (time_t)((t - now) / 1000000000ull);
                d.tv_nsec = (long)((t - now) % 1000000000ull);
            }
            return sim_sleep(&d);
        }
        return sim_sleep(ts);
    }
    return (int)-raw6(SYS_clock_nanosleep, id, flags, (long)ts, (long)rem, 0, 0);
}

int usleep(useconds_t us)
{
    struct timespec ts = { us / 1000000, (long)(us % 1000000) * 1000 };
    return nanosleep(&ts, 0);
}

/* ---------------------------------------------------------------- the number of processors */

int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set)
{
    if (active && my_sim) {
        uint32_t cpus = S->cpus ? S->cpus : 4;
        memset(set, 0, n);
        for (uint32_t i = 0; i < cpus && i / 8 < n; i++)
            ((uint8_t *)set)[i / 8] |= (uint8_t)(1u << (i % 8));
        return 0;
    }
    long r = raw6(SYS_sched_getaffinity, pid, (long)n, (long)set, 0, 0, 0);
    if (r < 0) { errno = (int)-r; return -1; }
    if ((size_t)r < n)
        memset((uint8_t *)set + r, 0, n - (size_t)r);
    return 0;
}

long sysconf(int name)
{
    static long (*real)(int);
    if (active && my_sim && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF))
        return S->cpus ? (long)S->cpus : 4;
    if (!real)
        real = dlsym(RTLD_NEXT, "sysconf");
    return real(name);
}

/* ---------------------------------------------------------------- who runs */

static pid_t sim_pid(uint64_t salt)
{
    uint64_t x = S->hash_seed ^ salt;
    return (pid_t)(2 + rnd(&x) % 4194300);
}

pid_t getpid(void)
{
    return active && my_sim ? sim_pid(0x7069640au) : (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0);
}

/* Backtraces are empty: the text of a backtrace is no behaviour of the code under test, and naming its
   functions costs more than everything else an aborting process does. */
int _Unwind_Backtrace(void *fn, void *arg)
{
    (void)fn;
    (void)arg;
    return 5; /* _URC_END_OF_STACK */
}

pid_t getppid(void)
{
    return active && my_sim ? sim_pid(0x707069640aull) : (pid_t)raw6(SYS_getppid, 0, 0, 0, 0, 0, 0);
}

pid_t gettid(void)
{
    if (active && my_sim)
        return my_id ? sim_pid(0x7469640aull + (uint64_t)my_id) : sim_pid(0x7069640au);
    return (pid_t)raw6(SYS_gettid, 0, 0, 0, 0, 0, 0);
}

/* ---------------------------------------------------------------- POSIX mutexes (C code) */

static struct { pthread_mutex_t *m; int owner; int depth; } locks[256];

static int lock_slot(pthread_mutex_t *m, int create)
{
    int freeslot = -1;
    for (int i = 0; i < 256; i++) {
        if (locks[i].m == m)
            return i;
        if (!locks[i].m && freeslot < 0)
            freeslot = i;
    }
    if (create && freeslot >= 0) {
        locks[freeslot].m = m;
        locks[freeslot].owner = -1;
        locks[freeslot].depth = 0;
        return freeslot;
    }
    return -1;
}

static int (*real_lock)(pthread_mutex_t *);
static int (*real_trylock)(pthread_mutex_t *);
static int (*real_unlock)(pthread_mutex_t *);

int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (active && my_sim && in_target) {
        sim_event(0xF0000009u);
        int s = lock_slot(m, 1);
        if (s >= 0) {
            while (locks[s].m == m && locks[s].owner >= 0 && locks[s].owner != my_id) {
                contention();
                block_on(m, 3, 0, 0xF000000Au);
            }
            s = lock_slot(m, 1);
            if (locks[s].owner == my_id && m->__data.__kind != PTHREAD_MUTEX_RECURSIVE) {
                violation(SIM_V_DEADLOCK, "a caller locks a mutex that it already holds");
                die();
            }
            locks[s].owner = my_id;
            locks[s].depth++;
            return 0;
        }
    }
    if (!real_lock)
        real_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
    return real_lock(m);
}

int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (active && my_sim && in_target) {
        sim_event(0xF000000Bu);
        int s = lock_slot(m, 1);
        if (s >= 0) {
            if (locks[s].owner >= 0 && locks[s].owner != my_id)
                return EBUSY;
            locks[s].owner = my_id;
            locks[s].depth++;
            return 0;
        }
    }
    if (!real_trylock)
        real_trylock = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    return real_trylock(m);
}

int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (active && my_sim) {
        int s = lock_slot(m, 0);
        if (s >= 0) {
            if (--locks[s].depth == 0) {
                locks[s].m = 0;
                locks[s].owner = -1;
                wake_on(m, 3, 1);
            }
            sim_event(0xF000000Cu);
            return 0;
        }
    }
    if (!real_unlock)
        real_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    return real_unlock(m);
}

/* ---------------------------------------------------------------- harness heap */

#define HBASE 0x100000000000ull
#define HSIZE (8ull << 30)
#define TBASE 0x200000000000ull
#define TSIZE (16ull << 30)

static int hlock;
static void lk(int *l) { while (__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE)) ; }
static void ulk(int *l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); }

static uint8_t *hcur, *hend;
typedef struct hfree { struct hfree *next; } hfree_t;
static hfree_t *hbins[64];

static void map_fixed(uint64_t base, uint64_t size)
{
    void *p = mmap((void *)base, size, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)base) {
        static const char m[] = "simrt: cannot map the simulated heap\n";
        raw6(SYS_write, 2, (long)m, sizeof m - 1, 0, 0, 0);
        raw6(SYS_exit_group, 99, 0, 0, 0, 0, 0);
    }
}

static int hclass(size_t n, size_t *sz)
{
    size_t s = 32;
    int c = 0;
    while (s < n) {
        if (s + s / 2 >= n && s >= 64) { *sz = s + s / 2; return c + 1; }
        s *= 2;
        c += 2;
    }
    *sz = s;
    return c;
}

/* header: 16 bytes before the user pointer: class (u32), offset to the block start (u32), size */
static void *halloc(size_t n, size_t align)
{
    lk(&hlock);
    if (!hcur) {
        map_fixed(HBASE, HSIZE);
        hcur = (uint8_t *)HBASE;
        hend = hcur + HSIZE;
    }
    if (align < 16)
        align = 16;
    size_t need = n + 16 + (align > 16 ? align : 0), sz;
    int c = hclass(need, &sz);
    uint8_t *b;
    if (hbins[c]) {
        b = (uint8_t *)hbins[c];
        hbins[c] = hbins[c]->next;
    } else {
        b = hcur;
        hcur += sz;
        if (hcur > hend) { ulk(&hlock); return 0; }
    }
    uint8_t *u = b + 16;
    u = (uint8_t *)(((uint64_t)u + align - 1) & ~(uint64_t)(align - 1));
    ((uint32_t *)u)[-4] = (uint32_t)c;
    ((uint32_t *)u)[-3] = (uint32_t)(u - b);
    ((uint64_t *)u)[-1] = n;
    ulk(&hlock);
    return u;
}

static void hfree(void *p)
{
    lk(&hlock);
    uint32_t c = ((uint32_t *)p)[-4], off = ((uint32_t *)p)[-3];
    hfree_t *f = (hfree_t *)((uint8_t *)p - off);
    f->next = hbins[c];
    hbins[c] = f;
    ulk(&hlock);
}

/* ---------------------------------------------------------------- heap of the code under test */

#define MAGIC_LIVE 0x51AB1E11C0FFEE01ull
#define MAGIC_FREE 0x51AB1E11DEADBEEFull
#define REDZONE 32

typedef struct thdr {
    uint64_t magic;
    uint64_t size;              /* user size */
    uint64_t total;             /* whole block, from `start` */
    uint8_t *start;
    struct thdr *next;          /* free list / quarantine */
    uint32_t kind;
    uint32_t cls;
    uint64_t seq;
    uint64_t fill;              /* pattern used when freed, 0: none */
} thdr_t;

#define HDR ((sizeof(thdr_t) + 15) & ~15ull)

static uint8_t *tcur, *tend;
static thdr_t *tbins[64];
static thdr_t *q_head, *q_tail;
static uint64_t q_bytes;
static uint64_t live_count, live_bytes, tseq, heap_rng;
static int tmapped;

static void theap_reset(void)
{
    if (!tmapped) {
        map_fixed(TBASE, TSIZE);
        tmapped = 1;
    }
    tcur = (uint8_t *)TBASE + 4096 * (S->heap_base_pages % (1u << 20));
    tend = (uint8_t *)TBASE + TSIZE;
    memset(tbins, 0, sizeof tbins);
    q_head = q_tail = 0;
    q_bytes = 0;
    live_count = live_bytes = tseq = 0;
    heap_rng = S->heap_seed ^ 0x77AA55CC11EE33DDull;
    fault_armed = 0;
    sites_reset();
    memset(trail, 0, sizeof trail);
    trail_at = 0;
}

static int in_theap(const void *p) { return (uint64_t)p >= TBASE && (uint64_t)p < TBASE + TSIZE; }
static int in_hheap(const void *p) { return (uint64_t)p >= HBASE && (uint64_t)p < HBASE + HSIZE; }

static void fillmem(uint8_t *p, size_t n, uint32_t mode)
{
    switch (mode) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xAA, n); break;
    case 2: memset(p, 0xFF, n); break;
    case 3: {
        uint64_t s = rnd(&heap_rng);
        size_t i = 0;
        for (; i + 8 <= n; i += 8) { s = s * 6364136223846793005ull + 1442695040888963407ull; memcpy(p + i, &s, 8); }
        for (; i < n; i++) p[i] = (uint8_t)(s >> 33);
        break;
    }
    default: break;
    }
}

static uint8_t canary(const thdr_t *h, size_t i) { return (uint8_t)(0xC5 ^ (h->seq * 31) ^ (i * 7)); }

static void *user_of(thdr_t *h) { return (uint8_t *)h + HDR + REDZONE; }
static thdr_t *hdr_of(void *p) { return (thdr_t *)((uint8_t *)p - HDR - REDZONE); }

static int check_block(thdr_t *h, const char *when)
{
    if (h->magic != MAGIC_LIVE) {
        violation(SIM_V_HEAP, h->magic == MAGIC_FREE ? "memory is released twice (%s)"
                  : "an invalid pointer is released or a heap header was overwritten (%s)", when);
        return 0;
    }
    uint8_t *u = user_of(h);
    for (size_t i = 0; i < REDZONE; i++) {
        if (u[-(long)i - 1] != canary(h, i)) {
            violation(SIM_V_HEAP, "a write before the start of a block of %llu bytes (%s)",
                      (unsigned long long)h->size, when);
            return 0;
        }
        if (u[h->size + i] != canary(h, i + 100)) {
            violation(SIM_V_HEAP, "a write behind the end of a block of %llu bytes (%s)",
                      (unsigned long long)h->size, when);
            return 0;
        }
    }
    return 1;
}

static int check_freed(thdr_t *h)
{
    if (h->magic != MAGIC_FREE) {
        violation(SIM_V_HEAP, "the header of a released block was overwritten");
        return 0;
    }
    if (h->fill == 0xDD) {
        uint8_t *u = user_of(h);
        for (size_t i = 0; i < h->size; i++)
            if (u[i] != 0xDD) {
                violation(SIM_V_HEAP, "a write to a released block of %llu bytes at offset %llu",
                          (unsigned long long)h->size, (unsigned long long)i);
                return 0;
            }
    }
    return 1;
}

/* Requests for memory are told apart by the last 1, 2, 4 or 8 edges before them. The places are numbered
 * in the order in which they are first used. */
static struct { uint64_t sig; uint32_t ord, n; } site[SITE_DEPTHS][1 << 12];
static uint32_t site_used[SITE_DEPTHS];

static void sites_reset(void)
{
    memset(site, 0, sizeof site);
    memset(site_used, 0, sizeof site_used);
    memset(S->n_site, 0, sizeof S->n_site);
}

static void note_site(int kind, uint32_t *ord, uint32_t *nth)
{
    uint64_t sig = 1 + (uint64_t)kind;
    for (uint32_t d = 0, n = 0; d < SITE_DEPTHS; d++) {
        for (; n < 1u << d; n++) {
            sig ^= trail[(trail_at - 1 - n) & 7] * 0x9E3779B97F4A7C15ull;
            sig = rnd(&sig);
        }
        uint32_t i = (uint32_t)(sig >> 20) & 4095;
        while (site[d][i].sig && site[d][i].sig != (sig | 1))
            i = (i + 1) & 4095;
        ord[d] = nth[d] = ~0u;
        if (!site[d][i].sig) {
            if (site_used[d] > 3500)
                continue;
            site_used[d]++;
            site[d][i].sig = sig | 1;
            site[d][i].ord = S->n_site[kind][d]++;
        }
        ord[d] = site[d][i].ord;
        nth[d] = site[d][i].n++;
    }
}

static int fault_hits(int kind)
{
    int mine = S->fault_thread < 0 || S->fault_thread == my_id;
    uint32_t ord[SITE_DEPTHS], nth[SITE_DEPTHS];
    if (!mine)
        return 0;
    note_site(kind, ord, nth);
    if (!fault_armed)
        return 0;
    uint64_t k = fault_count[kind]++;
    S->armed_alloc[kind] = fault_count[kind];
    for (uint32_t i = 0; i < S->n_fault; i++) {
        if ((S->fault[i].kind & 1) != (uint32_t)kind)
            continue;
        uint32_t d = S->fault[i].kind >> 1;
        uint64_t from = S->fault[i].from, to = S->fault[i].to;
        if (d ? d <= SITE_DEPTHS && ord[d - 1] == from && (to >> 32 ? nth[d - 1] >= (uint32_t)to : nth[d - 1] == to)
              : k >= from && k < to) {
            S->n_fault_fired[kind]++;
            S->steps = step;    /* in case that this ends the process */
            if (d)
                S->n_fault_site++;
            return 1;
        }
    }
    return 0;
}

static void *talloc(size_t n, size_t align, int kind, int zero)
{
    sim_event(kind ? 0xF0000010u : 0xF0000011u);
    S->n_alloc[kind]++;
    if (fault_hits(kind))
        return 0;
    if (n > (1ull << 32))
        return 0;
    if (align < 16)
        align = 16;
    size_t need = HDR + REDZONE + n + REDZONE + align, sz;
    if (S->heap_pad)
        need += 16 * (rnd(&heap_rng) % (S->heap_pad + 1));
    int c = hclass(need, &sz);
    uint8_t *b = 0;
    thdr_t *old = 0;
    if (S->heap_reuse && tbins[c]) {
        old = tbins[c];
        tbins[c] = old->next;
        if (!check_freed(old))
            die();
        b = old->start;
    } else {
        if (S->heap_two_ended && (rnd(&heap_rng) & 1)) {
            tend -= sz;
            b = tend;
        } else {
            b = tcur;
            tcur += sz;
        }
        if (tcur > tend)
            return 0;
    }
    uint8_t *u = b + HDR + REDZONE;
    u = (uint8_t *)(((uint64_t)u + align - 1) & ~(uint64_t)(align - 1));
    thdr_t *h = hdr_of(u);
    h->magic = MAGIC_LIVE;
    h->size = n;
    h->total = sz;
    h->start = b;
    h->next = 0;
    h->kind = (uint32_t)kind;
    h->cls = (uint32_t)c;
    h->seq = ++tseq;
    h->fill = 0;
    for (size_t i = 0; i < REDZONE; i++) {
        u[-(long)i - 1] = canary(h, i);
        u[n + i] = canary(h, i + 100);
    }
    if (zero)
        memset(u, 0, n);
    else
        fillmem(u, n, S->heap_fill_alloc);
    live_count++;
    live_bytes += n;
    return u;
}

static void to_bin(thdr_t *h)
{
    h->next = tbins[h->cls];
    tbins[h->cls] = h;
}

static void tfree(void *p)
{
    thdr_t *h = hdr_of(p);
    if (!check_block(h, "when it is released"))
        die();
    live_count--;
    live_bytes -= h->size;
    h->magic = MAGIC_FREE;
    if (S->heap_fill_free == 1 && h->size <= 65536) {
        memset(p, 0xDD, h->size);
        h->fill = 0xDD;
    } else if (S->heap_fill_free == 2)
        fillmem(p, h->size, 3);
    if (S->heap_reuse == 1)
        to_bin(h);
    else if (S->heap_reuse == 2) {
        h->next = 0;
        if (q_tail)
            q_tail->next = h;
        else
            q_head = h;
        q_tail = h;
        q_bytes += h->total;
        while (q_bytes > (4u << 20)) {
            thdr_t *o = q_head;
            q_head = o->next;
            if (!q_head)
                q_tail = 0;
            q_bytes -= o->total;
            to_bin(o);
        }
    } else if (S->heap_fill_free == 1) {
        h->next = q_head;       /* never reused: checked at the end */
        q_head = h;
    }
    sim_event(0xF0000012u);
}

int sim_heap_check(void)
{
    for (thdr_t *h = q_head; h; h = h->next)
        if (!check_freed(h))
            return 0;
    for (int c = 0; c < 64; c++)
        for (thdr_t *h = tbins[c]; h; h = h->next)
            if (!check_freed(h))
                return 0;
    return 1;
}

uint64_t sim_live_bytes(void) { return live_bytes; }
uint64_t sim_live_count(void) { return live_count; }

void sim_fault_arm(void) { fault_count[0] = fault_count[1] = 0; fault_armed = 1; sites_reset(); }
void sim_fault_disarm(void) { fault_armed = 0; }

/* Memory for the code under test is requested while it runs; everything else is the harness's. */
static int is_target(void) { return in_target && active && my_sim; }

static void *alloc_any(size_t n, size_t align, int kind, int zero)
{
    if (is_target())
        return talloc(n, align, kind, zero);
    void *p = halloc(n, align);
    if (p && zero)
        memset(p, 0, n);
    return p;
}

static size_t size_of(void *p)
{
    if (in_theap(p))
        return hdr_of(p)->size;
    return ((uint64_t *)p)[-1];
}

static void free_any(void *p)
{
    if (!p)
        return;
    if (in_theap(p)) {
        if (active)
            tfree(p);
    } else if (in_hheap(p))
        hfree(p);
    else if (is_target()) {
        violation(SIM_V_HEAP, "a pointer that is not from the heap is released");
        die();
    }
}

static void *realloc_any(void *p, size_t n, size_t align, int kind)
{
    if (!p)
        return alloc_any(n, align, kind, 0);
    if (in_theap(p) && active && hdr_of(p)->magic != MAGIC_LIVE) {
        check_block(hdr_of(p), "when it is reallocated");
        die();
    }
    size_t o = size_of(p);
    void *q = alloc_any(n, align, kind, 0);
    if (!q)
        return 0;
    memcpy(q, p, o < n ? o : n);
    free_any(p);
    return q;
}

void *sim_rust_alloc(size_t n, size_t align, int zero) { return alloc_any(n, align, 1, zero); }

size_t sim_shared_size(void) { return sizeof(sim_shared_t); }

/* Rust passes the layout again when it releases memory. */
static void rust_check(void *p, size_t n)
{
    if (in_theap(p) && active) {
        thdr_t *h = hdr_of(p);
        if (h->magic == MAGIC_LIVE && h->kind == 0) {
            violation(SIM_V_HEAP, "memory from malloc is released by Rust's allocator");
            die();
        }
        if (h->magic == MAGIC_LIVE && h->size != n) {
            violation(SIM_V_HEAP, "a block of %llu bytes is released as %llu bytes",
                      (unsigned long long)h->size, (unsigned long long)n);
            die();
        }
    }
}

void sim_rust_free_sized(void *p, size_t n)
{
    rust_check(p, n);
    free_any(p);
}

void *sim_rust_realloc(void *p, size_t n, size_t align, size_t old)
{
    rust_check(p, old);
    return realloc_any(p, n, align, 1);
}

static void c_free_check(void *p)
{
    if (in_theap(p) && active) {
        thdr_t *h = hdr_of(p);
        if (h->magic == MAGIC_LIVE && h->kind == 1) {
            violation(SIM_V_HEAP, "memory from Rust's allocator is released by free");
            die();
        }
    }
}

/* Requests that the C library makes for itself (buffers of streams) are not the code under test's. */
extern char __executable_start, etext;
static void *c_alloc(void *ra, size_t n, size_t align, int zero)
{
    if ((char *)ra >= &__executable_start && (char *)ra < &etext)
        return alloc_any(n, align, 0, zero);
    void *p = halloc(n, align);
    if (p && zero)
        memset(p, 0, n);
    return p;
}
#define RA __builtin_return_address(0)

void *malloc(size_t n) { void *p = c_alloc(RA, n, 16, 0); if (!p) errno = ENOMEM; return p; }
void free(void *p) { int e = errno; c_free_check(p); free_any(p); errno = e; }
void *calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
    void *p = c_alloc(RA, n, 16, 1);
    if (!p) errno = ENOMEM;
    return p;
}
void *realloc(void *p, size_t n)
{
    if (p && !n) { free(p); return 0; }
    c_free_check(p);
    void *q = realloc_any(p, n, 16, 0);
    if (!q) errno = ENOMEM;
    return q;
}
void *reallocarray(void *p, size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
    return realloc(p, n);
}
int posix_memalign(void **out, size_t align, size_t n)
{
    void *p = c_alloc(RA, n, align, 0);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void *memalign(size_t align, size_t n) { return c_alloc(RA, n, align, 0); }
void *aligned_alloc(size_t align, size_t n) { return c_alloc(RA, n, align, 0); }
void *valloc(size_t n) { return c_alloc(RA, n, 4096, 0); }
void *pvalloc(size_t n) { return c_alloc(RA, (n + 4095) & ~4095ull, 4096, 0); }
size_t malloc_usable_size(void *p) { return p ? size_of(p) : 0; }
