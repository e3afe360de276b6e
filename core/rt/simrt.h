/* Deterministic simulation runtime: baton scheduler over real threads, simulated heap, simulated
 * clock and entropy.  See simrt.c. */
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>
#include <stddef.h>

#define SIM_MAXTHREADS 16
#define SIM_MAXSWITCH 4096
#define SITE_DEPTHS 4
#define SIM_MAXFAULT 64
#define SIM_MAXEVENTS 16

enum { SIM_V_NONE = 0, SIM_V_HEAP = 1, SIM_V_DEADLOCK = 2, SIM_V_BUDGET = 3, SIM_V_PREEMPTLIMIT = 4, SIM_V_CRASH = 5 };

typedef struct { uint64_t step; uint32_t target; uint32_t site; } sim_switch_t;

/* Shared (MAP_SHARED) between a run and its parent, so that it survives a crash of the run. */
typedef struct {
    /* inputs: schedule */
    uint64_t sched_seed;
    uint32_t sched_mode;        /* 0 none, 1 geometric, 2 uniform points over est_steps, 3 replay list */
    uint32_t sched_points;      /* mode 2: how many */
    uint64_t sched_mean;        /* mode 1: mean distance of preemptions */
    uint64_t est_steps;         /* mode 2 */
    uint32_t event_switch_permille; /* probability of switching at runtime events (alloc, pixel, lock) */
    uint32_t newedge_permille;  /* ... at the first executions of a basic block edge */
    uint32_t burst_len;         /* mode 2: every point starts a burst of so many switches */
    uint32_t burst_mean;
    uint32_t n_replay;
    sim_switch_t replay[SIM_MAXSWITCH];
    /* inputs: environment */
    uint64_t heap_seed;
    uint64_t heap_base_pages;   /* offset of the first block */
    uint32_t heap_reuse;        /* 0 never, 1 LIFO at once, 2 FIFO with quarantine */
    uint32_t heap_fill_alloc;   /* 0 zero 1 0xAA 2 0xFF 3 random 4 leave */
    uint32_t heap_fill_free;    /* 0 leave 1 0xDD 2 random */
    uint32_t heap_pad;          /* maximum extra padding, in 16 byte units */
    uint32_t heap_two_ended;    /* fresh blocks come from a random end of the heap */
    uint64_t hash_seed;
    uint64_t clock_base;
    uint64_t clock_rate;        /* nanoseconds per step */
    uint32_t clock_jump;        /* chance of a jump at a reading, in 1000 */
    uint32_t cpus;
    uint64_t budget;            /* maximum total steps of the run */
    uint64_t thread_budget[SIM_MAXTHREADS]; /* maximum steps of one call, 0: none */
    /* where a thread stops for ever (within target code): 0 nowhere, 1 at its own step k,
     * 2 when it runs the k-th basic block edge that nobody ran before, 3 at its k-th runtime event,
     * 4 wherever it is when another thread has to wait for the k-th time (sleeping and yielding count) */
    struct { uint32_t mode; uint64_t at; } stall[SIM_MAXTHREADS];
    /* inputs: allocation faults, counted per kind in the fault thread from sim_fault_arm() on */
    uint32_t n_fault;
    /* kind & 1: 0 C, 1 Rust; kind / 2: 0 the requests from..to, 1 to 4 the request number `to` (or, with bit 32,
     * all from that one on) of the place number `from`, told apart by 1, 2, 4 or 8 edges */
    struct { uint32_t kind; uint64_t from, to; } fault[SIM_MAXFAULT];
    int32_t  fault_thread;      /* -1: any */
    /* outputs */
    uint64_t steps;
    uint64_t tsteps[SIM_MAXTHREADS];
    uint64_t inter_sig;         /* hash of (thread, site, next thread) at every switch */
    uint32_t n_switch;
    uint32_t n_forced;
    sim_switch_t log[SIM_MAXSWITCH];
    uint64_t n_alloc[2];
    uint64_t armed_alloc[2];
    uint64_t n_fault_fired[2], n_fault_site;
    uint32_t n_site[2][SITE_DEPTHS];
    uint64_t n_entropy, n_clock, n_clock_jump, n_futex_wait, n_threads, n_yield, n_spurious;
    uint32_t violation;
    uint32_t viol_thread;
    uint64_t viol_step;
    char viol_msg[512];
    uint32_t stalled;           /* the threads that stalled, as bits */
    uint64_t cov_edges;         /* distinct edges covered in this run */
    uint64_t cov_hash;
    int32_t  cur_op[SIM_MAXTHREADS];
    uint32_t sig;               /* signal that ended the run */
    uint64_t sig_addr;
    uint64_t sig_pc;
} sim_shared_t;

void sim_init(void);
void sim_set_shared(sim_shared_t *s);
void sim_start(void);           /* the calling thread becomes thread 0 */
void sim_stop(void);
void sim_enter(void);           /* target code begins on this thread */
void sim_leave(void);
int  sim_in_target(void);
void sim_event(uint32_t site);  /* something observable happened in a seam */
void sim_point(void);           /* explicit yield opportunity in harness code */
uint64_t sim_now_steps(void);
uint64_t sim_my_steps(void);
int  sim_my_id(void);
void sim_fault_arm(void);
void sim_fault_disarm(void);
uint64_t sim_live_bytes(void);
uint64_t sim_live_count(void);
int  sim_heap_check(void);
void *sim_rust_alloc(size_t size, size_t align, int zero);
void *sim_rust_realloc(void *p, size_t size, size_t align, size_t old);
size_t sim_shared_size(void);
void sim_rust_free_sized(void *p, size_t n);
#endif
