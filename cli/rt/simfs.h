/* The interface between the simulated system calls (preloaded into the command line tool) and the
 * simulator.  Mirrored in src/shared.rs. */
#ifndef SIMFS_H
#define SIMFS_H
#include <stdint.h>

#define SF_MAXFAULT 512
#define SF_MAXLOG 8192
#define SF_MAXPATH 64
#define SF_PATHLEN 256
#define SF_MAXOUT 65536

enum { F_SHORT = 1, F_EINTR, F_ERR, F_ERR_ON, F_KILL, F_KILL_MID };
enum { O_OPENR = 1, O_OPENW, O_READ, O_WRITE, O_SEEK, O_STAT, O_TRUNC, O_SYNC, O_NAME, O_CLOSE, O_STDOUT, O_STDERR };
enum { V_NONE, V_ESCAPE = 1, V_ENDLESS = 2 };

typedef struct { uint32_t op, kind; int64_t arg; } sf_fault_t;
typedef struct { uint8_t type, inj; int16_t err; int32_t path; int64_t req, ret; } sf_op_t;

typedef struct {
    /* what the simulator asks for */
    char root[SF_PATHLEN];
    uint64_t irr_seed;              /* irregularities: 0 none */
    uint32_t p_short, p_eintr;      /* per mille */
    uint32_t chunk;                 /* never more than this many bytes per transfer (0: unlimited) */
    uint32_t n_fault;
    sf_fault_t fault[SF_MAXFAULT];
    int64_t capacity;               /* bytes that still fit on the disk, -1: unlimited */
    uint64_t hash_seed, clock_base;
    uint32_t max_ops, pad0;
    /* what happened */
    uint32_t n_ops, n_log, n_path, violation;
    uint32_t fired[16];
    uint32_t n_entropy, n_clock, killed, last_nops;
    uint64_t bytes_in, bytes_out;
    char viol_msg[256];
    char path[SF_MAXPATH][SF_PATHLEN];
    uint8_t path_made[SF_MAXPATH];  /* a name that was created, removed or replaced */
    sf_op_t log[SF_MAXLOG];
    uint32_t out_len, err_len;
    char out[SF_MAXOUT], err[SF_MAXOUT];
} sf_t;
#endif
