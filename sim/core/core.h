/* internal interface between the simulator's own files */
#ifndef CORE_H
#define CORE_H
#define _GNU_SOURCE 1
#include "sim.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>

#define MAXCH   (1 << 18)
#define MAXPROBE 48
#define COV_MAX  (1 << 16)

typedef struct {
    volatile int status;            /* 0 nothing, 1 held, 2 violation, 3 machinery error */
    char     kind[64];
    char     msg[1500];
    uint64_t hash, steps, simns, sig, switches, preempts, allocs, heap, budget;
    int      nontrivial;
    char     desc[600];
    uint32_t fired[F_N];
    uint32_t nprobe;
    const char *probe[MAXPROBE];
    uint32_t nch;
    uint32_t ch[MAXCH];
    uint8_t  tag[MAXCH];            /* index into the tag table */
    uint32_t ntag;
    char     tagname[256][20];
} result_t;

extern result_t *R;
extern int sim_active;              /* inside a run, on a fiber */
extern uint64_t g_steps, g_step_limit, g_points;
extern uint64_t gap_left;
extern uint64_t g_since_point;

void step_limit_hit(void) __attribute__((noreturn));
void gap_hit(void);

static inline void step(void) {
    if (!sim_active) return;
    if (++g_steps > g_step_limit) step_limit_hit();
    if (gap_left) { if (--gap_left == 0) gap_hit(); }
    else if (++g_since_point > 200000) gap_hit();
}
void sched_point(void);             /* synchronisation / system call point */
void sched_init(void);
int sched_fork_prepare(void); void sched_fork_parent(int n), sched_fork_lone(void), sched_fork_child(int n);
void sched_run(void (*fn)(void)) __attribute__((noreturn));
void sched_final_check(void);
int  blocked_report(char *buf, size_t n);
void heap_init(void);
void os_init(void);
void stdio_init(void);
void stdio_exit_flush(void);
void cancel_point(void);
void sim_abort_now(const char *why) __attribute__((noreturn));

uint32_t ch_q(const char *tag, uint32_t n); int ch_pq(const char *tag, uint32_t num, uint32_t den); uint32_t ch_wq(const char *tag, uint32_t n, const uint32_t *w);
void hash_mix(uint64_t v);
void sim_trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

/* generic blocking used by os.c (pipes, sleep) */
enum { W_NONE, W_MUTEX, W_COND, W_JOIN, W_HARNESS, W_SLEEP, W_IO, W_RW, W_SEM, W_BARRIER, W_FLOCK };
int  block_on(int kind, const void *obj, uint64_t mono_deadline, int wall, int64_t wall_deadline); /* 1: timed out */
void wake_all(int kind, const void *obj);
int  wake_n(int kind, const void *obj);      /* wake one chosen; returns number of waiters before */
int  waiters(int kind, const void *obj);
int *sim_errno_loc(void);

#define ARENA      0x100000000000ULL
#define ARENA_SZ   (512ULL << 20)
void heap_fault(const void *p, size_t n, int write, const char *what);
extern unsigned char *heap_shadow;
static inline int in_arena(const void *p) { return (uintptr_t)p - ARENA < ARENA_SZ; }
static inline void heap_acc(const void *p, size_t n, int write, const char *what) {
    uintptr_t o = (uintptr_t)p - ARENA;
    if (o < ARENA_SZ) {
        for (size_t i = 0; i < n; i++)
            if (heap_shadow[o + i] != 1) heap_fault(p, n, write, what);
    }
}
/* fs/fd layer used by stdio.c */
int     os_open(const char *path, int flags, mode_t mode, int from_stdio);
ssize_t os_write(int fd, const void *buf, size_t n);
ssize_t os_read(int fd, void *buf, size_t n);
int     os_close(int fd);
long    os_lseek(int fd, long off, int whence);
extern const char *g_prop;
#endif
