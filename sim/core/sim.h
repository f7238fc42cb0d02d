/* Deterministic simulator for libzt: public interface for scenarios.
 *
 * One OS process = one run.  Threads of the library are fibers, every
 * library memory access and every system/libc call the library makes that
 * matters goes through the simulator, and every decision is drawn from one
 * recorded stream of choices. */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/types.h>
#include <time.h>

/* ---- choices ------------------------------------------------------- */
/* uniform value in [0,n); 0 must be the simplest alternative */
uint32_t ch(const char *tag, uint32_t n);
/* 1 with probability num/den, else 0 */
int ch_p(const char *tag, uint32_t num, uint32_t den);
/* weighted: index in [0,n) */
uint32_t ch_w(const char *tag, uint32_t n, const uint32_t *w);
/* range [lo,hi] */
static inline long ch_r(const char *tag, long lo, long hi) { return lo + (long)ch(tag, (uint32_t)(hi - lo + 1)); }

/* ---- event log (hashed always, printed when verbose) ---------------- */
void ev(const char *fmt, long a, long b, long c);
void evs(const char *fmt, const char *s, long a);
#define EV0(f) ev(f, 0, 0, 0)
extern int sim_verbose;

/* ---- verdicts -------------------------------------------------------- */
void sim_fail(const char *kind, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_finish(void) __attribute__((noreturn));       /* run ends, property held */
void sim_error(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2))); /* machinery error */
void sim_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  /* extra text for verbose log */
#define CHECK(c, kind, ...) do { if (!(c)) sim_fail(kind, __VA_ARGS__); } while (0)

/* probes: "this rare condition was reached" */
int sim_large(void);            /* rarely 1: the scenario drops its usual bounds on sizes and counts */
void probe(const char *name);
/* mark this run as non-trivial for evidence */
void sim_nontrivial(void);
/* mix a value in the distinctness signature of this run */
void sim_sig(uint64_t v);
/* one-line description of this run's configuration (for evidence samples) */
void sim_desc(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

/* ---- faults ----------------------------------------------------------- */
enum fault {
    F_ALLOC, F_PREEMPT, F_STALL, F_SPURIOUS, F_CLOCKSTEP, F_TIMERACE, F_THREAD_CREATE,
    F_PIPE, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_EINTR, F_WRITE_SHORT, F_READ_EIO, F_READ_EINTR, F_READ_SHORT,
    F_OPEN, F_OPEN_EINTR, F_CLOSE_EIO, F_CLOSE_EINTR, F_MKDIR, F_STAT, F_RACE_FS, F_FORK, F_SETSID, F_RLIMIT, F_CHDIR, F_DUP, F_WAIT_EINTR,
    F_SLEEP_EINTR, F_MUTEX_INIT, F_COND_INIT, F_HOSTNAME, F_CRASH, F_MISC, F_N
};
extern const char *const fault_name[F_N];
void fault_set(enum fault k, uint32_t num, uint32_t den, int max);  /* enable; max<0: unlimited */
void fault_off(void);                                               /* faults stop */
int  fault(enum fault k);                                           /* does it fire now? */
void fault_count(enum fault k);                                     /* record a fault applied by a scenario */
int  fault_fired(enum fault k);
void *sim_shared(size_t n);
void sim_process(int pid, void (*fn)(void *), void *arg);    /* runs fn in a second process to its end */
const char *sim_strerror(int e);
int  fault_fired_by(enum fault k, int fiber); /* of those, on calls made by one thread */

/* ---- scheduling -------------------------------------------------------- */
typedef void *(*fiber_fn)(void *);
int   fiber_spawn(fiber_fn fn, void *arg, const char *name);        /* harness-made client thread; returns id */
void *fiber_join(int id);
int   fiber_self(void);
int   fiber_alive(int id);
int   fiber_joined(int id); int fiber_detached(int id); int fiber_count(void); int fiber_is_blocked(int id); int fiber_wait_kind(int id); unsigned long fiber_tid(int id);
int   sim_last_created(void); int fiber_waits(int id, int kind); int fiber_is_harness(int id); int fiber_done(int id);
enum { WK_MUTEX = 1, WK_COND = 2, WK_JOIN = 3, WK_SLEEP = 5, WK_IO = 6 }; int mutex_owner(const void *m); unsigned sim_cond_seq(const void *c);
int   fibers_alive(void);          /* number of fibers not finished (incl. caller) */
void  sim_yield(void);             /* a scheduling point */
void  sim_block_until(int (*cond)(void *), void *arg);   /* harness-side blocking wait */
void  sim_idle(int n);             /* give others up to n scheduling turns */
uint64_t sim_steps(void);
void  sim_step_limit(uint64_t n, const char *kind);  /* exceeding: violation of this kind */
void  sim_deadlock_kind(const char *kind);           /* kind used when nothing can run */
void  sim_sched_cfg(int preempt_class, int switch_class); /* -1: draw */
extern int sim_fiber_cancel_points;

/* ---- clock --------------------------------------------------------------- */
uint64_t sim_now(void);            /* monotonic ns */
int64_t  sim_wall_ns(void);        /* realtime ns */
void     sim_advance(uint64_t ns);
void     sim_wall_step(int64_t ns);
void     sim_wall_set(int64_t ns);
extern int64_t  sim_ru_user_us, sim_ru_sys_us, sim_ru_cost_user, sim_ru_cost_sys;
extern uint64_t sim_jumps;

/* ---- heap ---------------------------------------------------------------- */
void *sim_malloc(size_t n); void *sim_calloc(size_t n, size_t m); void *sim_realloc(void *p, size_t n); void sim_free(void *p);
char *sim_strdup(const char *s);
void *sim_alloc_nf(size_t n);      /* allocation in the simulated heap that never fails (harness data) */
size_t heap_live(void);            /* live blocks */
size_t heap_live_bytes(void);
uint64_t heap_mark(void);          /* allocation serial */
size_t heap_live_since(uint64_t mark);
void   heap_dump_since(uint64_t mark);
int    heap_is_live(const void *p, size_t n);  /* whole range allocated */
size_t heap_block_size(const void *p);
const void *heap_block_base(const void *p);  /* start of the block that contains p */
void   heap_check(const void *p, size_t n, int write, const char *what);
uint64_t heap_allocs(void);
uint64_t heap_used(void);       /* bytes handed out in this run, released or not */
void   heap_ignore(const void *p);  /* exclude from leak accounting */

/* ---- simulated OS --------------------------------------------------------- */
enum { N_NONE, N_DIR, N_FILE, N_NULL };
int  fs_mkdirp(const char *path);                 /* harness: create directory path */
int  fs_put(const char *path, const void *data, size_t n);
int  fs_type(const char *path);
ssize_t fs_get(const char *path, void *buf, size_t cap);  /* -1 when missing */
int  fs_rm(const char *path);
void fs_set_readonly(const char *path, int errnum); /* creating below/with this dir fails with errnum; 0 clears */
void fs_set_cap(long bytes);                      /* disk capacity left; -1 unlimited */
int  fs_count(void);
void fs_list(void (*cb)(const char *path, int type, mode_t mode, void *arg), void *arg);
mode_t fs_mode(const char *path);
int  fd_open_count(void);
int  fd_is_open(int fd);
int  fd_foreign_closed(void);      /* closes of descriptors the library did not open (see fd_guard) */
void fd_guard(int fd);             /* harness descriptor: closing it by the library is a violation to be counted */
int  fd_install(int fd, const char *path);  /* harness opens descriptor number fd */
int  fd_kind(int fd, char *path, size_t n); /* node type the fd refers to, path filled */
int  fd_flags(int fd);
void fd_set_limit(uint64_t n); void fd_set_rlimit(uint64_t cur, uint64_t max); int fs_chdir(const char *path);
long fd_pipe_avail(int rfd);       /* bytes readable */
long fd_pipe_read(int rfd, void *buf, size_t n); /* harness read, non-blocking */
void pipe_set_cap(int n);
int  fd_free_slots(void);
uint64_t os_calls(void);           /* number of simulated system calls so far */
int  streams_open(void);           /* FILEs opened by the library and not closed */
int  sim_close(int fd);

extern FILE *sim_stderr, *sim_stdout, *sim_stdin;
const char *stderr_text(size_t *n);
void stderr_reset(void);
const char *stdout_text(size_t *n);

typedef struct { int prio; char text[20000]; int by, opt, fac; char ident[256]; } syslog_rec;
int syslog_count(void); const syslog_rec *syslog_get(int i); int syslog_is_open(void); int syslog_closes(void);

typedef struct {
    int pid, ppid, sid, pgid, forks; mode_t umask_; int waited, exited, exit_code; int depth; int slept;
    int wait_calls; int killed_children; int zombies; /* other children that have already exited */ int first_child;
} sim_proc;
extern sim_proc proc;
extern char sim_hostname[256];
extern int  sim_hostname_fail;
extern void (*sim_exit_cb)(int code);    /* called when the simulated process exits, after exit handlers */
extern void (*sim_abort_cb)(void);       /* called on abort() */
void sim_exit(int code) __attribute__((noreturn));
int  sim_atexit_count(void);
extern void (*sim_fork_cb)(int follow_child);
char *fs_cwd(char *buf, size_t n);
void env_set(const char *name, const char *value);  /* environment of the process; NULL unsets */
void os_exe_path(const char *path);                 /* what /proc/<pid>/exe points to */
extern int  fs_race_enabled;
extern void (*fs_race_cb)(const char *syscall, const char *path);   /* concurrent actor hook at fs calls */

/* ---- scenarios ---------------------------------------------------------------- */
typedef struct {
    const char *id;
    void (*run)(void);
    const char *rule;     /* what makes a run non-trivial */
    const char *real;     /* components running real code */
    const char *stub;     /* simulated components */
} scn_t;
#define SCN(ID, FN, RULE, REAL, STUB) const scn_t scn_##ID = { #ID, FN, RULE, REAL, STUB };
#endif
