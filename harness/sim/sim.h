/* Deterministic simulator core: see DESIGN.md. One process, real threads, one of which runs at a
 * time; every scheduling decision, wake-up, clock reading, random byte and injected fault is drawn
 * from one seeded generator or taken from an explicit script. */
#ifndef DST_SIM_H
#define DST_SIM_H
#include <stdint.h>
#include <stddef.h>

enum { /* record classes */
  REC_PREEMPT = 1, /* key = thread-local tick,      val = thread that runs next            */
  REC_OP = 2,      /* key = thread-local op number, val = thread that runs next            */
  REC_WAKE = 3,    /* key = thread-local op number, val = waiter that is woken             */
  REC_STALL = 4,   /* key = thread-local tick,      val = ns the thread is not scheduled   */
  REC_FAULT = 5,   /* key = thread-local fault query, val = kind << 48 | parameter         */
};

enum { /* fault kinds */
  F_SPURIOUS = 0, F_STALL, F_SPAWN, F_RTJUMP,
  F_OPEN_ERR, F_READ_SHORT, F_READ_EINTR, F_READ_ERR,
  F_WRITE_SHORT, F_WRITE_EINTR, F_WRITE_ERR, F_DISK_FULL, F_MKDIR_ERR, F_MISC_ERR, F_KILL,
  F_STDOUT_ERR, F_ENTROPY, F_KINDS
};

typedef struct { uint32_t tid, cls; uint64_t key, val; } sim_rec;

typedef struct {
  uint64_t seed;         /* scheduler and fault decisions */
  uint64_t entropy_seed; /* bytes handed to the program by getrandom */
  uint32_t strategy;     /* 0 random walk, 1 priorities (PCT), 2 script only */
  uint32_t preempt_mean; /* mean ticks between preemption points, 0 = only at blocking ops */
  uint32_t ns_per_tick;
  uint32_t rare;         /* an edge taken at most so often in the run is switched at with rare_ppm */
  uint32_t rare_ppm;
  uint32_t p_stay;       /* ppm: at a preemption point keep the running thread */
  uint64_t tick_cap;     /* give up (status 2) after that many ticks */
  uint64_t fair_ticks;   /* no runnable thread waits longer than this */
  uint64_t stall_max_ns;
  uint64_t disk_budget;  /* bytes the disk takes, UINT64_MAX = no limit */
  uint64_t kill_io;      /* kill the process before this file operation (1-based), 0 = never */
  uint64_t kill_wr;      /* the same, counted from the first opening of a file for writing */
  uint64_t kill_tick;    /* kill the process at this tick, 0 = never */
  uint32_t ppm[F_KINDS]; /* fault probabilities, parts per million per query */
  uint32_t fault_after;  /* io faults only from this io operation on */
  const char *fs_prefix; /* only files below this path are subject to faults */
  const sim_rec *script; /* strategy 2 */
  size_t nscript;
  uint64_t start_ns;     /* clock at start */
  uint64_t ncpu;         /* processors the program is told of, 0 = the real ones */
} sim_cfg;

typedef struct {
  int32_t status;        /* 0 all threads finished, 1 deadlock, 2 tick cap, 3 killed */
  int32_t root_done;     /* root thread had returned */
  uint64_t ticks, clock_ns, idle_ns, switches, decisions, hash, inter_hash;
  uint64_t nthreads, max_alive, io_ops, edges;
  uint64_t faults[F_KINDS];
  uint64_t wr_ops;       /* file operations since a file was first opened for writing */
  uint64_t workers;      /* threads beside the first one that did far more work than any helper does */
} sim_report;

void sim_run(const sim_cfg *cfg, void (*fn)(void *), void *arg, sim_report *rep);
size_t sim_log(const sim_rec **out);
uint64_t sim_now(void);
uint64_t sim_ticks(void);
uint64_t sim_thread_ticks(int tid);
uint64_t sim_thread_yields(int tid);
uint64_t sim_unfinished(int creator, uint64_t lo, uint64_t hi);
int sim_tid(void);
uint64_t sim_threads_created(void);
uint64_t sim_alive(void);
uint64_t sim_faults_fired(int kind);
void sim_yield_point(void);
void sim_atomic(int d);
void sim_calm(void);
void sim_share_cov(void);
uint64_t sim_edges_hit(void);
uint64_t sim_edges_total(void);
#endif
