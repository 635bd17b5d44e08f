#define _GNU_SOURCE
#include "sim.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

/* ---------------------------------------------------------------- raw system calls */
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
static long ret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

/* ---------------------------------------------------------------- state */
enum { T_RUN = 1, T_FUTEX, T_SLEEP, T_JOIN, T_DONE };
#define NODL UINT64_MAX
#define MAXT 4096
#define STALL_TICKS 50000

typedef struct thr {
  int id, state, timed_out, detached, reaped, creator;
  int baton; /* real futex word */
  int atomic; /* no preemption while > 0 */
  pthread_t pt;
  void *(*fn)(void *);
  void *arg, *rv;
  uint32_t *faddr;
  uint64_t deadline, spurious_at, stall_until, stall_tick;
  struct thr *jtarget;
  uint64_t yields;
  uint64_t lacc, lop, lfq; /* thread-local ticks (accumulated), ops, fault queries */
  uint64_t runnable_since, prio;
  /* script cursors */
  sim_rec *sc[6];
  size_t nsc[6], cur[6];
} thr;

static __thread thr *self __attribute__((tls_model("initial-exec")));
static thr *T[MAXT];
static int nT, alive, maxalive;
static thr *cur_thr;
static volatile int on, host_baton, fatal_status;
static int root_done, cli_mode;
static sim_cfg C;
static sim_report R;
static uint64_t gtick, next_event, idle_ns, switch_in, rng_s[2], ent_s[2], rt_off;
static uint64_t io_ops, wr_ops, disk_used, low_prio;
static uint32_t last_guard;
static sim_rec *logv;
static size_t nlog, caplog;
static uint8_t fdmap[65536];

#define MAXG (1 << 20)
static uint8_t cov_own[MAXG], *cov = cov_own;
static uint32_t nguards;
static uint8_t hits[MAXG]; /* how often an edge was taken in this run, saturating */

/* ---------------------------------------------------------------- generators */
static uint64_t splitmix(uint64_t *x) {
  uint64_t z = (*x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static uint64_t xs(uint64_t s[2]) { /* xoroshiro128+ */
  uint64_t a = s[0], b = s[1], r = a + b;
  b ^= a;
  s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
  s[1] = (b << 37) | (b >> 27);
  return r;
}
static uint64_t rnd(void) { return xs(rng_s); }
static uint64_t below(uint64_t n) { return n ? (uint64_t)(((__uint128_t)rnd() * n) >> 64) : 0; }

static void hash64(uint64_t *h, uint64_t v) {
  *h ^= v;
  *h *= 0x100000001b3ULL;
  *h ^= *h >> 29;
}

/* ---------------------------------------------------------------- small helpers */
static uint64_t now_ns(void) { return C.start_ns + gtick * C.ns_per_tick + idle_ns; }
static uint64_t ltick(thr *s) { return s->lacc + (s == cur_thr ? gtick - switch_in : 0); }

static void bwait(int *b) {
  while (!__atomic_load_n(b, __ATOMIC_ACQUIRE))
    raw6(SYS_futex, (long)b, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  __atomic_store_n(b, 0, __ATOMIC_RELAXED);
}
static void bpost(int *b) {
  __atomic_store_n(b, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)b, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void die(const char *m) {
  raw6(SYS_write, 2, (long)"dst-sim: ", 9, 0, 0, 0);
  raw6(SYS_write, 2, (long)m, (long)strlen(m), 0, 0, 0);
  raw6(SYS_write, 2, (long)"\n", 1, 0, 0, 0);
  raw6(SYS_exit_group, 99, 0, 0, 0, 0, 0);
}
static void record(thr *s, uint32_t cls, uint64_t key, uint64_t val) {
  if (nlog == caplog) {
    if (caplog >= (1u << 22)) return;
    size_t n = caplog ? caplog * 2 : 4096;
    sim_rec *p = realloc(logv, n * sizeof *p);
    if (!p) die("log memory");
    logv = p;
    caplog = n;
  }
  logv[nlog++] = (sim_rec){(uint32_t)s->id, cls, key, val};
}
/* script lookup: keys of one thread and class only grow */
static sim_rec *script_at(thr *s, int cls, uint64_t key) {
  while (s->cur[cls] < s->nsc[cls] && s->sc[cls][s->cur[cls]].key < key) s->cur[cls]++;
  if (s->cur[cls] < s->nsc[cls] && s->sc[cls][s->cur[cls]].key == key) return &s->sc[cls][s->cur[cls]];
  return NULL;
}

static void write_cli_report(int status);

static void fatal(int status) {
  R.status = status;
  if (cli_mode) {
    write_cli_report(status);
    raw6(SYS_exit_group, status == 3 ? 137 : 90 + status, 0, 0, 0, 0, 0);
  }
  fatal_status = status;
  on = 0;
  __atomic_store_n(&host_baton, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&host_baton, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
  for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
}

/* ---------------------------------------------------------------- faults */
/* returns -1 when no fault, else the parameter in [0, maxparam) */
static int64_t fault(int kind, uint64_t maxparam) {
  thr *s = self;
  uint64_t q = ++s->lfq;
  if (C.strategy == 2) {
    sim_rec *r = script_at(s, REC_FAULT, q);
    if (!r || (int)(r->val >> 48) != kind) return -1;
    uint64_t p = r->val & 0xffffffffffffULL;
    if (maxparam && p >= maxparam) p = maxparam - 1;
    R.faults[kind]++;
    record(s, REC_FAULT, q, ((uint64_t)kind << 48) | p);
    return (int64_t)p;
  }
  if (!C.ppm[kind]) return -1;
  if (below(1000000) >= C.ppm[kind]) return -1;
  uint64_t p = below(maxparam ? maxparam : 1) & 0xffffffffffffULL;
  R.faults[kind]++;
  record(s, REC_FAULT, q, ((uint64_t)kind << 48) | p);
  return (int64_t)p;
}

/* ---------------------------------------------------------------- scheduling */
static void plan_next(thr *s, uint64_t mindl, int others) {
  uint64_t e = C.tick_cap;
  if (C.strategy == 2) {
    /* the next scripted preemption or stall of this thread */
    uint64_t lt = ltick(s);
    for (int c = REC_PREEMPT; c <= REC_STALL; c += REC_STALL - REC_PREEMPT) {
      size_t i = s->cur[c];
      while (i < s->nsc[c] && s->sc[c][i].key <= lt) i++;
      s->cur[c] = i;
      if (i < s->nsc[c]) {
        uint64_t t = gtick + (s->sc[c][i].key - lt);
        if (t < e) e = t;
      }
    }
  } else if (C.preempt_mean) {
    uint64_t g;
    /* roughly geometric gap */
    uint64_t u = rnd();
    int lz = 0;
    while (lz < 40 && (u & 1)) { lz++; u >>= 1; }
    /* preempt less often as a run gets long, so that its cost stays bounded */
    uint64_t sh = R.decisions >> 15, mean = (uint64_t)C.preempt_mean << (sh > 12 ? 12 : sh);
    g = 1 + below(mean) + (uint64_t)lz * mean / 2;
    if (gtick + g < e) e = gtick + g;
  }
  if (mindl != NODL) {
    uint64_t n = now_ns(), d = mindl > n ? (mindl - n + C.ns_per_tick - 1) / C.ns_per_tick : 1;
    if (d < 1) d = 1;
    if (gtick + d < e) e = gtick + d;
  }
  if (others && C.strategy != 2 && gtick + C.fair_ticks < e) e = gtick + C.fair_ticks;
  if (others && C.strategy == 2 && gtick + 4 * C.fair_ticks < e) e = gtick + 4 * C.fair_ticks;
  if (C.kill_tick && C.kill_tick > gtick && C.kill_tick < e) e = C.kill_tick;
  if (e <= gtick) e = gtick + 1;
  next_event = e;
}

/* reason: REC_PREEMPT (self stays runnable, keeping it is the default), REC_OP */
static void schedule(thr *s, int reason, int yielding) {
  thr *run[MAXT];
  int n;
  uint64_t mindl, soft;
  s->lacc += gtick - switch_in;
  switch_in = gtick;
  uint64_t lkey = reason == REC_PREEMPT ? s->lacc : ++s->lop;
  R.decisions++;
  for (;;) {
    uint64_t t = now_ns();
    n = 0;
    mindl = soft = NODL;
    for (int i = 0; i < nT; i++) {
      thr *x = T[i];
      if (x->state == T_DONE) continue;
      if (x->state == T_FUTEX || x->state == T_SLEEP) {
        if (x->deadline <= t) { x->timed_out = 1; x->state = T_RUN; x->runnable_since = gtick; x->faddr = NULL; }
        else if (x->spurious_at <= t) { x->timed_out = 0; x->state = T_RUN; x->runnable_since = gtick; x->faddr = NULL; }
        else {
          if (x->deadline < mindl) mindl = x->deadline;
          if (x->spurious_at < mindl) mindl = x->spurious_at;
        }
      }
      if (x->state == T_RUN) {
        /* a stall ends early when the others do (or spin for) very much meanwhile */
        if (x->stall_until <= t || gtick >= x->stall_tick) { x->stall_until = 0; run[n++] = x; }
        else {
          uint64_t e = t + (x->stall_tick - gtick) * C.ns_per_tick;
          if (x->stall_until < mindl) mindl = x->stall_until;
          if (e < soft) soft = e;
        }
      }
    }
    if (n) break;
    if (mindl == NODL) {
      if (alive == 0) return; /* last thread is leaving */
      fatal(1);
    }
    idle_ns += mindl - t;
    R.idle_ns += mindl - t;
  }
  thr *pick = NULL, *dflt = NULL;
  int self_in = 0;
  for (int i = 0; i < n; i++) if (run[i] == s) self_in = 1;
  if (reason == REC_PREEMPT && self_in) dflt = s;
  else { /* default: next runnable thread in cyclic order after self; self last */
    for (int i = 0; i < n; i++) if (run[i]->id > s->id) { dflt = run[i]; break; }
    if (!dflt) dflt = run[0];
    if (dflt == s && n > 1) dflt = run[0] == s ? run[1] : run[0];
    if (!yielding && self_in) dflt = s;
  }
  /* fairness: the longest waiting thread beyond the limit goes first */
  thr *starved = NULL;
  uint64_t lim = C.strategy == 2 ? 4 * C.fair_ticks : C.fair_ticks;
  for (int i = 0; i < n; i++)
    if (run[i] != s && gtick - run[i]->runnable_since >= lim && (!starved || run[i]->runnable_since < starved->runnable_since)) starved = run[i];
  if (n == 1) pick = run[0];
  else if (C.strategy == 2) {
    sim_rec *r = script_at(s, reason, lkey);
    if (r) for (int i = 0; i < n; i++) if ((uint64_t)run[i]->id == r->val) pick = run[i];
    if (!pick) pick = starved ? starved : dflt;
  } else if (starved) pick = starved;
  else if (C.strategy == 1) {
    if (reason == REC_PREEMPT && self_in && rnd() % 4 == 0) s->prio = low_prio--;
    if (yielding) s->prio = low_prio--;
    for (int i = 0; i < n; i++) if (!pick || run[i]->prio > pick->prio) pick = run[i];
  } else {
    if (reason == REC_PREEMPT && self_in && C.p_stay && below(1000000) < C.p_stay) pick = s;
    else if (yielding && n > 1) { do pick = run[below(n)]; while (pick == s); }
    else pick = run[below(n)];
  }
  if (pick != dflt) record(s, (uint32_t)reason, lkey, (uint64_t)pick->id);
  if (n > 1 || pick != s) {
    hash64(&R.hash, gtick);
    hash64(&R.hash, ((uint64_t)s->id << 32) | (uint64_t)pick->id);
  }
  if (pick != s) {
    R.switches++;
    hash64(&R.inter_hash, ((uint64_t)s->id << 44) | ((uint64_t)pick->id << 24) | last_guard);
    if (s->state == T_RUN) s->runnable_since = gtick;
    pick->runnable_since = gtick;
    cur_thr = pick;
    plan_next(pick, soft < mindl ? soft : mindl, n > 1);
    bpost(&pick->baton);
    if (s->state != T_DONE) {
      bwait(&s->baton);
      switch_in = gtick;
    }
  } else {
    cur_thr = s;
    plan_next(s, soft < mindl ? soft : mindl, n > 1);
  }
}

static void slow(thr *s) {
  if (gtick >= C.tick_cap) fatal(2);
  if (C.kill_tick && gtick >= C.kill_tick) { R.faults[F_KILL]++; fatal(3); }
  uint64_t lt = ltick(s);
  if (C.strategy == 2) {
    sim_rec *r = script_at(s, REC_STALL, lt);
    if (r) {
      s->stall_until = now_ns() + r->val;
      s->stall_tick = gtick + STALL_TICKS;
      R.faults[F_STALL]++;
      record(s, REC_STALL, lt, r->val);
    }
  } else if (C.ppm[F_STALL] && below(1000000) < C.ppm[F_STALL]) {
    uint64_t e = below(64), m = C.stall_max_ns;
    while (e-- && m > 1000) m >>= 1; /* log-uniform-ish */
    uint64_t d = 1 + below(m);
    s->stall_until = now_ns() + d;
    s->stall_tick = gtick + STALL_TICKS;
    R.faults[F_STALL]++;
    record(s, REC_STALL, lt, d);
  }
  schedule(s, REC_PREEMPT, 0);
}

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  if (a == b || *a) return;
  for (; a < b; a++) *a = nguards < MAXG - 1 ? ++nguards : MAXG - 1;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  thr *s = self;
  if (!s) return;
  last_guard = *g;
  cov[last_guard] = 1;
  gtick++;
  if (C.rare && hits[last_guard] < C.rare) {
    /* switch more often on edges that were taken rarely so far */
    hits[last_guard]++;
    if (alive > 1 && !s->atomic && below(1000000) < C.rare_ppm) next_event = gtick;
  }
  if (gtick >= next_event && !s->atomic) slow(s);
}
void sim_yield_point(void) { thr *s = self; if (s && ++gtick >= next_event && !s->atomic) slow(s); }
/* no file fault from here on */
void sim_calm(void) {
  for (int k = F_OPEN_ERR; k < F_KINDS; k++) C.ppm[k] = 0;
  C.disk_budget = UINT64_MAX;
  C.kill_io = C.kill_wr = 0;
}
void sim_atomic(int d) { thr *s = self; if (s) s->atomic += d; }
/* the edges hit are collected in memory shared with forked children */
void sim_share_cov(void) {
  void *p = mmap(NULL, MAXG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p != MAP_FAILED) cov = p;
}
uint64_t sim_edges_hit(void) {
  uint64_t e = 0;
  for (uint32_t i = 0; i <= nguards; i++) e += cov[i];
  return e;
}
uint64_t sim_edges_total(void) { return nguards; }

/* ---------------------------------------------------------------- threads */
static thr *new_thr(void) {
  if (nT >= MAXT) die("too many threads");
  thr *t = calloc(1, sizeof *t);
  if (!t) die("thread memory");
  t->id = nT;
  t->creator = self ? self->id : -1;
  T[nT++] = t;
  t->state = T_RUN;
  t->deadline = t->spurious_at = NODL;
  t->runnable_since = gtick;
  t->prio = C.strategy == 1 ? (rnd() >> 1) | (1ULL << 62) : 0;
  alive++;
  if (alive > maxalive) maxalive = alive;
  if (C.nscript) {
    /* the script is sorted by (tid, cls, key) */
    size_t lo = 0, hi = C.nscript;
    while (lo < hi) { size_t m = (lo + hi) / 2; if (C.script[m].tid < (uint32_t)t->id) lo = m + 1; else hi = m; }
    while (lo < C.nscript && C.script[lo].tid == (uint32_t)t->id) {
      uint32_t c = C.script[lo].cls;
      size_t st = lo;
      while (lo < C.nscript && C.script[lo].tid == (uint32_t)t->id && C.script[lo].cls == c) lo++;
      if (c < 6) { t->sc[c] = (sim_rec *)&C.script[st]; t->nsc[c] = lo - st; }
    }
  }
  return t;
}
static void thr_finish(thr *t) {
  t->state = T_DONE;
  alive--;
  for (int i = 0; i < nT; i++)
    if (T[i]->state == T_JOIN && T[i]->jtarget == t) { T[i]->state = T_RUN; T[i]->runnable_since = gtick; T[i]->jtarget = NULL; }
  if (t->id == 0) root_done = 1;
  self = NULL;
  if (alive == 0) {
    on = 0;
    bpost((int *)&host_baton);
    return;
  }
  /* schedule() with a DONE thread hands the baton over and returns */
  schedule(t, REC_OP, 0);
}
/* The thread-local destructors of the program run after the thread function has returned and still
 * belong to the simulated execution: the thread leaves from the destructor of our own pthread key,
 * which glibc calls after them (second round, so that destructors of other keys come first). */
static pthread_key_t fin_key;
static int fin_key_ok;
static void fin_dtor(void *p) {
  thr *t = (thr *)((uintptr_t)p & ~(uintptr_t)1);
  if (!((uintptr_t)p & 1)) { pthread_setspecific(fin_key, (void *)((uintptr_t)t | 1)); return; }
  thr_finish(t);
}
static void *tramp(void *p) {
  thr *t = p;
  bwait(&t->baton);
  self = t;
  switch_in = gtick;
  pthread_setspecific(fin_key, t);
  return t->fn(t->arg);
}

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int (*real_detach)(pthread_t);
static void init_real(void) {
  if (real_create) return;
  if (!fin_key_ok) { if (pthread_key_create(&fin_key, fin_dtor)) die("key"); fin_key_ok = 1; }
  real_join = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join");
  real_detach = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
  real_create = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
}

int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  init_real();
  thr *s = self;
  if (!s) return real_create(out, attr, fn, arg);
  if (fault(F_SPAWN, 1) >= 0) return EAGAIN;
  thr *t = new_thr();
  t->fn = fn;
  t->arg = arg;
  int r = real_create(&t->pt, attr, tramp, t);
  if (r) die("the sandbox refused a thread");
  *out = t->pt;
  R.nthreads++;
  schedule(s, REC_OP, 0);
  return 0;
}
static thr *find_pt(pthread_t p) {
  for (int i = nT - 1; i >= 0; i--) if (!T[i]->reaped && T[i]->pt == p && T[i]->fn) return T[i];
  return NULL;
}
int pthread_join(pthread_t p, void **rv) {
  init_real();
  thr *s = self;
  if (!s) return real_join(p, rv);
  thr *t = find_pt(p);
  if (t) {
    if (t->state != T_DONE) {
      s->state = T_JOIN;
      s->jtarget = t;
      schedule(s, REC_OP, 0);
    }
    t->reaped = 1;
  }
  return real_join(p, rv);
}
int pthread_detach(pthread_t p) {
  init_real();
  if (self) { thr *t = find_pt(p); if (t) t->detached = t->reaped = 1; }
  return real_detach(p);
}

/* ---------------------------------------------------------------- blocking */
static int block_futex(thr *s, uint32_t *addr, uint32_t val, uint64_t dl) {
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
  s->state = T_FUTEX;
  s->faddr = addr;
  s->deadline = dl;
  s->spurious_at = NODL;
  s->timed_out = 0;
  if (C.strategy == 2 || C.ppm[F_SPURIOUS]) {
    int64_t d = fault(F_SPURIOUS, 1u << 20);
    if (d >= 0) s->spurious_at = now_ns() + (uint64_t)d * (d & 1 ? 1 : 1000);
  }
  schedule(s, REC_OP, 0);
  s->faddr = NULL;
  s->deadline = s->spurious_at = NODL;
  if (s->timed_out) { s->timed_out = 0; return -ETIMEDOUT; }
  return 0;
}
static int wake_futex(thr *s, uint32_t *addr, int cnt) {
  int woken = 0;
  while (woken < cnt) {
    thr *w[MAXT];
    int n = 0;
    for (int i = 0; i < nT; i++) if (T[i]->state == T_FUTEX && T[i]->faddr == addr) w[n++] = T[i];
    if (!n) break;
    thr *p = w[0];
    if (n > 1 && cnt < n) {
      uint64_t k = ++s->lop;
      if (C.strategy == 2) {
        sim_rec *r = script_at(s, REC_WAKE, k);
        if (r) for (int i = 0; i < n; i++) if ((uint64_t)w[i]->id == r->val) p = w[i];
      } else p = w[below(n)];
      if (p != w[0]) record(s, REC_WAKE, k, (uint64_t)p->id);
    }
    p->state = T_RUN;
    p->faddr = NULL;
    p->deadline = p->spurious_at = NODL;
    p->timed_out = 0;
    p->runnable_since = gtick;
    woken++;
  }
  if (woken && C.strategy != 2) { /* the woken thread may run soon */
    if (C.preempt_mean && next_event > gtick + 1 + C.preempt_mean) next_event = gtick + 1 + C.preempt_mean;
  }
  if (woken && next_event > gtick + C.fair_ticks) next_event = gtick + C.fair_ticks;
  return woken;
}
static uint64_t ts_ns(const struct timespec *t) { return (uint64_t)t->tv_sec * 1000000000ULL + (uint64_t)t->tv_nsec; }
static uint64_t sat_add(uint64_t a, uint64_t b) { return a + b < a ? NODL - 1 : a + b; }

/* the program's syscall(2) wrapper; the label avoids the prototype in unistd.h */
long dst_syscall(long num, long a, long b, long c, long d, long e, long f) __asm__("syscall");
long dst_syscall(long num, long a, long b, long c, long d, long e, long f) {
  thr *s = self;
  if (!s) return ret(raw6(num, a, b, c, d, e, f));
  if (num == SYS_futex) {
    int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      uint64_t dl = NODL;
      const struct timespec *ts = (const struct timespec *)d;
      if (ts) {
        uint64_t x = ts->tv_sec > 9000000000L ? NODL - 1 : ts_ns(ts);
        if (op == FUTEX_WAIT) dl = sat_add(now_ns(), x);
        else if (b & FUTEX_CLOCK_REALTIME) dl = x > rt_off ? x - rt_off : 0;
        else dl = x;
      }
      return ret(block_futex(s, (uint32_t *)a, (uint32_t)c, dl));
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) return wake_futex(s, (uint32_t *)a, c < 0 ? 1 << 30 : (int)c);
    die("unsupported futex operation");
  }
  if (num == SYS_getrandom) {
    if (self && b > 0) { /* interrupted, or fewer bytes than asked for */
      int64_t k = fault(F_ENTROPY, (uint64_t)b);
      if (k == 0) { errno = EINTR; return -1; }
      if (k > 0) b = (long)k;
    }
    for (long i = 0; i < b; i++) ((uint8_t *)a)[i] = (uint8_t)(xs(ent_s) >> 33);
    return b;
  }
  return ret(raw6(num, a, b, c, d, e, f));
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) { return (ssize_t)dst_syscall(SYS_getrandom, (long)buf, (long)n, (long)fl, 0, 0, 0); }

int sched_yield(void) {
  thr *s = self;
  if (!s) return (int)ret(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
  gtick++;
  s->yields++;
  schedule(s, REC_OP, 1);
  return 0;
}
static void sim_sleep(thr *s, uint64_t dl) {
  s->state = T_SLEEP;
  s->deadline = dl;
  s->spurious_at = NODL;
  schedule(s, REC_OP, 0);
  s->deadline = NODL;
  s->timed_out = 0;
}
int nanosleep(const struct timespec *r, struct timespec *rem) {
  thr *s = self;
  if (!s) return (int)ret(raw6(SYS_nanosleep, (long)r, (long)rem, 0, 0, 0, 0));
  sim_sleep(s, sat_add(now_ns(), ts_ns(r)));
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem) {
  thr *s = self;
  if (!s) return (int)-raw6(SYS_clock_nanosleep, c, fl, (long)r, (long)rem, 0, 0);
  uint64_t x = ts_ns(r);
  if (fl & TIMER_ABSTIME) { if (c == CLOCK_REALTIME) x -= rt_off; }
  else x = sat_add(now_ns(), x);
  sim_sleep(s, x);
  return 0;
}
int usleep(useconds_t u) { struct timespec t = {u / 1000000, (u % 1000000) * 1000}; return nanosleep(&t, NULL); }

int clock_gettime(clockid_t c, struct timespec *t) {
  thr *s = self;
  if (!s) return (int)ret(raw6(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0));
  uint64_t n = now_ns();
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
    if (C.strategy == 2 || C.ppm[F_RTJUMP]) {
      int64_t j = fault(F_RTJUMP, 1u << 20);
      if (j >= 0) rt_off = (uint64_t)1700000000 * 1000000000ULL + ((uint64_t)j - (1u << 19)) * 60000000000ULL;
    }
    n += rt_off;
  }
  t->tv_sec = (time_t)(n / 1000000000ULL);
  t->tv_nsec = (long)(n % 1000000000ULL);
  return 0;
}

/* ---------------------------------------------------------------- processors */
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *m) {
  if (self && C.ncpu) {
    memset(m, 0, n);
    for (uint64_t i = 0; i < C.ncpu && i < 8 * n; i++) ((uint8_t *)m)[i / 8] |= (uint8_t)(1u << (i % 8));
    return 0;
  }
  return ret(raw6(SYS_sched_getaffinity, pid, (long)n, (long)m, 0, 0, 0)) < 0 ? -1 : 0;
}
long sysconf(int name) {
  static long (*real)(int);
  if (self && C.ncpu && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return (long)C.ncpu;
  if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
  return real(name);
}

/* ---------------------------------------------------------------- files */
/* the harness's own file accesses (within Atomic) are left alone */
static int ours(const char *p) { return C.fs_prefix && p && self && !self->atomic && (*p != '/' || !strncmp(p, C.fs_prefix, strlen(C.fs_prefix))); }
static int io_point(void) { /* one file operation: other threads may run before it, crash point */
  thr *s = self;
  if (nT > 1 && !s->atomic) schedule(s, REC_OP, 0);
  io_ops++;
  if (wr_ops) wr_ops++;
  if ((C.kill_io && io_ops == C.kill_io) || (C.kill_wr && wr_ops == C.kill_wr)) { R.faults[F_KILL]++; fatal(3); }
  return io_ops > C.fault_after;
}
static const int read_errs[] = {EIO, EIO, EAGAIN, ETIMEDOUT, ESTALE};
static const int write_errs[] = {EIO, ENOSPC, EDQUOT, EPIPE, EAGAIN, EFBIG, ETIMEDOUT};
static const int open_errs[] = {EACCES, EMFILE, EIO, ENOSPC, ENOENT};

static int do_open(int dfd, const char *p, int fl, int mode) {
  thr *s = self;
  if (s && ours(p)) {
    if (!wr_ops && (fl & (O_WRONLY | O_RDWR))) {
      wr_ops = 1;
      if (C.kill_wr == 1) { R.faults[F_KILL]++; fatal(3); }
    }
    if (io_point()) {
      int64_t k = fault(F_OPEN_ERR, 6);
      if (k >= 0) {
        if (k == 5) errno = EINTR; /* callers retry */
        else errno = open_errs[k];
        return -1;
      }
    }
    int fd = (int)ret(raw6(SYS_openat, dfd, (long)p, fl, mode, 0, 0));
    if (fd >= 0 && fd < 65536) fdmap[fd] = 1;
    return fd;
  }
  return (int)ret(raw6(SYS_openat, dfd, (long)p, fl, mode, 0, 0));
}
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return do_open(d, p, fl, m); }
static int tracked(int fd) { return self && !self->atomic && fd >= 0 && fd < 65536 && fdmap[fd]; }

/* returns number of bytes to transfer, or -errno */
static ssize_t read_len(size_t n) {
  if (!io_point()) return (ssize_t)n;
  if (fault(F_READ_EINTR, 1) >= 0) return -EINTR;
  int64_t e = fault(F_READ_ERR, 5);
  if (e >= 0) return -read_errs[e];
  if (n > 1) { int64_t k = fault(F_READ_SHORT, n - 1); if (k >= 0) return 1 + (ssize_t)k; }
  return (ssize_t)n;
}
static ssize_t write_len(size_t n) {
  int ok = io_point();
  if (ok) {
    if (fault(F_WRITE_EINTR, 1) >= 0) return -EINTR;
    int64_t k = fault(F_WRITE_ERR, 7);
    if (k >= 0) return -write_errs[k];
    if (n > 1) { k = fault(F_WRITE_SHORT, n - 1); if (k >= 0) n = 1 + (size_t)k; }
  }
  if (C.disk_budget != UINT64_MAX && n) {
    uint64_t left = C.disk_budget > disk_used ? C.disk_budget - disk_used : 0;
    if (!left) { R.faults[F_DISK_FULL]++; return -ENOSPC; }
    if (n > left) n = left;
    disk_used += n;
  }
  return (ssize_t)n;
}
ssize_t read(int fd, void *b, size_t n) {
  if (tracked(fd)) { ssize_t k = read_len(n); if (k < 0) return ret(k); n = (size_t)k; }
  return ret(raw6(SYS_read, fd, (long)b, (long)n, 0, 0, 0));
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
  if (tracked(fd)) { ssize_t k = read_len(n); if (k < 0) return ret(k); n = (size_t)k; }
  return ret(raw6(SYS_pread64, fd, (long)b, (long)n, o, 0, 0));
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (tracked(fd)) { for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len); return 0; }
  return ret(raw6(SYS_readv, fd, (long)v, c, 0, 0, 0));
}
ssize_t write(int fd, const void *b, size_t n) {
  if (tracked(fd)) {
    ssize_t k = write_len(n);
    if (k < 0) return ret(k);
    n = (size_t)k;
  } else if (self && fd == 1 && cli_mode) {
    if (fault(F_STDOUT_ERR, 1) >= 0) { errno = EPIPE; return -1; }
  }
  return ret(raw6(SYS_write, fd, (long)b, (long)n, 0, 0, 0));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
  if (tracked(fd)) { ssize_t k = write_len(n); if (k < 0) return ret(k); n = (size_t)k; }
  return ret(raw6(SYS_pwrite64, fd, (long)b, (long)n, o, 0, 0));
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (tracked(fd)) { for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len); return 0; }
  return ret(raw6(SYS_writev, fd, (long)v, c, 0, 0, 0));
}
int close(int fd) {
  if (tracked(fd)) { io_point(); }
  if (fd >= 0 && fd < 65536) fdmap[fd] = 0;
  return (int)ret(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
}
static int misc(int isours) { return self && isours && io_point() && fault(F_MISC_ERR, 1) >= 0; }
int mkdir(const char *p, mode_t m) {
  if (self && ours(p) && io_point() ) {
    int64_t k = fault(F_MKDIR_ERR, 2);
    if (k >= 0) { errno = k ? ENOSPC : EACCES; return -1; }
  }
  return (int)ret(raw6(SYS_mkdir, (long)p, m, 0, 0, 0, 0));
}
int rename(const char *a, const char *b) {
  if (misc(ours(b))) { errno = EIO; return -1; }
  return (int)ret(raw6(SYS_rename, (long)a, (long)b, 0, 0, 0, 0));
}
int unlink(const char *a) {
  if (misc(ours(a))) { errno = EIO; return -1; }
  return (int)ret(raw6(SYS_unlink, (long)a, 0, 0, 0, 0, 0));
}
int fsync(int fd) {
  if (misc(tracked(fd))) { errno = EIO; return -1; }
  return (int)ret(raw6(SYS_fsync, fd, 0, 0, 0, 0, 0));
}
int fdatasync(int fd) {
  if (misc(tracked(fd))) { errno = EIO; return -1; }
  return (int)ret(raw6(SYS_fdatasync, fd, 0, 0, 0, 0, 0));
}
int ftruncate64(int fd, off_t l) {
  if (misc(tracked(fd))) { errno = EIO; return -1; }
  return (int)ret(raw6(SYS_ftruncate, fd, l, 0, 0, 0, 0));
}

/* ---------------------------------------------------------------- runs */
static void reset(const sim_cfg *cfg) {
  for (int i = 0; i < nT; i++) { free(T[i]); T[i] = NULL; }
  nT = alive = maxalive = root_done = 0;
  C = *cfg;
  if (!C.ns_per_tick) C.ns_per_tick = 1;
  if (!C.fair_ticks) C.fair_ticks = 100000;
  memset(&R, 0, sizeof R);
  R.hash = R.inter_hash = 0xcbf29ce484222325ULL;
  gtick = idle_ns = switch_in = io_ops = wr_ops = disk_used = 0;
  low_prio = 1ULL << 61;
  last_guard = 0;
  if (C.strategy == 2) C.rare = 0;
  if (C.rare) memset(hits, 0, nguards + 1);
  nlog = 0;
  uint64_t x = cfg->seed;
  rng_s[0] = splitmix(&x);
  rng_s[1] = splitmix(&x) | 1;
  x = cfg->entropy_seed ^ 0x5851f42d4c957f2dULL;
  ent_s[0] = splitmix(&x);
  ent_s[1] = splitmix(&x) | 1;
  rt_off = (uint64_t)1700000000 * 1000000000ULL;
  memset(fdmap, 0, sizeof fdmap);
  host_baton = 0;
  fatal_status = 0;
}
struct rootarg { void (*fn)(void *); void *arg; };
static void *rootfn(void *p) { struct rootarg *r = p; r->fn(r->arg); return NULL; }

static void finish_report(void) {
  R.ticks = gtick;
  R.workers = 0;
  for (int i = 1; i < nT; i++) R.workers += ltick(T[i]) > 1000 * T[i]->yields + 100000;
  R.clock_ns = now_ns() - C.start_ns;
  R.max_alive = (uint64_t)maxalive;
  R.io_ops = io_ops;
  R.wr_ops = wr_ops;
  R.root_done = root_done;
  R.edges = cli_mode ? sim_edges_hit() : 0;
}
void sim_run(const sim_cfg *cfg, void (*fn)(void *), void *arg, sim_report *rep) {
  init_real();
  reset(cfg);
  struct rootarg ra = {fn, arg};
  thr *t = new_thr();
  t->fn = rootfn;
  t->arg = &ra;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 16u << 20);
  cur_thr = t;
  if (real_create(&t->pt, &at, tramp, t)) die("cannot start the root thread");
  pthread_attr_destroy(&at);
  pthread_t pt = t->pt;
  t->reaped = 1;
  on = 1;
  plan_next(t, NODL, 0);
  bpost(&t->baton);
  bwait((int *)&host_baton);
  finish_report();
  if (!fatal_status) real_join(pt, NULL);
  *rep = R;
}
size_t sim_log(const sim_rec **out) { *out = logv; return nlog; }
uint64_t sim_now(void) { return self ? now_ns() : 0; }
uint64_t sim_ticks(void) { return gtick; }
uint64_t sim_thread_ticks(int tid) { return tid >= 0 && tid < nT ? ltick(T[tid]) : 0; }
uint64_t sim_thread_yields(int tid) { return tid >= 0 && tid < nT ? T[tid]->yields : 0; }
/* threads with lo < id <= hi that `creator` started and that have not ended */
uint64_t sim_unfinished(int creator, uint64_t lo, uint64_t hi) {
  uint64_t n = 0;
  for (int i = 0; i < nT; i++)
    if ((uint64_t)i > lo && (uint64_t)i <= hi && T[i]->creator == creator && T[i]->state != T_DONE) n++;
  return n;
}
int sim_tid(void) { return self ? self->id : -1; }
uint64_t sim_threads_created(void) { return R.nthreads; }
uint64_t sim_alive(void) { return (uint64_t)alive; }
uint64_t sim_faults_fired(int k) { return R.faults[k]; }

/* ---------------------------------------------------------------- whole-process mode */
/* DST_CFG names a file with the configuration: the process's own main thread becomes thread 0 */
static char cfg_prefix[4096], out_path[4096];
static sim_rec *cli_script;

static void write_cli_report(int status) {
  if (!out_path[0]) return;
  R.status = status;
  finish_report();
  int fd = (int)raw6(SYS_openat, AT_FDCWD, (long)out_path, O_CREAT | O_TRUNC | O_WRONLY, 0644, 0, 0);
  if (fd < 0) return;
  static char buf[1 << 16];
  int n = snprintf(buf, sizeof buf,
    "status %d\nroot_done %d\nticks %lu\nclock_ns %lu\nidle_ns %lu\nswitches %lu\ndecisions %lu\nhash %lu\ninter_hash %lu\n"
    "nthreads %lu\nmax_alive %lu\nio_ops %lu\nedges %lu\nwr_ops %lu\n",
    status, root_done, R.ticks, R.clock_ns, R.idle_ns, R.switches, R.decisions, R.hash, R.inter_hash, R.nthreads, R.max_alive, R.io_ops, R.edges, R.wr_ops);
  n += snprintf(buf + n, sizeof buf - (size_t)n, "workers %lu\n", R.workers);
  for (int i = 0; i < F_KINDS; i++) n += snprintf(buf + n, sizeof buf - (size_t)n, "fault %d %lu\n", i, R.faults[i]);
  raw6(SYS_write, fd, (long)buf, n, 0, 0, 0);
  n = 0;
  for (size_t i = 0; i < nlog; i++) {
    n += snprintf(buf + n, sizeof buf - (size_t)n, "rec %u %u %lu %lu\n", logv[i].tid, logv[i].cls, logv[i].key, logv[i].val);
    if (n > (int)sizeof buf - 200) { raw6(SYS_write, fd, (long)buf, n, 0, 0, 0); n = 0; }
  }
  if (n) raw6(SYS_write, fd, (long)buf, n, 0, 0, 0);
  raw6(SYS_close, fd, 0, 0, 0, 0, 0);
}
__attribute__((destructor)) static void cli_fini(void) {
  if (cli_mode && self) {
    self = NULL;
    write_cli_report(0);
  }
}
__attribute__((constructor)) static void cli_init(void) {
  const char *p = getenv("DST_CFG");
  if (!p) return;
  /* the global futex hash, as in exec.rs; newer kernels free the memory of the process late otherwise */
  raw6(SYS_prctl, 78, 1, 0, 0, 0, 0);
  FILE *f = fopen(p, "r");
  if (!f) die("cannot read DST_CFG");
  sim_cfg c;
  memset(&c, 0, sizeof c);
  c.disk_budget = UINT64_MAX;
  char k[64], v[4096];
  size_t ns = 0, cs = 0;
  while (fscanf(f, "%63s", k) == 1) {
    if (!strcmp(k, "rec")) {
      sim_rec r;
      if (fscanf(f, "%u %u %lu %lu", &r.tid, &r.cls, &r.key, &r.val) != 4) die("bad rec");
      if (ns == cs) { cs = cs ? cs * 2 : 256; cli_script = realloc(cli_script, cs * sizeof r); }
      cli_script[ns++] = r;
      continue;
    }
    if (!strcmp(k, "ppm")) {
      unsigned i, x;
      if (fscanf(f, "%u %u", &i, &x) != 2 || i >= F_KINDS) die("bad ppm");
      c.ppm[i] = x;
      continue;
    }
    if (fscanf(f, "%4095s", v) != 1) die("bad config");
    uint64_t n = strtoull(v, NULL, 10);
    if (!strcmp(k, "seed")) c.seed = n;
    else if (!strcmp(k, "entropy_seed")) c.entropy_seed = n;
    else if (!strcmp(k, "strategy")) c.strategy = (uint32_t)n;
    else if (!strcmp(k, "preempt_mean")) c.preempt_mean = (uint32_t)n;
    else if (!strcmp(k, "ns_per_tick")) c.ns_per_tick = (uint32_t)n;
    else if (!strcmp(k, "p_stay")) c.p_stay = (uint32_t)n;
    else if (!strcmp(k, "rare")) c.rare = (uint32_t)n;
    else if (!strcmp(k, "rare_ppm")) c.rare_ppm = (uint32_t)n;
    else if (!strcmp(k, "tick_cap")) c.tick_cap = n;
    else if (!strcmp(k, "fair_ticks")) c.fair_ticks = n;
    else if (!strcmp(k, "stall_max_ns")) c.stall_max_ns = n;
    else if (!strcmp(k, "disk_budget")) c.disk_budget = n;
    else if (!strcmp(k, "kill_io")) c.kill_io = n;
    else if (!strcmp(k, "kill_wr")) c.kill_wr = n;
    else if (!strcmp(k, "kill_tick")) c.kill_tick = n;
    else if (!strcmp(k, "fault_after")) c.fault_after = (uint32_t)n;
    else if (!strcmp(k, "start_ns")) c.start_ns = n;
    else if (!strcmp(k, "ncpu")) c.ncpu = n;
    else if (!strcmp(k, "fs_prefix")) { strcpy(cfg_prefix, v); c.fs_prefix = cfg_prefix; }
    else if (!strcmp(k, "out")) strcpy(out_path, v);
    else die("unknown config key");
  }
  fclose(f);
  c.script = cli_script;
  c.nscript = ns;
  init_real();
  reset(&c);
  cli_mode = 1;
  thr *t = new_thr();
  t->pt = pthread_self();
  cur_thr = t;
  switch_in = 0;
  self = t;
  on = 1;
  plan_next(t, NODL, 0);
}
