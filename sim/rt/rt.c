/* C half of the simulator runtime.
 *
 * Seams owned here:
 *   - OS entropy: getrandom(2) through libc `getrandom` and `syscall`.
 *   - Clocks: every simulated process has its own, skewed, which leap forwards and,
 *     the wall clock, backwards from one reading to the next; sleeping only moves them.
 *   - Thread scheduling: one simulated thread runs at a time (a baton); which one
 *     is decided by a seeded scheduler (or by an explicit replay list) at yield
 *     points: memory accesses and atomics (ThreadSanitizer instrumentation calls),
 *     allocations, caller-RNG draws, iterator steps, futex waits, sched_yield.
 *   - Futexes: FUTEX_WAIT/WAKE of simulated threads are scheduler events.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <ucontext.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

/* ---------- raw system calls (never through the interposed symbols) -------- */
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}

/* ---------- entropy ------------------------------------------------------- */
static __thread uint64_t ent_state;
static __thread int ent_on;
static __thread uint64_t ent_calls;
static __thread int ent_fault; /* fail the next n calls with EINTR / short reads */

static uint64_t splitmix(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static __thread uint64_t clk_rng, clk_mono, clk_wall, clk_reads;
void sim_entropy_seed(uint64_t seed) {
  ent_state = seed; ent_on = 1; ent_calls = 0; ent_fault = 0;
  clk_rng = seed ^ 0xC10Cull; clk_reads = 0;
  clk_mono = splitmix(&clk_rng) >> 12;                                            /* up to 52 days of uptime */
  clk_wall = 1500000000ull * 1000000000ull + (splitmix(&clk_rng) >> 4); /* 2017 to 2053 */
}
uint64_t sim_clock_reads(void) { return clk_reads; }
void sim_entropy_off(void) { ent_on = 0; }
uint64_t sim_entropy_calls(void) { return ent_calls; }
void sim_entropy_fault(int n) { ent_fault = n; }

static ssize_t sim_getrandom(void *buf, size_t len) {
  ent_calls++;
  if (ent_fault > 0) {
    ent_fault--;
    if (ent_fault & 1 || len < 2) { errno = EINTR; return -1; }
    len = len / 2; /* short read */
  }
  unsigned char *p = buf;
  size_t i = 0;
  while (i < len) {
    uint64_t r = splitmix(&ent_state);
    for (int k = 0; k < 8 && i < len; k++, i++) p[i] = (unsigned char)(r >> (8 * k));
  }
  return (ssize_t)len;
}

ssize_t getrandom(void *buf, size_t len, unsigned flags) {
  if (ent_on) return sim_getrandom(buf, len);
  long r = raw_syscall(SYS_getrandom, (long)buf, (long)len, flags, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}

int getentropy(void *buf, size_t len) {
  unsigned char *p = buf;
  while (len) {
    ssize_t r = getrandom(p, len, 0);
    if (r < 0) { if (errno == EINTR) continue; return -1; }
    p += r; len -= (size_t)r;
  }
  return 0;
}

/* ---------- clocks --------------------------------------------------------- */
static int real_time(long n, long a, long b) {
  long r = raw_syscall(n, a, b, 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!ent_on) return real_time(SYS_clock_gettime, c, (long)t);
  clk_reads++;
  uint64_t d = splitmix(&clk_rng);
  uint64_t step = (d & 15) == 0 ? d >> 24 : (d >> 8) % 1000000; /* up to 18 minutes, or within a millisecond */
  clk_mono += step;
  if ((d & 0xF0) == 0) clk_wall -= step; else clk_wall += step;
  uint64_t v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? clk_wall : clk_mono;
  t->tv_sec = (time_t)(v / 1000000000ull); t->tv_nsec = (long)(v % 1000000000ull);
  return 0;
}
int nanosleep(const struct timespec *t, struct timespec *rem) {
  if (!ent_on) return real_time(SYS_nanosleep, (long)t, (long)rem);
  clk_mono += (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; clk_wall += (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec;
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *t, struct timespec *rem) {
  if (!ent_on) return (int)-raw_syscall(SYS_clock_nanosleep, c, flags, (long)t, (long)rem, 0, 0);
  if (!(flags & TIMER_ABSTIME)) return nanosleep(t, rem);
  uint64_t v = (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec, *k = c == CLOCK_REALTIME ? &clk_wall : &clk_mono;
  if (*k < v) *k = v;
  return 0;
}

/* ---------- scheduler ------------------------------------------------------ */
#define MAXT 16
enum { ST_NONE, ST_READY, ST_BLOCKED, ST_DONE };
enum { K_MEM = 0, K_ATOMIC = 1, K_ALLOC = 2, K_RNG = 3, K_USER = 4, K_FUTEX = 5, K_SCHED = 6, K_SHARED = 7, K_NKINDS = 8 };

typedef struct { uint64_t at; uint32_t kind; uint32_t to; } preempt_t;

static struct {
  int on;
  int n;
  int cur;
  int state[MAXT];
  const void *waddr[MAXT];
  int timed[MAXT];
  int timedout[MAXT];
  uint32_t baton[MAXT]; /* futex word: 1 = may run */
  uint64_t counter;     /* yield points passed */
  uint64_t next;        /* next preemption */
  uint64_t rng;
  uint32_t gap;         /* mean gap between preemptions */
  uint32_t pct[K_NKINDS]; /* extra switch probability per kind, /65536 */
  uint64_t limit;       /* step bound */
  int overrun;
  int deadlock;
  uint64_t hash;
  uint64_t kinds[K_NKINDS];
  uint64_t switches;
  preempt_t *log; size_t nlog, caplog;
  const preempt_t *rep; size_t nrep, irep; int replay;
  uint64_t futex_waits, futex_wakes;
} S;

static __thread int me = -1;      /* simulated thread id or -1 */
static __thread int in_rt;        /* inside the runtime */
static __thread int quiet;        /* yields suppressed (harness code) */

static void fwait(uint32_t *w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
    raw_syscall(SYS_futex, (long)w, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void fpost(uint32_t *w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  raw_syscall(SYS_futex, (long)w, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}

static uint64_t draw_gap(void) {
  /* mostly uniform on [1, 2*gap]; a third of the time a tight burst */
  uint64_t b = splitmix(&S.rng) % 6;
  if (b == 0) return 1 + splitmix(&S.rng) % 4;
  if (b == 1) return 1 + splitmix(&S.rng) % 64;
  return 1 + splitmix(&S.rng) % (2ull * S.gap);
}

static int nth_ready(int k) {
  for (int i = 0; i < S.n; i++) if (S.state[i] == ST_READY && k-- == 0) return i;
  return -1;
}
static int count_ready(void) {
  int c = 0;
  for (int i = 0; i < S.n; i++) c += S.state[i] == ST_READY;
  return c;
}

static void record(uint32_t kind, int to) {
  S.hash = (S.hash ^ (S.counter * 31 + (uint64_t)to * 7 + kind)) * 0x100000001b3ull;
  S.switches++;
  if (S.nlog < S.caplog) { S.log[S.nlog].at = S.counter; S.log[S.nlog].kind = kind; S.log[S.nlog].to = (uint32_t)to; }
  S.nlog++;
}

/* Hand the baton to `to` and wait for it to come back (unless done). */
static void handover(int to, int wait_back) {
  int self = me;
  if (to == self) return;
  S.cur = to;
  fpost(&S.baton[to]);
  if (wait_back) fwait(&S.baton[self]);
}

static void forced_switch(int wait_back) {
  /* current thread cannot continue: pick another one */
  int c = count_ready();
  if (c == 0) {
    int alldone = 1;
    for (int i = 0; i < S.n; i++) if (S.state[i] != ST_DONE) alldone = 0;
    if (!alldone)
      for (int i = 0; i < S.n; i++)
        if (S.state[i] == ST_BLOCKED && S.timed[i]) {
          /* nothing else can run: simulated time jumps to this timeout */
          S.state[i] = ST_READY; S.waddr[i] = NULL; S.timedout[i] = 1; alldone = 1;
          record(K_SCHED, i);
          handover(i, wait_back);
          return;
        }
    if (!alldone) {
      /* deadlock: nothing can ever run again */
      S.deadlock = 1;
      fprintf(stderr, "SIM-DEADLOCK\n");
      fflush(stderr);
      _exit(97);
    }
    return;
  }
  int to = S.replay ? nth_ready(0) : nth_ready((int)(splitmix(&S.rng) % (uint64_t)c));
  /* A forced switch is re-derived in replay only if recorded: record it. */
  if (S.replay) {
    while (S.irep < S.nrep && S.rep[S.irep].at < S.counter) S.irep++;
    if (S.irep < S.nrep && S.rep[S.irep].at == S.counter && S.state[S.rep[S.irep].to] == ST_READY) { to = (int)S.rep[S.irep].to; S.irep++; }
  }
  record(K_FUTEX, to);
  handover(to, wait_back);
}

void sim_yield(int kind) {
  if (me < 0 || in_rt || quiet || !S.on) return;
  in_rt = 1;
  S.counter++;
  S.kinds[kind]++;
  if (S.counter > S.limit) {
    S.overrun = 1;
    fprintf(stderr, "SIM-NO-PROGRESS after %llu steps\n", (unsigned long long)S.counter);
    fflush(stderr);
    _exit(98);
  }
  int sw = 0, to = -1;
  if (S.replay) {
    while (S.irep < S.nrep && S.rep[S.irep].at < S.counter) S.irep++;
    if (S.irep < S.nrep && S.rep[S.irep].at == S.counter) {
      to = (int)S.rep[S.irep].to; S.irep++;
      sw = to < S.n && S.state[to] == ST_READY && to != me;
    }
  } else {
    if (S.counter >= S.next) { sw = 1; S.next = S.counter + draw_gap(); }
    else if (S.pct[kind] && (splitmix(&S.rng) & 0xffff) < S.pct[kind]) sw = 1;
    if (sw) {
      int c = count_ready();
      to = nth_ready((int)(splitmix(&S.rng) % (uint64_t)c));
      sw = to != me;
    }
  }
  if (sw) { record((uint32_t)kind, to); handover(to, 1); }
  in_rt = 0;
}

/* A thread that spins (sched_yield / spin loop) must let others run. */
static void sim_spin(void) {
  if (me < 0 || in_rt || quiet || !S.on) return;
  in_rt = 1;
  S.counter++; S.kinds[K_SCHED]++;
  if (S.counter > S.limit) { fprintf(stderr, "SIM-NO-PROGRESS\n"); _exit(98); }
  int c = count_ready();
  if (c > 1) {
    int k = (int)(splitmix(&S.rng) % (uint64_t)c);
    int to = nth_ready(k);
    if (to == me) to = nth_ready((k + 1) % c);
    if (S.replay && S.irep < S.nrep && S.rep[S.irep].at == S.counter && S.state[S.rep[S.irep].to] == ST_READY) to = (int)S.rep[S.irep++].to;
    record(K_SCHED, to);
    handover(to, 1);
  }
  in_rt = 0;
}

int sched_yield(void) {
  if (me >= 0 && S.on && !in_rt) { sim_spin(); return 0; }
  return (int)raw_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}

void sim_sched_start(int n, uint64_t seed, uint32_t gap, const uint32_t *pct, uint64_t limit,
                     const preempt_t *rep, size_t nrep, int replay) {
  preempt_t *log = S.log;
  memset(&S, 0, sizeof S);
  S.log = log; S.caplog = 1 << 16;
  if (!S.log) S.log = malloc(S.caplog * sizeof(preempt_t));
  S.n = n; S.rng = seed; S.gap = gap ? gap : 1; S.limit = limit; S.hash = 0xcbf29ce484222325ull;
  for (int i = 0; i < K_NKINDS; i++) S.pct[i] = pct ? pct[i] : 0;
  for (int i = 0; i < n; i++) S.state[i] = ST_READY;
  S.rep = rep; S.nrep = nrep; S.replay = replay;
  S.next = draw_gap();
  S.on = 1;
}
/* called by the main thread once all threads are spawned */
void sim_sched_go(void) { int to = (S.replay || S.n == 1) ? 0 : (int)(splitmix(&S.rng) % (uint64_t)S.n);
  if (S.replay && S.nrep && S.rep[0].at == 0) { to = (int)S.rep[0].to; S.irep = 1; }
  record(K_USER, to); S.cur = to; fpost(&S.baton[to]); }
void sim_thread_enter(int id) { in_rt = 1; me = id; quiet = 0; fwait(&S.baton[id]); in_rt = 0; }
void sim_thread_leave(void) {
  in_rt = 1;
  S.state[me] = ST_DONE;
  forced_switch(0);
  me = -1;
  in_rt = 0;
}
void sim_quiet(int on) { quiet += on ? 1 : -1; }
void sim_sched_stop(void) { S.on = 0; }
uint64_t sim_sched_counter(void) { return S.counter; }
uint64_t sim_sched_hash(void) { return S.hash; }
uint64_t sim_sched_switches(void) { return S.switches; }
uint64_t sim_sched_kind(int k) { return S.kinds[k]; }
uint64_t sim_sched_futex(int w) { return w ? S.futex_wakes : S.futex_waits; }
size_t sim_sched_log(const preempt_t **p) { *p = S.log; return S.nlog < S.caplog ? S.nlog : S.caplog; }
int sim_in_sched(void) { return me >= 0 && S.on; }

static long sim_futex(uint32_t *addr, int op, uint32_t val, const void *timeout) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    in_rt = 1;
    S.counter++; S.kinds[K_FUTEX]++; S.futex_waits++;
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { in_rt = 0; errno = EAGAIN; return -1; }
    S.state[me] = ST_BLOCKED; S.waddr[me] = addr; S.timed[me] = timeout != NULL; S.timedout[me] = 0;
    forced_switch(1);
    int to = S.timedout[me];
    in_rt = 0;
    if (to) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    in_rt = 1;
    S.counter++; S.kinds[K_FUTEX]++; S.futex_wakes++;
    long w = 0;
    for (int i = 0; i < S.n && w < (long)val; i++)
      if (S.state[i] == ST_BLOCKED && S.waddr[i] == addr) { S.state[i] = ST_READY; S.waddr[i] = NULL; w++; }
    in_rt = 0;
    sim_yield(K_SCHED);
    return w;
  }
  return -2;
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
       e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_getrandom && ent_on) return sim_getrandom((void *)a, (size_t)b);
  if (n == SYS_futex && me >= 0 && S.on && !in_rt) {
    long r = sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const void *)d);
    if (r != -2) return r;
  }
  long r = raw_syscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

/* ---------- ThreadSanitizer instrumentation entry points ------------------- */
int sim_tsan_on;
void __tsan_init(void) { sim_tsan_on = 1; }
#define Y(k) do { if (__builtin_expect(me >= 0, 0)) sim_yield(k); } while (0)
/* Mutable statics and plain atomic loads and stores (reference counts are
   read-modify-write) are where threads of this program can meet: a kind of
   their own, so that the scheduler can favour them over millions of accesses
   to private memory. */
extern char __data_start[], _end[];
#define STATIC(p) ((const volatile char *)(p) >= (const volatile char *)__data_start && (const volatile char *)(p) < (const volatile char *)_end)
#define MEMFN(name) void name(void *p) { Y(STATIC(p) ? K_SHARED : K_MEM); }
MEMFN(__tsan_read1) MEMFN(__tsan_read2) MEMFN(__tsan_read4) MEMFN(__tsan_read8) MEMFN(__tsan_read16)
MEMFN(__tsan_write1) MEMFN(__tsan_write2) MEMFN(__tsan_write4) MEMFN(__tsan_write8) MEMFN(__tsan_write16)
MEMFN(__tsan_unaligned_read2) MEMFN(__tsan_unaligned_read4) MEMFN(__tsan_unaligned_read8) MEMFN(__tsan_unaligned_read16)
MEMFN(__tsan_unaligned_write2) MEMFN(__tsan_unaligned_write4) MEMFN(__tsan_unaligned_write8) MEMFN(__tsan_unaligned_write16)
MEMFN(__tsan_volatile_read1) MEMFN(__tsan_volatile_read2) MEMFN(__tsan_volatile_read4) MEMFN(__tsan_volatile_read8) MEMFN(__tsan_volatile_read16)
MEMFN(__tsan_volatile_write1) MEMFN(__tsan_volatile_write2) MEMFN(__tsan_volatile_write4) MEMFN(__tsan_volatile_write8) MEMFN(__tsan_volatile_write16)
MEMFN(__tsan_unaligned_volatile_read2) MEMFN(__tsan_unaligned_volatile_read4) MEMFN(__tsan_unaligned_volatile_read8) MEMFN(__tsan_unaligned_volatile_read16)
MEMFN(__tsan_unaligned_volatile_write2) MEMFN(__tsan_unaligned_volatile_write4) MEMFN(__tsan_unaligned_volatile_write8) MEMFN(__tsan_unaligned_volatile_write16)
MEMFN(__tsan_read_write1) MEMFN(__tsan_read_write2) MEMFN(__tsan_read_write4) MEMFN(__tsan_read_write8) MEMFN(__tsan_read_write16)
MEMFN(__tsan_unaligned_read_write2) MEMFN(__tsan_unaligned_read_write4) MEMFN(__tsan_unaligned_read_write8) MEMFN(__tsan_unaligned_read_write16)
MEMFN(__tsan_vptr_read)
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; Y(K_MEM); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_read_range(void *p, unsigned long n) { (void)p; (void)n; Y(K_MEM); }
void __tsan_write_range(void *p, unsigned long n) { (void)p; (void)n; Y(K_MEM); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { Y(K_MEM); memcpy(d, s, n); Y(K_MEM); return d; }
void *__tsan_memmove(void *d, const void *s, size_t n) { Y(K_MEM); memmove(d, s, n); Y(K_MEM); return d; }
void *__tsan_memset(void *d, int c, size_t n) { Y(K_MEM); memset(d, c, n); Y(K_MEM); return d; }

#define ATOMICS(B, T)                                                                                         \
  T __tsan_atomic##B##_load(const volatile T *a, int mo) { (void)mo; Y(K_SHARED); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { (void)mo; Y(K_SHARED); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) { (void)mo; Y(K_SHARED); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int mo) { (void)mo; Y(STATIC(a) ? K_SHARED : K_ATOMIC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; Y(STATIC(a) ? K_SHARED : K_ATOMIC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int mo) { (void)mo; Y(STATIC(a) ? K_SHARED : K_ATOMIC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int mo) { (void)mo; Y(STATIC(a) ? K_SHARED : K_ATOMIC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int mo) { (void)mo; Y(STATIC(a) ? K_SHARED : K_ATOMIC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int mo) { (void)mo; Y(STATIC(a) ? K_SHARED : K_ATOMIC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) {                 \
    (void)mo; (void)fmo; Y(K_SHARED); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) {                   \
    (void)mo; (void)fmo; Y(K_SHARED); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) {                       \
    (void)mo; (void)fmo; Y(K_SHARED); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; Y(K_ATOMIC); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---------------------------------------------------------------- control flow
 * Basic-block edges and memory accesses of instrumented code (build "traced"). */
static __thread struct { int on; uint64_t edges, flow, accs, addr; uint64_t *buf; size_t cap, len; } cov;
static uint32_t *cov_base;
int sim_cov_present(void) { return cov_base != 0; }
static void cov_push(uint64_t a, uint64_t b) { if (cov.buf && cov.len + 2 <= cov.cap) { cov.buf[cov.len++] = a; cov.buf[cov.len++] = b; } }
/* Without instrumentation, the processor's trap flag: every instruction of an
 * armed call is an event. `stepping` is 0 while our own code runs. */
static __thread int step_on;
#define TF(ins) __asm__ volatile("lea -128(%%rsp),%%rsp\n\tpushfq\n\t" ins " (%%rsp)\n\tpopfq\n\tlea 128(%%rsp),%%rsp" ::: "memory", "cc")
static void on_trap(int s, siginfo_t *i, void *u) {
	(void)s; (void)i;
	greg_t *r = ((ucontext_t *)u)->uc_mcontext.gregs;
	if (!step_on) { r[REG_EFL] &= ~0x100; return; }
	/* the same in every process: an offset into the program, or into a page of a library */
	extern char __executable_start[], etext[];
	uint64_t pc = r[REG_RIP], at = pc >= (uint64_t)__executable_start && pc < (uint64_t)etext ? pc - (uint64_t)__executable_start : pc & 4095;
	cov.edges++;
	cov.flow = (cov.flow ^ at) * 0x9E3779B97F4A7C15ull; cov.flow ^= cov.flow >> 29;
	cov_push(pc, 0);
}
int sim_step_pause(void) { int x = step_on; if (x) { step_on = 0; TF("andq $~0x100,"); } return x; }
void sim_step_resume(int x) { if (x) { step_on = 1; TF("orq $0x100,"); } }
void sim_cov_arm(uint64_t *buf, size_t cap) {
	cov.edges = cov.accs = 0; cov.flow = cov.addr = 0xcbf29ce484222325ull;
	cov.buf = buf; cov.cap = cap; cov.len = 0;
	if (cov_base) { cov.on = 1; return; }
	struct sigaction a;
	memset(&a, 0, sizeof a);
	a.sa_sigaction = on_trap; a.sa_flags = SA_SIGINFO;
	sigaction(SIGTRAP, &a, 0);
	sim_step_resume(1);
}
size_t sim_cov_disarm(uint64_t out[4]) {
	sim_step_pause();
	cov.on = 0; out[0] = cov.edges; out[1] = cov.flow; out[2] = cov.accs; out[3] = cov.addr;
	return cov.len;
}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)b; if (!cov_base || a < cov_base) cov_base = a; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
	if (!cov.on) return;
	cov.edges++;
	cov.flow = (cov.flow ^ (uint64_t)(g - cov_base)) * 0x9E3779B97F4A7C15ull; cov.flow ^= cov.flow >> 29;
	cov_push((uint64_t)__builtin_return_address(0), 0);
}
static void cov_mem(void *p) {
	if (!cov.on) return;
	cov.accs++;
	cov.addr = (cov.addr ^ (uint64_t)p) * 0x9E3779B97F4A7C15ull; cov.addr ^= cov.addr >> 29;
}
#define L(n) void __sanitizer_cov_load##n(void *p) { if (cov.on) cov_push((uint64_t)__builtin_return_address(0), (uint64_t)p); cov_mem(p); } \
	void __sanitizer_cov_store##n(void *p) { if (cov.on) cov_push((uint64_t)__builtin_return_address(0), (uint64_t)p); cov_mem(p); }
L(1) L(2) L(4) L(8) L(16)
#undef L

#ifdef SIM_TRACED
/* What the library calls outside its own code: lengths and addresses of block
   operations, how far a comparison of blocks runs, which branches a division of
   double words takes. */
static void cov_call(uint64_t pc, uint64_t a, uint64_t b, uint64_t c) {
	if (!cov.on) return;
	cov_push(pc, a); cov_mem((void *)a);
	cov_push(pc, b); cov_mem((void *)b);
	cov_push(pc, c); cov_mem((void *)c);
}
#define PC ((uint64_t)__builtin_return_address(0))
static void up(void *d, const void *s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); }
void *memcpy(void *restrict d, const void *restrict s, size_t n) {
	cov_call(PC, (uint64_t)d, (uint64_t)s, n);
	up(d, s, n);
	return d;
}
void *memmove(void *d, const void *s, size_t n) {
	cov_call(PC, (uint64_t)d, (uint64_t)s, n);
	if ((uintptr_t)d - (uintptr_t)s >= n) up(d, s, n);
	else {
		void *e = (char *)d + n - 1; const void *f = (const char *)s + n - 1; size_t m = n;
		__asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(e), "+S"(f), "+c"(m) :: "memory", "cc");
	}
	return d;
}
void *memset(void *d, int x, size_t n) {
	cov_call(PC, (uint64_t)d, 0, n);
	void *e = d; size_t m = n;
	__asm__ volatile("rep stosb" : "+D"(e), "+c"(m) : "a"(x) : "memory");
	return d;
}
static int compare(const unsigned char *a, const unsigned char *b, size_t n, uint64_t pc) {
	size_t i = 0;
	while (i < n && a[i] == b[i]) { i++; __asm__ volatile("" ::: "memory"); }
	cov_call(pc, (uint64_t)a, (uint64_t)b, i);
	return i < n ? a[i] - b[i] : 0;
}
int memcmp(const void *a, const void *b, size_t n) { return compare(a, b, n, PC); }
int bcmp(const void *a, const void *b, size_t n) { return compare(a, b, n, PC); }
typedef unsigned __int128 u128;
static u128 divide(u128 n, u128 d, u128 *rem, uint64_t pc) {
	uint64_t nh = n >> 64, nl = n, dh = d >> 64, dl = d;
	/* the branches of the run-time library's routine: which operands are short */
	cov_call(pc, dh != 0, nh >= dl, (nh | dl) >> 32 != 0);
	if (!dh && dl && nh < dl) {
		uint64_t q, r;
		__asm__("divq %4" : "=a"(q), "=d"(r) : "0"(nl), "1"(nh), "r"(dl) : "cc");
		if (rem) *rem = r;
		return q;
	}
	u128 q = 0, r = 0;
	for (int i = 127; i >= 0; i--) {
		int top = r >> 127;
		r = r << 1 | (n >> i & 1);
		if (top || r >= d) { r -= d; q |= (u128)1 << i; }
	}
	if (rem) *rem = r;
	return q;
}
u128 __udivti3(u128 n, u128 d) { return divide(n, d, 0, PC); }
u128 __umodti3(u128 n, u128 d) { u128 r; divide(n, d, &r, PC); return r; }
__int128 __divti3(__int128 n, __int128 d) { u128 q = divide(n < 0 ? -(u128)n : (u128)n, d < 0 ? -(u128)d : (u128)d, 0, PC); return (n < 0) != (d < 0) ? -q : q; }
__int128 __modti3(__int128 n, __int128 d) { u128 r; divide(n < 0 ? -(u128)n : (u128)n, d < 0 ? -(u128)d : (u128)d, &r, PC); return n < 0 ? -r : r; }
#endif
