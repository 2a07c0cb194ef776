// indrasim: a deterministic simulator that runs unmodified threads, files,
// clocks, sockets and randomness of one process under one seeded scheduler.
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stdint.h>
#include <stddef.h>
#include <sys/types.h>
#include <stdarg.h>
#include <pthread.h>
#include <time.h>
#include <errno.h>
#include <string.h>

#define SIM_MAXTHREADS 4096
#define SIM_MAXCH (1u << 20)
#define SIM_MAXDROP 4096
#define SIM_EVCAP (160u << 20)
#define SIM_TRCAP (8u << 20)
#define SIM_NSTAT 192
#define SIM_COVCAP (1u << 18)

enum Stream { ST_PREEMPT = 0, ST_PICK = 1, ST_WAKE = 2, ST_TIME = 3, ST_DISK = 4, ST_NET = 5, ST_CRASH = 6, ST_WORK = 7, ST_DATA = 8, NSTREAM = 9 };

enum Verdict { V_NONE = 0, V_OK = 1, V_VIOLATION = 2, V_CRASHED = 3, V_DEADLOCK = 4, V_TIMECAP = 5, V_STEPCAP = 6, V_HARNESS = 7, V_INCONCLUSIVE = 8 };

struct ChoiceRec { uint32_t idx; uint32_t stream; uint32_t val; };

// Keep in step with src/rt.rs.
struct Shm {
  // ---- job
  uint64_t seed;
  uint32_t scenario;
  uint32_t epoch;
  uint32_t replay;
  uint32_t trace;
  uint32_t variant;
  uint32_t pad0;
  int64_t params[64];
  char root[256];
  uint32_t nreplay;
  uint32_t ndrop;
  uint32_t drop[SIM_MAXDROP];
  struct ChoiceRec rep[SIM_MAXCH];
  // ---- result
  uint32_t verdict;
  uint32_t msglen;
  char msg[65536];
  uint64_t trace_hash;
  uint64_t sched_hash;
  uint64_t points;
  uint64_t switches;
  uint64_t simtime;
  uint64_t work_hash;
  uint64_t stats[SIM_NSTAT];
  uint32_t nch;
  uint32_t chlost;
  struct ChoiceRec ch[SIM_MAXCH];
  uint8_t cov[SIM_COVCAP];
  uint64_t evlen;
  uint8_t ev[SIM_EVCAP];
  uint64_t trlen;
  char tr[SIM_TRCAP];
};

// Indices into Shm.stats. Keep in step with src/rt.rs (STAT_NAMES).
enum Stat {
  S_THREADS = 0, S_SWITCH, S_PREEMPT, S_LOCKWAIT, S_CONDWAIT, S_FUTEXWAIT, S_TIMEOUTS, S_TIMEJUMP, S_CLOCKJUMP,
  S_IO_WRITE, S_IO_READ, S_IO_FSYNC, S_IO_RENAME, S_IO_UNLINK, S_IO_OPEN, S_IO_BYTES,
  F_ENOSPC, F_EIO_WRITE, F_EIO_READ, F_EIO_FSYNC, F_EIO_OPEN, F_EIO_RENAME, F_SHORT_WRITE, F_SHORT_READ, F_EINTR, F_TORN,
  F_KILL, F_POWER, F_LOST_BYTES, F_LOST_NS,
  N_CONN, N_SEG, N_BYTES, F_NET_RESET, F_NET_STALL, F_NET_CUT, F_NET_SHORT_READ, F_NET_SHORT_WRITE, F_NET_REFUSED, F_SPURIOUS, F_OPEN_EMFILE,
  F_POWER_REORDER, F_POWER_TORN, F_WAL_HOLE, F_EIO_STAT, S_LAST_SHIM,
};

struct SimCfg {  // passed to sim_begin; keep in step with src/rt.rs
  uint64_t seed;
  uint32_t policy;        // 0 random walk, 1 priority (PCT), 2 cooperative only
  uint32_t preempt_gap;   // mean points between preemptions (random walk)
  uint32_t sync_weight;   // how many points an intercepted call counts for
  uint32_t pct_depth;     // number of priority change points
  uint64_t pct_span;      // over how many points they are spread
  uint64_t step_cap;
  uint64_t time_cap;      // simulated ns
  uint32_t timeslip_ppm;  // per preemption: jump to the next timer although threads can run
  uint32_t clockjump_ppm; // per wall clock read: the wall clock jumps
  int64_t clock_base;     // wall clock at start (ns)
  uint32_t spurious_ppm;  // spurious condition wake-ups
  uint32_t ncpu;
  // disk
  uint32_t shadow;        // track durability (power loss possible)
  uint32_t fsmode;        // 0 strict directory durability, 1 any fsync commits earlier names
  uint32_t crash_kind;    // 0 none, 1 kill, 2 power
  uint32_t clock_gran_us;  // the wall clock moves in steps of this size, 0 = smoothly
  uint64_t crash_io;      // crash at this mutating I/O operation (1-based), 0 = off
  uint64_t crash_point;   // crash at this scheduling point, 0 = off
  uint32_t p_enospc, p_eio_write, p_eio_read, p_eio_fsync, p_eio_open, p_eio_rename, p_short_write, p_short_read, p_eintr;  // ppm
  uint32_t p_eio_stat;
  uint64_t disk_cap;      // bytes that may still be written before ENOSPC, ~0 = unlimited
  // network
  uint32_t net_lat_us, net_jit_us;
  uint32_t p_net_short_read, p_net_short_write, p_net_stall;  // ppm per call
  uint32_t p_net_reset;   // ppm per connection direction: it is cut after some number of bytes
  uint32_t p_net_refuse, p_net_accept;  // ppm per connect, accept
  uint32_t net_seg;       // max segment size
  uint32_t net_sndbuf;
};

enum { TS_FREE = 0, TS_RUN = 1, TS_BLOCK = 2, TS_EXIT = 3 };

struct Thread {
  int id;
  int state;
  pthread_t pt;
  int ktid;
  volatile uint32_t fut;
  volatile uint32_t started;
  const void* wobj;
  int wkind;
  uint64_t deadline;
  uint64_t wseq;
  int reason;
  int detached, joined;
  int wait_exit_tid;
  int dtor_iter;
  void* ret;
  void* (*fn)(void*);
  void* arg;
  int64_t prio;
  int nopoint;
  uint32_t clocks;
  char name[24];
};

enum { WK_NONE, WK_MUTEX, WK_COND, WK_FUTEX, WK_RW, WK_ONCE, WK_JOIN, WK_SLEEP, WK_EPOLL, WK_SOCK };
enum { WR_WOKEN = 1, WR_TIMEOUT = 2 };
#define NEVER (~0ull)

struct Sim {
  volatile int on;
  Shm* shm;
  SimCfg c;
  Thread* th[SIM_MAXTHREADS];
  int nth;
  Thread* cur;
  uint64_t now;
  int64_t wall_off;
  uint64_t next_at;    // absolute point index of next preemption decision
  int64_t until;       // countdown to it
  uint64_t wseq;
  uint64_t next_due;   // lower bound on the earliest deadline/event
  uint64_t rng[NSTREAM];
  uint32_t cnt[NSTREAM];
  uint32_t rep_pos[NSTREAM], rep_end[NSTREAM];
  uint64_t thash, shash;
  int64_t prio_low;
  uint64_t io_ops;
  int faults_on;
  uint32_t covn;
  int exiting;
  int pct_wake;
};
extern Sim G;
extern __thread Thread* self_ __attribute__((tls_model("initial-exec")));

static inline bool active() { return G.on && self_; }
static inline uint64_t points_now() { return (uint64_t)((int64_t)G.next_at - G.until); }

uint64_t rnd(Stream s);
// A recorded decision: 0 is the default, otherwise 1..n-1 with probability ppm/1e6.
uint32_t choose(Stream s, uint32_t n, uint32_t ppm);
uint32_t choose_uniform(Stream s, uint32_t n);  // 0..n-1, all equally likely
void sched_slow();
static inline void point(uint32_t w) {
  Thread* t = self_;
  if (t->nopoint) return;
  G.until -= w;
  if (G.until <= 0) sched_slow();
}
static inline void sync_point() { point(G.c.sync_weight); }
int block(const void* obj, int kind, uint64_t deadline);
int wake_all(const void* obj, int kind);
int wake_n(const void* obj, int kind, int n);  // chosen by ST_WAKE
void wake(Thread* t, int reason);
void yield_now();
void spin_relax();
void advance(uint64_t ns);
void at_time(uint64_t when, void (*fn)(void*, uint64_t), void* a, uint64_t b);
void mixh(uint64_t a, uint64_t b);
void tr(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void die(uint32_t verdict, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void crash_now(const char* why);
void fs_power_image();
void check_crash_point();
void stat_add(int i, uint64_t n = 1);
long raw6(long n, long a, long b, long c, long d, long e, long f);
static inline long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return raw6(n, a, b, c, d, e, f); }
static inline long ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
void* next_sym(const char* name);
#define REAL(name) ({ static decltype(&name) p_; if (!p_) p_ = (decltype(&name))next_sym(#name); p_; })

// net.cc
bool net_owns(int fd);
int net_close(int fd);
ssize_t net_read(int fd, void* buf, size_t n, int flags);
ssize_t net_write(int fd, const void* buf, size_t n, int flags);
int net_dup(int fd, int newfd);
// fs.cc
void fs_begin();
bool fs_owns(int fd);
