// Mutexes, condition variables, read-write locks, futexes, clocks, sleeping
// and randomness, all decided by the simulator.
#include "shim.h"
#include <sys/syscall.h>
#include <linux/futex.h>
#include <sys/time.h>
#include <sys/random.h>
#include <sys/sysinfo.h>
#include <unistd.h>
#include <sched.h>
#include <stdlib.h>

// ------------------------------------------------------------ mutex
static inline bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static void lock_raw(pthread_mutex_t* m) {
  while (m->__data.__lock) {
    stat_add(S_LOCKWAIT);
    block(m, WK_MUTEX, NEVER);
  }
  m->__data.__lock = 1;
  m->__data.__owner = self_->id + 1;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!active()) return REAL(pthread_mutex_lock)(m);
  sync_point();
  if (m->__data.__lock && m->__data.__owner == self_->id + 1 && recursive(m)) { m->__data.__count++; return 0; }
  lock_raw(m);
  return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!active()) return REAL(pthread_mutex_trylock)(m);
  sync_point();
  if (m->__data.__lock) {
    if (m->__data.__owner == self_->id + 1 && recursive(m)) { m->__data.__count++; return 0; }
    return EBUSY;
  }
  m->__data.__lock = 1; m->__data.__owner = self_->id + 1;
  return 0;
}
static void unlock_raw(pthread_mutex_t* m) {
  m->__data.__lock = 0; m->__data.__owner = 0;
  wake_all(m, WK_MUTEX);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!active()) return REAL(pthread_mutex_unlock)(m);
  if (recursive(m) && m->__data.__count) { m->__data.__count--; return 0; }
  unlock_raw(m);
  sync_point();
  return 0;
}
extern "C" int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }

// ------------------------------------------------------------ condition variables
static uint64_t to_mono(clockid_t clk, const struct timespec* ts) {
  __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
  if (clk == CLOCK_REALTIME) v -= G.wall_off;
  if (v < (__int128)G.now) return G.now;
  if (v > (__int128)(NEVER - 1)) return NEVER - 1;
  return (uint64_t)v;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
  stat_add(S_CONDWAIT);
  unsigned cnt = m->__data.__count;
  m->__data.__count = 0;
  unlock_raw(m);
  int r;
  if (G.c.spurious_ppm && choose(ST_WAKE, 2, G.c.spurious_ppm)) { stat_add(F_SPURIOUS); r = WR_WOKEN; sync_point(); }
  else r = block(c, WK_COND, deadline);
  lock_raw(m);
  m->__data.__count = cnt;
  return r == WR_TIMEOUT ? ETIMEDOUT : 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!active()) return REAL(pthread_cond_wait)(c, m);
  sync_point();
  return cond_wait(c, m, NEVER);
}
extern "C" int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!active()) return REAL(pthread_cond_timedwait)(c, m, ts);
  sync_point();
  return cond_wait(c, m, to_mono((c->__data.__wrefs & 2) ? CLOCK_MONOTONIC : CLOCK_REALTIME, ts));
}
extern "C" int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) {
  if (!active()) return REAL(pthread_cond_clockwait)(c, m, clk, ts);
  sync_point();
  return cond_wait(c, m, to_mono(clk, ts));
}
extern "C" int pthread_cond_signal(pthread_cond_t* c) {
  if (!active()) return REAL(pthread_cond_signal)(c);
  wake_n(c, WK_COND, 1);
  sync_point();
  return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!active()) return REAL(pthread_cond_broadcast)(c);
  wake_all(c, WK_COND);
  sync_point();
  return 0;
}

// ------------------------------------------------------------ read-write locks
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!active()) return REAL(pthread_rwlock_rdlock)(l);
  sync_point();
  while (l->__data.__cur_writer) block(l, WK_RW, NEVER);
  l->__data.__readers++;
  return 0;
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!active()) return REAL(pthread_rwlock_wrlock)(l);
  sync_point();
  while (l->__data.__cur_writer || l->__data.__readers) block(l, WK_RW, NEVER);
  l->__data.__cur_writer = self_->id + 1;
  return 0;
}
extern "C" int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!active()) return REAL(pthread_rwlock_tryrdlock)(l);
  sync_point();
  if (l->__data.__cur_writer) return EBUSY;
  l->__data.__readers++;
  return 0;
}
extern "C" int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!active()) return REAL(pthread_rwlock_trywrlock)(l);
  sync_point();
  if (l->__data.__cur_writer || l->__data.__readers) return EBUSY;
  l->__data.__cur_writer = self_->id + 1;
  return 0;
}
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!active()) return REAL(pthread_rwlock_unlock)(l);
  if (l->__data.__cur_writer) l->__data.__cur_writer = 0; else l->__data.__readers--;
  if (!l->__data.__readers) wake_all(l, WK_RW);
  sync_point();
  return 0;
}

// ------------------------------------------------------------ once
extern "C" int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!active()) return REAL(pthread_once)(o, fn);
  sync_point();
  for (;;) {
    if (*o == 2) return 0;
    if (*o == 0) {
      *o = 1;
      try { fn(); } catch (...) { *o = 0; wake_all(o, WK_ONCE); throw; }
      *o = 2;
      wake_all(o, WK_ONCE);
      return 0;
    }
    block(o, WK_ONCE, NEVER);
  }
}

// ------------------------------------------------------------ system calls made through syscall()
static void fill_random(void* p, size_t n) {
  uint8_t* b = (uint8_t*)p;
  while (n) { uint64_t r = rnd(ST_DATA); size_t k = n < 8 ? n : 8; memcpy(b, &r, k); b += k; n -= k; }
}
static long sim_futex(uint32_t* addr, int op, uint32_t val, const struct timespec* ts) {
  int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  switch (cmd) {
    case FUTEX_WAIT: case FUTEX_WAIT_BITSET: {
      sync_point();
      if (*(volatile uint32_t*)addr != val) { errno = EAGAIN; return -1; }
      uint64_t dl = NEVER;
      if (ts) {
        if (cmd == FUTEX_WAIT) dl = G.now + ts->tv_sec * 1000000000ull + ts->tv_nsec;
        else dl = to_mono(op & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
      }
      stat_add(S_FUTEXWAIT);
      if (block(addr, WK_FUTEX, dl) == WR_TIMEOUT) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    case FUTEX_WAKE: case FUTEX_WAKE_BITSET: {
      int n = val > 1000000 ? wake_all(addr, WK_FUTEX) : wake_n(addr, WK_FUTEX, (int)val);
      sync_point();
      return n;
    }
    default: die(V_HARNESS, "futex operation %d is not simulated", cmd);
  }
}
extern "C" long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (active()) {
    switch (n) {
      case SYS_futex: return sim_futex((uint32_t*)a[0], (int)a[1], (uint32_t)a[2], (const struct timespec*)a[3]);
      case SYS_getrandom: fill_random((void*)a[0], (size_t)a[1]); return a[1];
      case SYS_gettid: return 1000 + self_->id;
      default: break;
    }
  }
  return ret(raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}
// Outside a simulation entropy is a fixed stream too: what a process sets up
// before the simulation starts must not differ between processes.
static uint64_t outside = 0x1234567;
extern "C" void sim_entropy(uint64_t seed) { outside = seed; }
static void fill_outside(void* p, size_t n) {
  for (size_t i = 0; i < n; i++) {
    uint64_t z = (outside += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    ((unsigned char*)p)[i] = (unsigned char)((z ^ (z >> 27)) >> 24);
  }
}
extern "C" ssize_t getrandom(void* p, size_t n, unsigned) {
  if (!active()) { fill_outside(p, n); return n; }
  fill_random(p, n);
  return n;
}
extern "C" int getentropy(void* p, size_t n) {
  if (!active()) { fill_outside(p, n); return 0; }
  fill_random(p, n);
  return 0;
}
extern "C" unsigned sim_random_device(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
extern "C" unsigned sim_random_device(void*) {
  if (!active()) { unsigned v; fill_outside(&v, 4); return v; }
  return (unsigned)rnd(ST_DATA);
}
extern "C" pid_t getpid() { return active() ? 1000 : (pid_t)raw(SYS_getpid); }
extern "C" pid_t gettid() { return active() ? 1000 + self_->id : (pid_t)raw(SYS_gettid); }
extern "C" int sched_getcpu() { return active() ? self_->id % (int)(G.c.ncpu ? G.c.ncpu : 1) : 0; }
extern "C" int gethostname(char* p, size_t n) {
  if (!active()) return REAL(gethostname)(p, n);
  strncpy(p, "sim", n); return 0;
}
extern "C" int get_nprocs() { return active() ? (int)G.c.ncpu : 4; }
extern "C" long sysconf(int k) {
  if (active() && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) return G.c.ncpu;
  return REAL(sysconf)(k);
}
extern "C" int sched_getaffinity(pid_t p, size_t n, cpu_set_t* s) {
  if (!active()) return REAL(sched_getaffinity)(p, n, s);
  memset(s, 0, n);
  for (unsigned i = 0; i < G.c.ncpu; i++) CPU_SET_S(i, n, s);
  return 0;
}
extern "C" int setpriority(int, unsigned, int) { return 0; }
extern "C" int sched_setscheduler(pid_t, int, const struct sched_param*) { return 0; }

// ------------------------------------------------------------ time
static uint64_t wall() {
  uint64_t w = (uint64_t)((int64_t)G.now + G.wall_off), g = (uint64_t)G.c.clock_gran_us * 1000;
  return g ? w - w % g : w;
}
static void maybe_jump() {
  if (!G.c.clockjump_ppm) return;
  uint32_t v = choose(ST_TIME, 17, G.c.clockjump_ppm);
  if (!v) return;
  static const int64_t d[16] = {-1, -100, -1000, -10000, -1000000, -1000000000ll, -60000000000ll, -3600000000000ll,
                                1000000, 1000000000ll, 3600000000000ll, -50, -200, -500, -2000, -20000};
  G.wall_off += d[v - 1];
  stat_add(S_CLOCKJUMP);
  tr("wall clock jumps by %lld ns", (long long)d[v - 1]);
}
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!active()) return (int)ret(raw(SYS_clock_gettime, c, (long)ts));
  advance(c == CLOCK_REALTIME && G.c.clockjump_ppm ? 7 : 60);
  point(1);
  if (++self_->clocks % 500 == 0) spin_relax();   // looking at the clock without ever waiting
  uint64_t v = G.now;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { maybe_jump(); v = wall(); }
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
  return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) {
  if (!active()) return (int)ret(raw(SYS_gettimeofday, (long)tv, 0));
  advance(60);
  maybe_jump();
  uint64_t v = wall();
  tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000;
  return 0;
}
extern "C" time_t time(time_t* p) {
  if (!active()) { struct timespec ts; raw(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts); if (p) *p = ts.tv_sec; return ts.tv_sec; }
  time_t v = wall() / 1000000000;
  if (p) *p = v;
  return v;
}
extern "C" clock_t clock() { return active() ? (clock_t)(G.now / 1000) : REAL(clock)(); }
static int sleep_until(uint64_t dl) { block(nullptr, WK_SLEEP, dl); return 0; }
extern "C" int nanosleep(const struct timespec* t, struct timespec* rem) {
  if (!active()) return (int)ret(raw(SYS_nanosleep, (long)t, (long)rem));
  return sleep_until(G.now + t->tv_sec * 1000000000ull + t->tv_nsec);
}
extern "C" int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem) {
  if (!active()) return (int)-raw(SYS_clock_nanosleep, c, flags, (long)t, (long)rem);
  if (flags & TIMER_ABSTIME) return sleep_until(to_mono(c, t));
  return sleep_until(G.now + t->tv_sec * 1000000000ull + t->tv_nsec);
}
extern "C" int usleep(useconds_t us) {
  if (!active()) { struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; raw(SYS_nanosleep, (long)&t, 0); return 0; }
  return sleep_until(G.now + us * 1000ull);
}
extern "C" unsigned sleep(unsigned s) {
  if (!active()) { struct timespec t = {(time_t)s, 0}; raw(SYS_nanosleep, (long)&t, 0); return 0; }
  sleep_until(G.now + s * 1000000000ull);
  return 0;
}
extern "C" int sched_yield() {
  if (!active()) return (int)raw(SYS_sched_yield);
  yield_now();
  return 0;
}
