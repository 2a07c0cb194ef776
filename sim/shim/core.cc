#include "shim.h"
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>
#include <signal.h>
#include <vector>
#include <algorithm>

Sim G;
__thread Thread* self_ __attribute__((tls_model("initial-exec"))) = nullptr;
static pthread_key_t exit_key;
static bool key_made = false;

long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

void* next_sym(const char* name) {
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) { fprintf(stderr, "indrasim: no %s\n", name); _exit(99); }
  return p;
}

static void raw_futex_wait(volatile uint32_t* p, uint32_t v) { raw(SYS_futex, (long)p, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, 0, 0, 0); }
static void raw_futex_wake(volatile uint32_t* p) { raw(SYS_futex, (long)p, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0); }

void stat_add(int i, uint64_t n) { if (G.shm) G.shm->stats[i] += n; }

// ------------------------------------------------------------ randomness
static inline uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t rnd(Stream s) { return splitmix(G.rng[s]); }

static void record(Stream s, uint32_t idx, uint32_t val) {
  if (!val) return;
  Shm* m = G.shm;
  if (m->nch < SIM_MAXCH) {
    m->ch[m->nch].idx = idx; m->ch[m->nch].stream = s | m->epoch << 8; m->ch[m->nch].val = val; m->nch++;
  } else m->chlost++;
}
// Replay entries are sorted by (stream, idx).
static uint32_t replay_val(Stream s, uint32_t idx) {
  uint32_t& p = G.rep_pos[s];
  while (p < G.rep_end[s] && G.shm->rep[p].idx < idx) p++;
  if (p < G.rep_end[s] && G.shm->rep[p].idx == idx) return G.shm->rep[p].val;
  return 0;
}
uint32_t choose(Stream s, uint32_t n, uint32_t ppm) {
  if (n < 2 || (ppm == 0 && !G.shm->replay)) { return 0; }
  if (ppm == 0) return 0;
  uint32_t idx = G.cnt[s]++;
  uint32_t v;
  if (G.shm->replay) v = replay_val(s, idx) % n;
  else {
    uint64_t r = rnd(s);
    v = (r % 1000000) < ppm ? 1 + (uint32_t)((r >> 24) % (n - 1)) : 0;
  }
  record(s, idx, v);
  return v;
}
uint32_t choose_uniform(Stream s, uint32_t n) {
  if (n < 2) return 0;
  uint32_t idx = G.cnt[s]++;
  uint32_t v;
  if (G.shm->replay) v = replay_val(s, idx) % n;
  else v = (uint32_t)(rnd(s) % n);
  record(s, idx, v);
  return v;
}

void mixh(uint64_t a, uint64_t b) {
  G.thash = (G.thash ^ a) * 0x100000001b3ull;
  G.thash = (G.thash ^ (b + (G.thash >> 29))) * 0x100000001b3ull;
}

void tr(const char* fmt, ...) {
  Shm* m = G.shm;
  if (!m || !m->trace) return;
  char b[600];
  int n = snprintf(b, 64, "[%llu t=%llu.%06llums T%d] ", (unsigned long long)points_now(), (unsigned long long)(G.now / 1000000), (unsigned long long)(G.now % 1000000), self_ ? self_->id : -1);
  va_list ap; va_start(ap, fmt);
  int k = vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
  va_end(ap);
  if (k > (int)sizeof b - n - 3) k = sizeof b - n - 3;
  n += k; b[n++] = '\n';
  if (m->trlen + n < SIM_TRCAP) { memcpy(m->tr + m->trlen, b, n); m->trlen += n; }
}

// ------------------------------------------------------------ ends of a run
static void finish_stats() {
  Shm* m = G.shm;
  m->trace_hash = (m->trace_hash * 0x9e3779b97f4a7c15ull) ^ G.thash; m->sched_hash = (m->sched_hash * 0x9e3779b97f4a7c15ull) ^ G.shash; m->points += points_now(); m->simtime += G.now;
  m->switches = m->stats[S_SWITCH];
}
[[noreturn]] void die(uint32_t verdict, const char* fmt, ...) {
  G.on = 0;
  Shm* m = G.shm;
  m->verdict = verdict;
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(m->msg, sizeof m->msg - 4096, fmt, ap);
  va_end(ap);
  if (n < 0) n = 0;
  if (n > (int)sizeof m->msg - 4096) n = sizeof m->msg - 4096;
  m->msglen = n;
  finish_stats();
  raw(SYS_exit_group, 50);
  __builtin_unreachable();
}
[[noreturn]] void crash_now(const char* why) {
  tr("CRASH (%s) kind=%s at io op %llu", why, G.c.crash_kind == 2 ? "power" : "kill", (unsigned long long)G.io_ops);
  mixh(0xdead, G.io_ops);
  G.on = 0;
  if (G.c.crash_kind == 2) { stat_add(F_POWER); fs_power_image(); } else stat_add(F_KILL);
  G.shm->verdict = V_CRASHED;
  finish_stats();
  raw(SYS_exit_group, 77);
  __builtin_unreachable();
}
void check_crash_point() {
  if (G.c.crash_kind && G.c.crash_point && points_now() >= G.c.crash_point) crash_now("point");
}

// ------------------------------------------------------------ events
struct Ev { uint64_t when, seq; void (*fn)(void*, uint64_t); void* a; uint64_t b; };
static std::vector<Ev>* evq;
static bool ev_after(const Ev& x, const Ev& y) { return x.when != y.when ? x.when > y.when : x.seq > y.seq; }
void at_time(uint64_t when, void (*fn)(void*, uint64_t), void* a, uint64_t b) {
  evq->push_back({when, ++G.wseq, fn, a, b});
  std::push_heap(evq->begin(), evq->end(), ev_after);
  if (when < G.next_due) G.next_due = when;
}
// Runs everything due by G.now; returns with next_due recomputed.
static void process_due() {
  for (;;) {
    Thread* bt = nullptr;
    for (int i = 0; i < G.nth; i++) {
      Thread* t = G.th[i];
      if (t->state == TS_BLOCK && t->deadline != NEVER && (!bt || t->deadline < bt->deadline || (t->deadline == bt->deadline && t->wseq < bt->wseq))) bt = t;
    }
    uint64_t td = bt ? bt->deadline : NEVER, ed = evq->empty() ? NEVER : evq->front().when;
    if (td > G.now && ed > G.now) { G.next_due = td < ed ? td : ed; return; }
    if (ed <= td) {
      std::pop_heap(evq->begin(), evq->end(), ev_after);
      Ev e = evq->back(); evq->pop_back();
      e.fn(e.a, e.b);
    } else { stat_add(S_TIMEOUTS); wake(bt, WR_TIMEOUT); }
  }
}
void advance(uint64_t ns) {
  G.now += ns;
  if (G.now >= G.next_due) process_due();
}
// Moves the clock to the earliest timer. False if there is none.
static bool jump_time() {
  G.next_due = NEVER;
  process_due();
  if (G.next_due == NEVER) return false;
  if (G.next_due > G.now) G.now = G.next_due;
  process_due();
  return true;
}

// ------------------------------------------------------------ scheduling
static int runnable(Thread** out, Thread* except) {
  int n = 0;
  for (int i = 0; i < G.nth; i++) if (G.th[i]->state == TS_RUN && G.th[i] != except) out[n++] = G.th[i];
  return n;
}
static Thread* rl[SIM_MAXTHREADS];

static void unpark(Thread* t) { t->fut = 1; raw_futex_wake(&t->fut); }
static void park(Thread* me) {
  while (!me->fut) raw_futex_wait(&me->fut, 0);
  me->fut = 0;
  if (me->wait_exit_tid) {  // let the thread that handed over to us really end first
    while (raw(SYS_tgkill, raw(SYS_getpid), me->wait_exit_tid, 0) == 0) raw(SYS_sched_yield);
    me->wait_exit_tid = 0;
  }
}
static void hand_to(Thread* n) {
  Thread* me = self_;
  G.cur = n;
  if (n == me) return;
  stat_add(S_SWITCH);
  mixh(n->id, points_now());
  G.shash = (G.shash ^ ((uint64_t)me->id << 8 ^ n->id ^ (uint64_t)me->wkind << 20)) * 0x100000001b3ull;
  unpark(n);
  if (me->state != TS_EXIT) park(me);
}

static void describe_threads(char* b, size_t cap) {
  size_t n = 0; b[0] = 0;
  static const char* wk[] = {"?", "mutex", "condvar", "futex", "rwlock", "once", "join", "sleep", "epoll", "socket"};
  for (int i = 0; i < G.nth && n + 80 < cap; i++) {
    Thread* t = G.th[i];
    if (t->state == TS_EXIT) continue;
    n += snprintf(b + n, cap - n, " T%d(%s):%s", t->id, t->name, t->state == TS_RUN ? "runnable" : wk[t->wkind]);
  }
}

static Thread* pct_best(int n) {
  Thread* b = rl[0];
  for (int i = 1; i < n; i++) if (rl[i]->prio > b->prio) b = rl[i];
  return b;
}

static Thread* pick_next() {
  for (;;) {
    if (G.now >= G.next_due) process_due();
    int n = runnable(rl, nullptr);
    if (n == 0) {
      if (!jump_time()) {
        char d[3000]; describe_threads(d, sizeof d);
        die(V_DEADLOCK, "deadlock: every thread waits and nothing can wake them:%s", d);
      }
      if (G.now > G.c.time_cap) {
        char d[3000]; describe_threads(d, sizeof d);
        die(V_TIMECAP, "no end within %llu s of simulated time:%s", (unsigned long long)(G.c.time_cap / 1000000000), d);
      }
      continue;
    }
    // Default: the next thread after the current one, in identifier order.
    int start = 0, curid = G.cur ? G.cur->id : -1;
    while (start < n && rl[start]->id <= curid) start++;
    if (start == n) start = 0;
    if (n == 1) return rl[0];
    uint32_t idx = G.cnt[ST_PICK]++, v;
    if (G.shm->replay) v = replay_val(ST_PICK, idx) % n;
    else if (G.c.policy == 1) {
      Thread* b = pct_best(n);
      int at = 0; while (rl[at] != b) at++;
      v = (at - start + n) % n;
    } else if (G.c.policy == 2) v = 0;
    else v = (uint32_t)(rnd(ST_PICK) % n);
    record(ST_PICK, idx, v);
    return rl[(start + v) % n];
  }
}

static void next_preempt() {
  uint64_t p = points_now();
  uint64_t nx;
  if (G.shm->replay) {
    uint32_t& q = G.rep_pos[ST_PREEMPT];
    while (q < G.rep_end[ST_PREEMPT] && G.shm->rep[q].idx <= p) q++;
    nx = q < G.rep_end[ST_PREEMPT] ? G.shm->rep[q].idx : p + 1000000;
    if (nx > p + 1000000) nx = p + 1000000;
  } else if (G.c.policy == 2) nx = p + 1000000;
  else {
    uint64_t m = G.c.policy == 1 ? (G.c.pct_depth ? G.c.pct_span / G.c.pct_depth + 1 : 1000000) : G.c.preempt_gap;
    nx = p + 1 + rnd(ST_PREEMPT) % (2 * m + 1);
    if (nx > p + 1000000) nx = p + 1000000;
  }
  if (G.c.crash_kind && G.c.crash_point > p && G.c.crash_point < nx) nx = G.c.crash_point;
  G.next_at = nx;
  G.until = (int64_t)(nx - p);
}

static const uint32_t SLIP = 0xffff;  // recorded value: time moves on to the next timer
void sched_slow() {
  Thread* me = self_;
  uint64_t p = points_now();
  if (p > G.c.step_cap) {
    char d[3000]; describe_threads(d, sizeof d);
    die(V_STEPCAP, "no end within %llu scheduling points:%s", (unsigned long long)G.c.step_cap, d);
  }
  check_crash_point();
  if (G.now >= G.next_due) process_due();
  bool rep = G.shm->replay;
  uint32_t v = 0;
  if (rep) {
    v = replay_val(ST_PREEMPT, (uint32_t)p);
  }
  int n = runnable(rl, me);
  if (rep && v == SLIP) {
    record(ST_PREEMPT, (uint32_t)p, v);
    next_preempt();
    stat_add(S_TIMEJUMP); jump_time();
    return;
  }
  if (n > 0) {
    if (rep) v = v ? 1 + (v - 1) % n : 0;
    else if (G.c.policy == 1) {
      // PCT: a change point lowers the running thread below all others; a
      // thread of higher priority that has become runnable goes first.
      if (!G.pct_wake) me->prio = --G.prio_low;
      G.pct_wake = 0;
      Thread* b = pct_best(n);
      int at = 0; while (rl[at] != b) at++;
      v = b->prio > me->prio ? at + 1 : 0;
    } else if (G.c.policy == 0) v = 1 + (uint32_t)(rnd(ST_PREEMPT) % n);
    record(ST_PREEMPT, (uint32_t)p, v);
    next_preempt();
    if (v) {
      Thread* t = rl[v - 1];
      stat_add(S_PREEMPT);
      me->wkind = WK_NONE;
      hand_to(t);
    }
  } else {
    next_preempt();
    if (!rep && G.c.timeslip_ppm && G.next_due != NEVER && rnd(ST_PREEMPT) % 1000000 < G.c.timeslip_ppm) {
      record(ST_PREEMPT, (uint32_t)p, SLIP);
      stat_add(S_TIMEJUMP); jump_time();
    }
  }
}

void wake(Thread* t, int reason) {
  if (G.c.policy == 1 && !G.shm->replay && G.cur && t->prio > G.cur->prio && G.until > 1) {
    G.next_at = points_now() + 1; G.until = 1; G.pct_wake = 1;
  }
  t->state = TS_RUN; t->wobj = nullptr; t->deadline = NEVER; t->reason = reason;
}
int block(const void* obj, int kind, uint64_t deadline) {
  Thread* me = self_;
  me->state = TS_BLOCK; me->wobj = obj; me->wkind = kind; me->deadline = deadline; me->wseq = ++G.wseq; me->reason = 0; me->clocks = 0;
  if (deadline < G.next_due) G.next_due = deadline;
  hand_to(pick_next());
  return me->reason;
}
int wake_n(const void* obj, int kind, int n) {
  int done = 0;
  while (n-- > 0) {
    Thread* c[256]; int k = 0;
    for (int i = 0; i < G.nth && k < 256; i++) { Thread* t = G.th[i]; if (t->state == TS_BLOCK && t->wobj == obj && t->wkind == kind) c[k++] = t; }
    if (!k) break;
    std::sort(c, c + k, [](Thread* a, Thread* b) { return a->wseq < b->wseq; });
    uint32_t v = k > 1 ? choose(ST_WAKE, k, 500000) : 0;
    wake(c[v], WR_WOKEN);
    done++;
  }
  return done;
}
int wake_all(const void* obj, int kind) {
  int k = 0;
  for (int i = 0; i < G.nth; i++) { Thread* t = G.th[i]; if (t->state == TS_BLOCK && t->wobj == obj && t->wkind == kind) { wake(t, WR_WOKEN); k++; } }
  return k;
}
void yield_now() {
  Thread* me = self_;
  advance(1000);
  if (G.c.policy == 1) me->prio = --G.prio_low;
  int n = runnable(rl, me);
  if (n == 0) {
    // A spinning thread waits for somebody: let timers expire.
    G.until -= 50;
    if (G.until <= 0) sched_slow();
    if (runnable(rl, me) == 0) { if (G.next_due != NEVER && G.next_due < G.now + 100000000) jump_time(); else advance(100000); }
    return;
  }
  uint32_t v = choose_uniform(ST_PICK, n);
  G.until -= G.c.sync_weight;
  uint64_t p = points_now();
  if (p > G.c.step_cap) die(V_STEPCAP, "no end within %llu scheduling points (yielding)", (unsigned long long)G.c.step_cap);
  if (G.until <= 0) next_preempt();
  me->wkind = WK_NONE;
  hand_to(rl[v]);
}

// A thread that has polled in vain many times: others go first, and when
// there are none, time passes.
void spin_relax() {
  if (runnable(rl, self_) == 0) advance(20000000);
  yield_now();
}

// ------------------------------------------------------------ threads
static Thread* new_thread() {
  if (G.nth >= SIM_MAXTHREADS) die(V_HARNESS, "too many threads");
  Thread* t = (Thread*)calloc(1, sizeof(Thread));
  t->id = G.nth;
  t->deadline = NEVER;
  t->prio = (int64_t)(rnd(ST_PICK) >> 2);
  G.th[G.nth++] = t;
  return t;
}
static void exit_thread(Thread* t) {
  tr("thread exits");
  t->state = TS_EXIT;
  wake_all(t, WK_JOIN);
  Thread* n = pick_next();
  n->wait_exit_tid = t->ktid;
  self_ = nullptr;
  G.cur = n;
  stat_add(S_SWITCH);
  mixh(n->id + 1000, points_now());
  unpark(n);
}
static void key_dtor(void* p) {
  Thread* t = (Thread*)p;
  if (!G.on || !self_) return;
  if (++t->dtor_iter < 4) { pthread_setspecific(exit_key, t); return; }
  exit_thread(t);
}
static void* trampoline(void* p) {
  Thread* t = (Thread*)p;
  self_ = t;
  t->ktid = (int)raw(SYS_gettid);
  pthread_setspecific(exit_key, t);
  t->started = 1;
  raw_futex_wake(&t->started);
  park(t);
  t->ret = t->fn(t->arg);
  return t->ret;
}
extern "C" int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!active()) return REAL(pthread_create)(out, attr, fn, arg);
  stat_add(S_THREADS);
  Thread* t = new_thread();
  t->fn = fn; t->arg = arg;
  if (attr) { int ds = 0; pthread_attr_getdetachstate(attr, &ds); t->detached = ds == PTHREAD_CREATE_DETACHED; }
  strcpy(t->name, "thread");
  int e = REAL(pthread_create)(out, attr, trampoline, t);
  if (e) { G.nth--; free(t); return e; }
  while (!t->started) raw_futex_wait(&t->started, 0);
  t->pt = *out;
  t->state = TS_RUN;
  tr("creates thread T%d", t->id);
  advance(5000);
  sync_point();
  return 0;
}
static Thread* by_pt(pthread_t pt) {
  for (int i = G.nth - 1; i >= 0; i--) if (G.th[i]->pt == pt && !G.th[i]->joined) return G.th[i];
  return nullptr;
}
extern "C" int pthread_join(pthread_t pt, void** r) {
  if (!active()) return REAL(pthread_join)(pt, r);
  Thread* t = by_pt(pt);
  if (!t) return REAL(pthread_join)(pt, r);
  sync_point();
  while (t->state != TS_EXIT) block(t, WK_JOIN, NEVER);
  t->joined = 1;
  return REAL(pthread_join)(pt, r);
}
extern "C" int pthread_detach(pthread_t pt) {
  if (active()) { Thread* t = by_pt(pt); if (t) { t->detached = 1; if (t->state == TS_EXIT) t->joined = 1; } }
  return REAL(pthread_detach)(pt);
}
extern "C" int pthread_setname_np(pthread_t pt, const char* name) {
  if (!active()) return REAL(pthread_setname_np)(pt, name);
  Thread* t = by_pt(pt);
  if (t) { strncpy(t->name, name, sizeof t->name - 1); }
  return 0;
}

// ------------------------------------------------------------ coverage callbacks
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* s, uint32_t* e) {
  if (s == e || *s) return;
  for (uint32_t* p = s; p < e; p++) *p = ++G.covn < SIM_COVCAP ? G.covn : SIM_COVCAP - 1;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
  if (!G.on) return;
  Thread* t = self_;
  if (!t) return;
  G.shm->cov[*g] = 1;
  if (t->nopoint) return;
  if (--G.until <= 0) sched_slow();
}
// Loads and stores, so that threads can be switched between those of atomics.
static inline void at_access() {
  if (!G.on) return;
  Thread* t = self_;
  if (!t || t->nopoint) return;
  if (--G.until <= 0) sched_slow();
}
#define ACCESS(n) \
  extern "C" void __sanitizer_cov_load##n(void*) { at_access(); } \
  extern "C" void __sanitizer_cov_store##n(void*) { at_access(); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)

// ------------------------------------------------------------ control from the harness
extern "C" void sim_begin(Shm* shm, const SimCfg* c) {
  uint64_t covn = G.covn;
  memset(&G, 0, sizeof G);
  G.covn = covn;
  G.shm = shm;
  G.c = *c;
  if (!key_made) { pthread_key_create(&exit_key, key_dtor); key_made = true; }
  uint64_t s = c->seed;
  for (int i = 0; i < NSTREAM; i++) { uint64_t x = s + 0x1234567ull * (i + 1); splitmix(x); G.rng[i] = splitmix(x); }
  // index the replay table
  uint32_t i = 0;
  while (i < shm->nreplay && (shm->rep[i].stream >> 8) < shm->epoch) i++;
  for (uint32_t st = 0; st < NSTREAM; st++) {
    G.rep_pos[st] = i;
    while (i < shm->nreplay && shm->rep[i].stream == (st | shm->epoch << 8)) i++;
    G.rep_end[st] = i;
  }
  G.thash = 0xcbf29ce484222325ull; G.shash = G.thash;
  G.now = 1000000; G.next_due = NEVER;
  evq = new std::vector<Ev>();
  G.wall_off = c->clock_base;
  Thread* t = new_thread();
  t->ktid = (int)raw(SYS_gettid);
  t->pt = pthread_self();
  t->state = TS_RUN;
  strcpy(t->name, "main");
  self_ = t; G.cur = t;
  G.faults_on = 0;
  fs_begin();
  next_preempt();
  G.on = 1;
}
extern "C" void sim_end() { if (G.on) { G.on = 0; finish_stats(); self_ = nullptr; } }
extern "C" uint64_t sim_now() { return G.now; }
extern "C" uint64_t sim_points() { return points_now(); }
extern "C" int sim_tid() { return self_ ? self_->id : -1; }
extern "C" void sim_point() { if (active()) sync_point(); }
extern "C" void sim_nopoint(int d) { if (self_) self_->nopoint += d; }
extern "C" void sim_yield() { if (active()) yield_now(); }
extern "C" uint32_t sim_choose(uint32_t s, uint32_t n, uint32_t ppm) { return active() ? choose((Stream)s, n, ppm) : 0; }
extern "C" uint32_t sim_choose_uniform(uint32_t s, uint32_t n) { return active() ? choose_uniform((Stream)s, n) : 0; }
extern "C" uint64_t sim_rnd(uint32_t s) { return rnd((Stream)s); }
extern "C" void sim_faults(int on) { G.faults_on = on; }
extern "C" void sim_disk_cap(uint64_t v) { G.c.disk_cap = v; }
extern "C" uint64_t sim_io_ops() { return G.io_ops; }
extern "C" SimCfg* sim_cfg() { return &G.c; }
extern "C" void sim_mix(uint64_t a, uint64_t b) { mixh(a, b); }
extern "C" void sim_trace(const char* s, size_t n) { if (G.shm && G.shm->trace) tr("%.*s", (int)n, s); }
extern "C" void sim_stat(int i, uint64_t n) { stat_add(i, n); }
extern "C" void sim_crash() { if (G.c.crash_kind) crash_now("requested"); }
extern "C" void sim_die(uint32_t verdict, const char* s, size_t n) { die(verdict, "%.*s", (int)n, s); }
extern "C" void sim_clock_shift(int64_t d) { G.wall_off += d; stat_add(S_CLOCKJUMP); tr("wall clock shifted by %lld ns", (long long)d); }
extern "C" void sim_at_crash(uint64_t delta_io) { G.c.crash_io = G.io_ops + delta_io; }
// Appends to the event log, which survives a simulated crash.
extern "C" void sim_log(const uint8_t* p, size_t n) {
  Shm* m = G.shm;
  if (m->evlen + n + 4 > SIM_EVCAP) die(V_HARNESS, "event log full");
  uint32_t k = (uint32_t)n;
  memcpy(m->ev + m->evlen, &k, 4);
  memcpy(m->ev + m->evlen + 4, p, n);
  m->evlen += n + 4;
}

extern "C" size_t sim_shm_size() { return sizeof(Shm); }
extern "C" size_t sim_cfg_size() { return sizeof(SimCfg); }

// The process's arguments, for programs that are run inside a simulated
// process (their standard library reads the array given to the process).
static char** g_argv;
static int g_argc;
__attribute__((constructor)) static void grab_args(int c, char** v, char**) {
  g_argc = c;
  g_argv = v;
}
extern "C" int sim_args(const char* const* a, int n) {
  if (n + 1 > g_argc) return -1;
  for (int i = 0; i < n; i++) g_argv[1 + i] = strdup(a[i]);
  if (n + 1 < g_argc) g_argv[1 + n] = nullptr;
  return 0;
}
