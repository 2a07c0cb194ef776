// A simulated TCP network inside the process: sockets, epoll and eventfd.
// Bytes travel in segments with latency and jitter; a connection can be
// reset, cut after any number of bytes, stalled or refused.
#include "shim.h"
#include <sys/syscall.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdlib.h>
#include <string>
#include <vector>
#include <deque>
#include <map>

enum { K_NONE, K_SOCK, K_EVENT, K_EPOLL };
enum { S_NEW, S_LISTEN, S_CONNECTING, S_OPEN, S_DEAD };

struct Obj;
struct Interest { int fd; Obj* o; uint32_t events; epoll_data_t data; uint32_t pending; uint64_t seq; };
struct Obj {
  int kind = K_NONE, refs = 0, id = 0;
  // eventfd
  uint64_t count = 0;
  // epoll
  std::map<int, Interest> ints;
  uint64_t rseq = 0;
  int empty = 0;
  // who watches this object
  std::vector<Obj*> watchers;
  // socket
  int st = S_NEW, port = 0, rport = 0, err = 0, backlog = 0;
  std::deque<Obj*> accepts;
  Obj* peer = nullptr;
  std::string rx; size_t rxpos = 0;
  bool rx_eof = false, tx_shut = false, hup = false;
  size_t inflight = 0;           // bytes sent by us and not yet read by the peer
  uint64_t last_arrival = 0;     // of what we send
  uint64_t cut_after = NEVER, sent = 0;
  bool tx_full = false;
  int cid = 0;
  bool server_side = false;
};

static const int MAXFD = 4096;
static Obj* objs[MAXFD];
static std::map<int, Obj*>* listeners;
static std::vector<Obj*>* conns;   // client ends of open connections
static int next_port = 40000, next_id = 1, next_cid = 1;
static uint64_t partition_until = 0;

bool net_owns(int fd) { return fd >= 0 && fd < MAXFD && objs[fd]; }

static int place(Obj* o, int flags) {
  int fd = (int)raw(SYS_eventfd2, 0, flags & (O_NONBLOCK | O_CLOEXEC));
  if (fd < 0 || fd >= MAXFD) { errno = EMFILE; return -1; }
  objs[fd] = o; o->refs++;
  o->id = next_id++;
  return fd;
}
static bool nonblocking(int fd) { return raw(SYS_fcntl, fd, F_GETFL) & O_NONBLOCK; }

// ------------------------------------------------------------ readiness
static uint32_t readiness(Obj* o) {
  if (o->kind == K_EVENT) return (o->count ? EPOLLIN : 0) | EPOLLOUT;
  if (o->kind == K_EPOLL) { for (auto& kv : o->ints) if (kv.second.pending) return EPOLLIN; return 0; }
  switch (o->st) {
    case S_LISTEN: return o->accepts.empty() ? 0 : EPOLLIN;
    case S_NEW: return EPOLLOUT | EPOLLHUP;
    case S_CONNECTING: return 0;
    case S_DEAD: return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP;
    default: break;
  }
  uint32_t r = 0;
  if (o->rxpos < o->rx.size() || o->rx_eof) r |= EPOLLIN;
  if (o->rx_eof) r |= EPOLLRDHUP;
  if (o->rx_eof && o->tx_shut) r |= EPOLLHUP;
  if (!o->tx_shut && o->inflight < G.c.net_sndbuf) r |= EPOLLOUT;
  if (o->tx_shut) r |= EPOLLOUT;
  return r;
}
static void notify(Obj* o, uint32_t ev) {
  for (Obj* e : o->watchers) {
    for (auto& kv : e->ints) {
      Interest& in = kv.second;
      if (in.o != o) continue;
      if ((in.events | EPOLLERR | EPOLLHUP) & ev) {
        if (!in.pending) in.seq = ++e->rseq;
        in.pending |= ev;
        wake_all(e, WK_EPOLL);
      }
    }
  }
  wake_all(o, WK_SOCK);
}

// ------------------------------------------------------------ wire
struct Wire { Obj* to; int kind; std::string data; };  // 0 data, 1 fin, 2 reset, 3 connected, 4 refused, 5 incoming
static void kill_end(Obj* o, int err) {
  if (o->st == S_DEAD) return;
  o->st = S_DEAD; o->err = err;
  notify(o, EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP);
}
static void arrive(void* p, uint64_t) {
  Wire* w = (Wire*)p;
  Obj* o = w->to;
  if (o->st != S_DEAD) switch (w->kind) {
    case 0:
      if (o->rxpos > 65536) { o->rx.erase(0, o->rxpos); o->rxpos = 0; }
      o->rx += w->data;
      notify(o, EPOLLIN);
      break;
    case 1: o->rx_eof = true; notify(o, EPOLLIN | EPOLLRDHUP | (o->tx_shut ? EPOLLHUP : 0)); break;
    case 2: kill_end(o, ECONNRESET); break;
    case 3: if (o->st == S_CONNECTING) { o->st = S_OPEN; notify(o, EPOLLOUT); } break;
    case 4: if (o->st == S_CONNECTING) kill_end(o, ECONNREFUSED); break;
    default: break;
  }
  delete w;
}
static uint64_t lat() {
  uint64_t l = (uint64_t)G.c.net_lat_us * 1000;
  if (G.c.net_jit_us) l += (uint64_t)choose_uniform(ST_NET, 8) * G.c.net_jit_us * 125;
  return l + 1000;
}
static void ship(Obj* from, int kind, std::string data) {
  Obj* to = from->peer;
  if (!to) return;
  uint64_t at = G.now + lat();
  if (at < partition_until) at = partition_until + lat();
  if (G.faults_on && choose(ST_NET, 2, G.c.p_net_stall)) {
    static const uint64_t d[] = {5000000ull, 50000000ull, 500000000ull, 5000000000ull};
    uint64_t x = d[choose_uniform(ST_NET, 4)];
    stat_add(F_NET_STALL); tr("fault: connection %d stalls for %llu ms", from->cid, (unsigned long long)(x / 1000000));
    at += x;
  }
  if (at < from->last_arrival) at = from->last_arrival;
  from->last_arrival = at;
  stat_add(N_SEG); stat_add(N_BYTES, data.size());
  at_time(at, arrive, new Wire{to, kind, std::move(data)}, 0);
}
static void reset_conn(Obj* o, bool other_now) {
  Obj* p = o->peer;
  kill_end(o, ECONNRESET);
  if (p) { if (other_now) kill_end(p, ECONNRESET); else at_time(G.now + lat(), arrive, new Wire{p, 2, ""}, 0); }
}
static void plan_cuts(Obj* o) {
  if (!G.faults_on) return;
  if (choose(ST_NET, 2, G.c.p_net_reset)) {
    static const uint32_t span[] = {64, 512, 2048, 8192, 65536};
    uint32_t s = span[choose_uniform(ST_NET, 5)];
    o->cut_after = choose_uniform(ST_NET, s);
  }
}

// ------------------------------------------------------------ sockets
extern "C" int socket(int d, int t, int p) {
  if (!active() || (d != AF_INET && d != AF_INET6)) return (int)ret(raw(SYS_socket, d, t, p));
  Obj* o = new Obj(); o->kind = K_SOCK;
  return place(o, (t & SOCK_NONBLOCK ? O_NONBLOCK : 0) | O_CLOEXEC);
}
static int port_of(const struct sockaddr* a) { return ntohs(((const struct sockaddr_in*)a)->sin_port); }
static void put_addr(struct sockaddr* a, socklen_t* l, int port) {
  if (!a || !l) return;
  struct sockaddr_in s; memset(&s, 0, sizeof s);
  s.sin_family = AF_INET; s.sin_port = htons(port); s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  memcpy(a, &s, *l < sizeof s ? *l : sizeof s);
  *l = sizeof s;
}
extern "C" int bind(int fd, const struct sockaddr* a, socklen_t l) {
  if (!active() || !net_owns(fd)) return (int)ret(raw(SYS_bind, fd, (long)a, l));
  int p = port_of(a);
  if (!p) p = next_port++;
  objs[fd]->port = p;
  return 0;
}
extern "C" int listen(int fd, int b) {
  if (!active() || !net_owns(fd)) return (int)ret(raw(SYS_listen, fd, b));
  Obj* o = objs[fd];
  if (!listeners) listeners = new std::map<int, Obj*>();
  if (listeners->count(o->port)) { errno = EADDRINUSE; return -1; }
  o->st = S_LISTEN; o->backlog = b;
  (*listeners)[o->port] = o;
  return 0;
}
extern "C" int connect(int fd, const struct sockaddr* a, socklen_t l) {
  if (!active() || !net_owns(fd)) return (int)ret(raw(SYS_connect, fd, (long)a, l));
  Obj* o = objs[fd];
  sync_point(); advance(3000);
  if (o->st == S_OPEN) { errno = EISCONN; return -1; }
  if (o->st != S_NEW) { errno = EALREADY; return -1; }
  if (!o->port) o->port = next_port++;
  o->rport = port_of(a);
  o->st = S_CONNECTING;
  o->cid = next_cid++;
  stat_add(N_CONN);
  auto it = listeners ? listeners->find(o->rport) : std::map<int, Obj*>::iterator();
  bool refuse = !listeners || it == listeners->end();
  if (!refuse && G.faults_on && choose(ST_NET, 2, G.c.p_net_refuse)) { refuse = true; stat_add(F_NET_REFUSED); }
  if (refuse) { at_time(G.now + lat(), arrive, new Wire{o, 4, ""}, 0); tr("connection %d refused", o->cid); }
  else {
    Obj* s = new Obj(); s->kind = K_SOCK; s->st = S_OPEN; s->port = o->rport; s->rport = o->port; s->peer = o; s->cid = o->cid; s->server_side = true;
    o->peer = s; s->refs++; o->refs++;   // never freed while the run lasts
    if (!conns) conns = new std::vector<Obj*>();
    conns->push_back(o);
    plan_cuts(o); plan_cuts(s);
    Obj* ls = it->second;
    uint64_t at = G.now + lat();
    if (at < partition_until) at = partition_until + lat();
    at_time(at, [](void* p, uint64_t q) { Obj* ls = (Obj*)q; Obj* s = (Obj*)p; if (ls->st == S_LISTEN) { ls->accepts.push_back(s); notify(ls, EPOLLIN); } else reset_conn(s, true); }, s, (uint64_t)ls);
    at_time(at + lat(), arrive, new Wire{o, 3, ""}, 0);
    o->last_arrival = s->last_arrival = at + lat();
  }
  if (nonblocking(fd)) { errno = EINPROGRESS; return -1; }
  while (o->st == S_CONNECTING) block(o, WK_SOCK, NEVER);
  if (o->st == S_OPEN) return 0;
  errno = o->err; return -1;
}
extern "C" int accept4(int fd, struct sockaddr* a, socklen_t* l, int flags) {
  if (!active() || !net_owns(fd)) return (int)ret(raw(SYS_accept4, fd, (long)a, (long)l, flags));
  sync_point();
  Obj* o = objs[fd];
  if (G.faults_on && choose(ST_NET, 2, G.c.p_net_accept)) { stat_add(F_OPEN_EMFILE); tr("fault: accept fails"); errno = choose(ST_NET, 2, 500000) ? EMFILE : ECONNABORTED; return -1; }
  while (o->accepts.empty()) {
    if (nonblocking(fd)) { errno = EAGAIN; return -1; }
    block(o, WK_SOCK, NEVER);
  }
  Obj* s = o->accepts.front(); o->accepts.pop_front();
  put_addr(a, l, s->rport);
  return place(s, (flags & SOCK_NONBLOCK ? O_NONBLOCK : 0) | O_CLOEXEC);
}
extern "C" int accept(int fd, struct sockaddr* a, socklen_t* l) { return accept4(fd, a, l, 0); }
extern "C" int getsockopt(int fd, int lv, int k, void* v, socklen_t* l) {
  if (!active() || !net_owns(fd)) return (int)ret(raw(SYS_getsockopt, fd, lv, k, (long)v, (long)l));
  int x = 0; Obj* o = objs[fd];
  if (lv == SOL_SOCKET && k == SO_ERROR) { x = o->err; o->err = 0; }
  if (lv == SOL_SOCKET && k == SO_TYPE) x = SOCK_STREAM;
  if (lv == SOL_SOCKET && k == SO_DOMAIN) x = AF_INET;
  if (v && l && *l >= sizeof x) { memcpy(v, &x, sizeof x); *l = sizeof x; }
  return 0;
}
extern "C" int setsockopt(int fd, int lv, int k, const void* v, socklen_t l) {
  if (!active() || !net_owns(fd)) return (int)ret(raw(SYS_setsockopt, fd, lv, k, (long)v, l));
  return 0;
}
extern "C" int getsockname(int fd, struct sockaddr* a, socklen_t* l) {
  if (!active() || !net_owns(fd)) return (int)ret(raw(SYS_getsockname, fd, (long)a, (long)l));
  put_addr(a, l, objs[fd]->port); return 0;
}
extern "C" int getpeername(int fd, struct sockaddr* a, socklen_t* l) {
  if (!active() || !net_owns(fd)) return (int)ret(raw(SYS_getpeername, fd, (long)a, (long)l));
  if (objs[fd]->st != S_OPEN) { errno = ENOTCONN; return -1; }
  put_addr(a, l, objs[fd]->rport); return 0;
}
extern "C" int shutdown(int fd, int how) {
  if (!active() || !net_owns(fd)) return (int)ret(raw(SYS_shutdown, fd, how));
  Obj* o = objs[fd];
  sync_point();
  if (o->st != S_OPEN) { errno = ENOTCONN; return -1; }
  if (how != SHUT_RD && !o->tx_shut) { o->tx_shut = true; ship(o, 1, ""); if (o->rx_eof) notify(o, EPOLLHUP); }
  if (how != SHUT_WR) { o->rx_eof = true; notify(o, EPOLLIN); }
  return 0;
}
ssize_t net_write(int fd, const void* b, size_t n, int) {
  Obj* o = objs[fd];
  if (o->kind == K_EVENT) {
    sync_point();
    uint64_t v; memcpy(&v, b, 8); o->count += v;
    notify(o, EPOLLIN);
    return 8;
  }
  sync_point(); advance(2000);
  for (;;) {
    if (o->st == S_DEAD) { errno = o->err ? o->err : EPIPE; o->err = 0; return -1; }
    if (o->st == S_CONNECTING && nonblocking(fd)) { errno = EAGAIN; return -1; }
    if (o->st != S_OPEN && o->st != S_CONNECTING) { errno = ENOTCONN; return -1; }
    if (o->tx_shut) { errno = EPIPE; return -1; }
    if (o->st == S_OPEN && o->inflight < G.c.net_sndbuf) break;
    o->tx_full = true;
    if (nonblocking(fd)) { errno = EAGAIN; return -1; }
    block(o, WK_SOCK, NEVER);
  }
  size_t k = G.c.net_sndbuf - o->inflight;
  if (k > n) k = n;
  if (k > 1 && choose(ST_NET, 2, G.c.p_net_short_write)) { k = 1 + choose_uniform(ST_NET, (uint32_t)(k - 1)); stat_add(F_NET_SHORT_WRITE); }
  // tokio takes a short write as "full": room comes back a little later.
  if (k < n && k < G.c.net_sndbuf - o->inflight) at_time(G.now + lat(), [](void* p, uint64_t) { Obj* o = (Obj*)p; if (o->st == S_OPEN) notify(o, readiness(o) & EPOLLOUT); }, o, 0);
  bool cut = false;
  if (o->sent + k >= o->cut_after) { k = (size_t)(o->cut_after - o->sent); cut = true; }
  size_t at = 0;
  uint32_t seg = G.c.net_seg ? G.c.net_seg : 65536;
  while (at < k) {
    size_t m = k - at; if (m > seg) m = seg;
    if (m > 1 && G.c.net_jit_us && choose(ST_NET, 2, 200000)) m = 1 + choose_uniform(ST_NET, (uint32_t)m);
    ship(o, 0, std::string((const char*)b + at, m));
    at += m;
  }
  o->sent += k; o->inflight += k;
  if (o->inflight >= G.c.net_sndbuf) o->tx_full = true;
  mixh(0x40, k);
  if (cut) {
    stat_add(F_NET_CUT);
    tr("fault: connection %d cut after %llu bytes from the %s", o->cid, (unsigned long long)o->sent, o->server_side ? "server" : "client");
    // What was sent still arrives, then the other side sees the break; this side at once.
    Obj* p = o->peer;
    if (p) at_time(o->last_arrival + 1, arrive, new Wire{p, 2, ""}, 0);
    kill_end(o, ECONNRESET);
    if (k == 0) { errno = ECONNRESET; o->err = 0; return -1; }
  }
  tr("conn %d %s sends %zu bytes", o->cid, o->server_side ? "server" : "client", k);
  return k;
}
ssize_t net_read(int fd, void* b, size_t n, int flags) {
  Obj* o = objs[fd];
  if (o->kind == K_EVENT) {
    sync_point();
    while (!o->count) { if (nonblocking(fd)) { errno = EAGAIN; return -1; } block(o, WK_SOCK, NEVER); }
    memcpy(b, &o->count, 8); o->count = 0;
    return 8;
  }
  sync_point(); advance(2000);
  for (;;) {
    if (o->rxpos < o->rx.size() && o->st != S_DEAD) break;
    if (o->st == S_DEAD) {
      // Data that had arrived before a reset may still be lost.
      if (o->err) { errno = o->err; o->err = 0; return -1; }
      return 0;
    }
    if (o->rx_eof) return 0;
    if (o->st == S_NEW) { errno = ENOTCONN; return -1; }
    if (nonblocking(fd)) { errno = EAGAIN; return -1; }
    block(o, WK_SOCK, NEVER);
  }
  size_t k = o->rx.size() - o->rxpos;
  if (k > n) k = n;
  if (k > 1 && choose(ST_NET, 2, G.c.p_net_short_read)) { k = 1 + choose_uniform(ST_NET, (uint32_t)(k - 1)); stat_add(F_NET_SHORT_READ); }
  memcpy(b, o->rx.data() + o->rxpos, k);
  if (flags & MSG_PEEK) return k;
  o->rxpos += k;
  if (o->rxpos == o->rx.size()) { o->rx.clear(); o->rxpos = 0; }
  Obj* p = o->peer;
  if (p) {
    p->inflight -= k;
    if (p->tx_full && p->inflight < G.c.net_sndbuf) { p->tx_full = false; notify(p, EPOLLOUT); }
  }
  mixh(0x41, k);
  // tokio takes a short read as "drained": tell it that more is there.
  if (o->rxpos < o->rx.size()) notify(o, EPOLLIN);
  return k;
}
extern "C" ssize_t recv(int fd, void* b, size_t n, int f) { return active() && net_owns(fd) ? net_read(fd, b, n, f) : ret(raw(SYS_recvfrom, fd, (long)b, n, f, 0, 0)); }
extern "C" ssize_t send(int fd, const void* b, size_t n, int f) { return active() && net_owns(fd) ? net_write(fd, b, n, f) : ret(raw(SYS_sendto, fd, (long)b, n, f, 0, 0)); }
extern "C" ssize_t sendmsg(int fd, const struct msghdr* m, int f) {
  if (!active() || !net_owns(fd)) return ret(raw(SYS_sendmsg, fd, (long)m, f));
  std::string s; for (size_t i = 0; i < m->msg_iovlen; i++) s.append((const char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
  return net_write(fd, s.data(), s.size(), f);
}
extern "C" ssize_t recvmsg(int fd, struct msghdr* m, int f) {
  if (!active() || !net_owns(fd)) return ret(raw(SYS_recvmsg, fd, (long)m, f));
  for (size_t i = 0; i < m->msg_iovlen; i++) if (m->msg_iov[i].iov_len) return net_read(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, f);
  return 0;
}
int net_close(int fd) {
  Obj* o = objs[fd];
  objs[fd] = nullptr;
  raw(SYS_close, fd);
  if (--o->refs > (o->kind == K_SOCK && o->peer ? 1 : 0)) return 0;
  for (Obj* e : o->watchers) for (auto it = e->ints.begin(); it != e->ints.end();) { if (it->second.o == o) it = e->ints.erase(it); else ++it; }
  o->watchers.clear();
  if (o->kind == K_EPOLL) { for (auto& kv : o->ints) { auto& w = kv.second.o->watchers; for (size_t i = 0; i < w.size(); i++) if (w[i] == o) { w.erase(w.begin() + i); break; } } o->ints.clear(); }
  if (o->kind == K_SOCK) {
    tr("conn %d %s closes", o->cid, o->server_side ? "server" : "client");
    if (o->st == S_LISTEN) { listeners->erase(o->port); while (!o->accepts.empty()) { reset_conn(o->accepts.front(), false); o->accepts.pop_front(); } }
    else if (o->st == S_OPEN && o->peer) {
      if (o->rxpos < o->rx.size()) { uint64_t at = G.now + lat(); if (at < o->last_arrival) at = o->last_arrival; at_time(at, arrive, new Wire{o->peer, 2, ""}, 0); }
      else if (!o->tx_shut) ship(o, 1, "");
    }
    o->st = S_DEAD;
  }
  return 0;
}
int net_dup(int fd, int n) { objs[n] = objs[fd]; objs[n]->refs++; return n; }

// ------------------------------------------------------------ eventfd, epoll, poll
extern "C" int eventfd(unsigned v, int flags) {
  if (!active()) return (int)ret(raw(SYS_eventfd2, v, flags));
  Obj* o = new Obj(); o->kind = K_EVENT; o->count = v;
  return place(o, flags);
}
extern "C" int epoll_create1(int flags) {
  if (!active()) return (int)ret(raw(SYS_epoll_create1, flags));
  Obj* o = new Obj(); o->kind = K_EPOLL;
  return place(o, O_CLOEXEC);
}
extern "C" int epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) {
  if (!active() || !net_owns(ep)) return (int)ret(raw(SYS_epoll_ctl, ep, op, fd, (long)ev));
  Obj* e = objs[ep];
  if (!net_owns(fd)) return 0;
  Obj* o = objs[fd];
  if (op == EPOLL_CTL_DEL) {
    if (!e->ints.erase(fd)) { errno = ENOENT; return -1; }
    for (size_t i = 0; i < o->watchers.size(); i++) if (o->watchers[i] == e) { o->watchers.erase(o->watchers.begin() + i); break; }
    return 0;
  }
  bool had = e->ints.count(fd);
  if (op == EPOLL_CTL_ADD && had) { errno = EEXIST; return -1; }
  Interest& in = e->ints[fd];
  in.fd = fd; in.o = o; in.events = ev->events; in.data = ev->data; in.pending = 0; in.seq = 0;
  if (!had) o->watchers.push_back(e);
  uint32_t r = readiness(o) & (in.events | EPOLLERR | EPOLLHUP);
  if (r) { in.pending = r; in.seq = ++e->rseq; wake_all(e, WK_EPOLL); }
  return 0;
}
extern "C" int epoll_wait(int ep, struct epoll_event* out, int max, int timeout) {
  if (!active() || !net_owns(ep)) return (int)ret(raw(SYS_epoll_wait, ep, (long)out, max, timeout));
  Obj* e = objs[ep];
  sync_point(); advance(1000);
  uint64_t dl = timeout < 0 ? NEVER : G.now + (uint64_t)timeout * 1000000;
  for (;;) {
    int n = 0;
    std::vector<Interest*> v;
    for (auto& kv : e->ints) if (kv.second.pending) v.push_back(&kv.second);
    for (size_t i = 1; i < v.size(); i++) for (size_t j = i; j > 0 && v[j]->seq < v[j - 1]->seq; j--) std::swap(v[j], v[j - 1]);
    for (auto in : v) {
      if (n >= max) break;
      uint32_t r = readiness(in->o) & (in->events | EPOLLERR | EPOLLHUP);
      in->pending = 0;
      if (!r) continue;
      out[n].events = r; out[n].data = in->data; n++;
      if (!(in->events & EPOLLET)) { in->pending = r; }
    }
    // A task that spins until the network moves: let time pass for it.
    if (n || timeout != 0) e->empty = 0;
    else if (++e->empty > 64) spin_relax();
    if (n || timeout == 0) return n;
    if (G.now >= dl) return 0;
    if (block(e, WK_EPOLL, dl) == WR_TIMEOUT) { timeout = 0; }
  }
}
extern "C" int epoll_pwait(int ep, struct epoll_event* out, int max, int timeout, const sigset_t*) { return epoll_wait(ep, out, max, timeout); }
extern "C" int poll(struct pollfd* f, nfds_t n, int timeout) {
  if (!active()) return (int)ret(raw(SYS_poll, (long)f, n, timeout));
  bool any = false;
  for (nfds_t i = 0; i < n; i++) if (net_owns(f[i].fd)) any = true;
  if (!any) return (int)ret(raw(SYS_poll, (long)f, n, timeout));
  int k = 0;
  for (nfds_t i = 0; i < n; i++) { f[i].revents = net_owns(f[i].fd) ? readiness(objs[f[i].fd]) & (f[i].events | POLLERR | POLLHUP) : 0; if (f[i].revents) k++; }
  return k;
}

// ------------------------------------------------------------ faults the harness asks for
extern "C" void sim_net_partition(uint64_t ns) { partition_until = G.now + ns; stat_add(F_NET_STALL); tr("fault: network partitioned for %llu ms", (unsigned long long)(ns / 1000000)); }
// Resets up to n open connections, chosen by the schedule. Returns how many.
extern "C" int sim_net_reset(int n) {
  int k = 0;
  while (conns && n-- > 0) {
    std::vector<Obj*> v; for (Obj* o : *conns) if (o->st == S_OPEN || o->st == S_CONNECTING) v.push_back(o);
    if (v.empty()) break;
    Obj* o = v[choose_uniform(ST_NET, (uint32_t)v.size())];
    tr("fault: connection %d reset", o->cid);
    stat_add(F_NET_RESET); k++;
    reset_conn(o, false);
  }
  return k;
}
