// Files under /sim/... live in a scratch directory. Every operation on them is
// a scheduling, fault and crash point. In shadow mode the simulator also keeps
// what a power loss would leave: per file the forced content plus the pending
// writes, and an ordered journal of name changes.
#include "shim.h"
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <dirent.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <dlfcn.h>

typedef std::string Str;
struct Pend { int kind; uint64_t off, len; Str data; };  // 0 write, 1 truncate to off
struct Inode { int id; Str dur; std::vector<Pend> pend; uint64_t size; };
struct NsOp { int kind; Str a, b; int ino; };  // 0 create/link a->ino, 1 unlink a, 2 rename a->b, 3 mkdir a, 4 rmdir a
struct FdI { int kind; Inode* ino; int flags; Str* path; };  // 0 none, 1 file, 2 dir

static const int MAXFD = 4096;
static FdI fds[MAXFD];
static std::map<Str, Inode*>* names;       // live names of files
static std::map<Str, int>* dirs;           // live directories
static std::map<Str, Inode*>* dnames;      // names at the start of the journal
static std::map<Str, int>* ddirs;
static std::vector<NsOp>* journal;
static size_t ns_durable;
static std::vector<Inode*>* inodes;
static std::unordered_map<uint64_t, int>* inomap;

bool fs_owns(int fd) { return fd >= 0 && fd < MAXFD && fds[fd].kind; }
static bool is_sim(const char* p) { return p && p[0] == '/' && p[1] == 's' && p[2] == 'i' && p[3] == 'm' && (p[4] == '/' || p[4] == 0); }
struct PathBuf { char b[1024]; };
static const char* mapp(const char* p, PathBuf& o) {
  if (!active() || !is_sim(p)) return p;
  snprintf(o.b, sizeof o.b, "%s%s", G.shm->root, p + 4);
  return o.b;
}
static Str norm(const char* p) {
  Str s;
  for (const char* q = p; *q; q++) { if (*q == '/' && !s.empty() && s.back() == '/') continue; s += *q; }
  while (s.size() > 1 && s.back() == '/') s.pop_back();
  return s;
}
static Str parent(const Str& p) { size_t i = p.rfind('/'); return i == 0 ? "/" : p.substr(0, i); }

static Inode* new_inode() {
  Inode* i = new Inode();
  i->id = (int)inodes->size() + 1; i->size = 0;
  inodes->push_back(i);
  return i;
}

static void load_dir(const Str& real, const Str& sim) {
  (*dirs)[sim] = 1;
  DIR* d = REAL(opendir)(real.c_str());
  if (!d) return;
  std::vector<Str> es;
  while (struct dirent* e = REAL(readdir)(d)) { Str n = e->d_name; if (n != "." && n != "..") es.push_back(n); }
  closedir(d);
  std::sort(es.begin(), es.end());
  for (auto& n : es) {
    struct stat st;
    Str r = real + "/" + n, s = sim + "/" + n;
    if (REAL(lstat)(r.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) { load_dir(r, s); continue; }
    Inode* i = new_inode();
    (*names)[s] = i;
    i->size = st.st_size;
    if (G.c.shadow) {
      int fd = (int)raw(SYS_open, (long)r.c_str(), O_RDONLY);
      i->dur.resize(st.st_size);
      size_t k = 0;
      while (k < i->dur.size()) { long c = raw(SYS_pread64, fd, (long)&i->dur[k], i->dur.size() - k, k); if (c <= 0) break; k += c; }
      raw(SYS_close, fd);
    }
  }
}
void fs_begin() {
  names = new std::map<Str, Inode*>(); dirs = new std::map<Str, int>();
  journal = new std::vector<NsOp>(); inodes = new std::vector<Inode*>(); inomap = new std::unordered_map<uint64_t, int>();
  ns_durable = 0;
  load_dir(G.shm->root, "/sim");
  dnames = new std::map<Str, Inode*>(*names); ddirs = new std::map<Str, int>(*dirs);
}

static void ns(int kind, const Str& a, const Str& b, Inode* i) {
  if (G.c.shadow) journal->push_back({kind, a, b, i ? i->id : 0});
}

// ------------------------------------------------------------ fault points
enum { IO_READ, IO_WRITE, IO_SYNC, IO_OPEN, IO_RENAME, IO_META };
// Counts the operation, lets others run, crashes or advances the clock.
static bool io_point(int kind) {
  bool mut = kind == IO_WRITE || kind == IO_SYNC || kind == IO_RENAME || kind == IO_META;
  sync_point();
  static const uint64_t lat[] = {8000, 12000, 400000, 15000, 20000, 15000};
  advance(lat[kind]);
  mixh(0x10 + kind, G.io_ops);
  if (mut) {
    G.io_ops++;
    if (G.c.crash_kind && G.c.crash_io && G.io_ops >= G.c.crash_io) return true;
  }
  return false;
}
static inline bool hit(uint32_t ppm) { return G.faults_on && ppm && choose(ST_DISK, 2, ppm); }
static int fail(int e, int stat, const char* what, const char* path) {
  stat_add(stat); tr("fault: %s on %s -> errno %d", what, path ? path : "?", e);
  mixh(0x77, e); errno = e; return -1;
}

// ------------------------------------------------------------ open/close
static int real_openat(int dfd, const char* p, int flags, int mode) { return (int)ret(raw(SYS_openat, dfd, (long)p, flags, mode)); }
static int random_fd(const char* p) {
  // A file with fixed random-looking content instead of the kernel's.
  int fd = (int)raw(SYS_memfd_create, (long)"rnd", 1);
  char b[4096]; size_t n;
  if (strstr(p, "uuid")) n = snprintf(b, sizeof b, "%08x-%04x-4%03x-a%03x-%012llx\n", (unsigned)rnd(ST_DATA), (unsigned)rnd(ST_DATA) & 0xffff, (unsigned)rnd(ST_DATA) & 0xfff, (unsigned)rnd(ST_DATA) & 0xfff, (unsigned long long)rnd(ST_DATA) & 0xffffffffffffull);
  else { for (n = 0; n < sizeof b; n += 8) { uint64_t r = rnd(ST_DATA); memcpy(b + n, &r, 8); } }
  raw(SYS_write, fd, (long)b, n);
  raw(SYS_lseek, fd, 0, 0);
  return fd;
}
static int do_open(int dfd, const char* p, int flags, int mode) {
  if (!active()) return real_openat(dfd, p, flags, mode);
  if (!strncmp(p, "/dev/urandom", 12) || !strncmp(p, "/dev/random", 11) || !strcmp(p, "/proc/sys/kernel/random/uuid")) return random_fd(p);
  if (!is_sim(p)) return real_openat(dfd, p, flags, mode);
  stat_add(S_IO_OPEN);
  bool crash = io_point((flags & (O_CREAT | O_TRUNC)) ? IO_META : IO_OPEN);
  if (crash) crash_now("open");
  if (hit(G.c.p_eio_open)) return fail(choose(ST_DISK, 2, 500000) ? EMFILE : EIO, F_EIO_OPEN, "open", p);
  Str s = norm(p);
  bool existed = names->count(s);
  if ((flags & O_CREAT) && !existed && G.c.disk_cap == 0) return fail(ENOSPC, F_ENOSPC, "create", p);
  PathBuf pb;
  int fd = real_openat(AT_FDCWD, mapp(p, pb), flags, mode);
  if (fd < 0 || fd >= MAXFD) return fd;
  FdI& f = fds[fd];
  f.flags = flags; f.path = new Str(s);
  if (dirs->count(s)) { f.kind = 2; f.ino = nullptr; }
  else {
    f.kind = 1;
    if (!existed) {
      Inode* i = new_inode();
      (*names)[s] = i;
      ns(0, s, "", i);
      tr("create %s", p);
      mixh(0x20, i->id);
    }
    f.ino = (*names)[s];
    if ((flags & O_TRUNC) && f.ino->size) { if (G.c.shadow) f.ino->pend.push_back({1, 0, 0, ""}); f.ino->size = 0; }
  }
  return fd;
}
extern "C" int open(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return do_open(AT_FDCWD, p, flags, m); }
extern "C" int open64(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return do_open(AT_FDCWD, p, flags, m); }
extern "C" int openat(int d, const char* p, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return do_open(d, p, flags, m); }
extern "C" int openat64(int d, const char* p, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return do_open(d, p, flags, m); }
extern "C" int creat(const char* p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
extern "C" FILE* fopen(const char* p, const char* m) {
  PathBuf pb;
  if (active() && is_sim(p)) {
    int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    int fd = do_open(AT_FDCWD, p, fl, 0644);
    if (fd < 0) return nullptr;
    return fdopen(fd, m);
  }
  if (active() && !strcmp(p, "/proc/sys/kernel/random/uuid")) return fdopen(random_fd(p), m);
  return REAL(fopen)(mapp(p, pb), m);
}
extern "C" FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
// Reads through a FILE (RocksDB's sequential files) must be fault points too.
static ssize_t ck_read(void* c, char* b, size_t n) {
  int fd = (int)(long)c;
  Thread* t = self_; if (t) t->nopoint++;
  ssize_t r;
  do r = read(fd, b, n); while (r < 0 && errno == EINTR);  // stdio reads of plain files are not interrupted
  if (t) t->nopoint--;
  return r;
}
static int ck_seek(void* c, off64_t* o, int w) { long r = raw(SYS_lseek, (int)(long)c, *o, w); if (r < 0) { errno = -r; return -1; } *o = r; return 0; }
static int ck_close(void* c) { return close((int)(long)c); }
static ssize_t ck_write(void* c, const char* b, size_t n) {
  Thread* t = self_; if (t) t->nopoint++;
  ssize_t r;
  do r = write((int)(long)c, b, n); while (r < 0 && errno == EINTR);
  if (t) t->nopoint--;
  return r < 0 ? 0 : r;
}
extern "C" FILE* fdopen(int fd, const char* m) {
  if (active() && fs_owns(fd) && fds[fd].kind == 1) {
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE* f = fopencookie((void*)(long)fd, m, io);
    return f;
  }
  return REAL(fdopen)(fd, m);
}
extern "C" int close(int fd) {
  if (active()) {
    if (net_owns(fd)) return net_close(fd);
    if (fs_owns(fd)) { delete fds[fd].path; fds[fd] = FdI(); }
  }
  return (int)ret(raw(SYS_close, fd));
}

// ------------------------------------------------------------ read/write
static const char* fpath(int fd) { return fds[fd].path ? fds[fd].path->c_str() : "?"; }
static ssize_t do_write(int fd, const char* b, size_t n, long off) {
  FdI& f = fds[fd];
  stat_add(S_IO_WRITE);
  bool crash = io_point(IO_WRITE);
  uint64_t o = off >= 0 ? (uint64_t)off : (f.flags & O_APPEND) ? f.ino->size : (uint64_t)raw(SYS_lseek, fd, 0, SEEK_CUR);
  size_t k = n;
  bool enospc = false;
  if (!crash) {
    if (hit(G.c.p_eintr)) return fail(EINTR, F_EINTR, "write", fpath(fd));
    if (hit(G.c.p_eio_write)) return fail(EIO, F_EIO_WRITE, "write", fpath(fd));
    if (hit(G.c.p_enospc)) return fail(ENOSPC, F_ENOSPC, "write", fpath(fd));
    if (n > 1 && hit(G.c.p_short_write)) { k = 1 + choose_uniform(ST_DISK, (uint32_t)(n - 1 > 1000000 ? 1000000 : n - 1)); stat_add(F_SHORT_WRITE); tr("fault: short write %zu of %zu on %s", k, n, fpath(fd)); }
    if (G.c.disk_cap != NEVER && o + k > f.ino->size) {
      uint64_t grow = o + k - f.ino->size;
      if (grow > G.c.disk_cap) {
        uint64_t can = G.c.disk_cap;
        if (k > grow - can) { k -= grow - can; } else k = 0;
        G.c.disk_cap = 0;
        if (k == 0) return fail(ENOSPC, F_ENOSPC, "write (disk full)", fpath(fd));
        enospc = true; stat_add(F_ENOSPC); tr("fault: disk full, %zu of %zu written to %s", k, n, fpath(fd));
      } else G.c.disk_cap -= grow;
    }
    (void)enospc;
  } else {
    // Killed inside the call: whole pages before the cut have been copied.
    uint32_t pages = (uint32_t)((o + n + 4095) / 4096 - o / 4096);
    uint32_t keep = choose_uniform(ST_CRASH, pages + 2);
    if (keep == 0) k = n;
    else if (keep == 1) k = 0;
    else { uint64_t end = (o / 4096 + (keep - 1)) * 4096; k = end > o ? (size_t)(end - o) : 0; if (k > n) k = n; }
    if (k != n) { stat_add(F_TORN); tr("torn write %zu of %zu on %s", k, n, fpath(fd)); }
  }
  if (k) {
    long r = off >= 0 ? raw(SYS_pwrite64, fd, (long)b, k, off) : raw(SYS_write, fd, (long)b, k);
    if (r < 0) return ret(r);
    k = r;
    if (G.c.shadow) f.ino->pend.push_back({0, o, k, Str(b, k)});
    if (o + k > f.ino->size) f.ino->size = o + k;
    stat_add(S_IO_BYTES, k);
    // RocksDB's own log has addresses in it, which are not part of the run.
    const char* nm = strrchr(fpath(fd), '/');
    uint64_t h = 0;
    if (!nm || strcmp(nm, "/LOG")) for (size_t i = 0; i < k; i += 61) h = h * 131 + (uint8_t)b[i];
    mixh(h, k);
  }
  if (crash) crash_now("write");
  tr("write %s off=%llu len=%zu", fpath(fd), (unsigned long long)o, k);
  return k;
}
static ssize_t do_read(int fd, char* b, size_t n, long off) {
  FdI& f = fds[fd];
  stat_add(S_IO_READ);
  io_point(IO_READ);
  if (hit(G.c.p_eintr)) return fail(EINTR, F_EINTR, "read", fpath(fd));
  if (hit(G.c.p_eio_read)) return fail(EIO, F_EIO_READ, "read", fpath(fd));
  if (n > 1 && hit(G.c.p_short_read)) { stat_add(F_SHORT_READ); n = 1 + choose_uniform(ST_DISK, (uint32_t)(n - 1 > 100000 ? 100000 : n - 1)); }
  (void)f;
  return ret(off >= 0 ? raw(SYS_pread64, fd, (long)b, n, off) : raw(SYS_read, fd, (long)b, n));
}
extern "C" ssize_t write(int fd, const void* b, size_t n) {
  if (active()) {
    if (net_owns(fd)) return net_write(fd, b, n, 0);
    if (fs_owns(fd) && fds[fd].kind == 1) return do_write(fd, (const char*)b, n, -1);
  }
  return ret(raw(SYS_write, fd, (long)b, n));
}
extern "C" ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  if (active() && fs_owns(fd)) return do_write(fd, (const char*)b, n, o);
  return ret(raw(SYS_pwrite64, fd, (long)b, n, o));
}
extern "C" ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
  if (active() && (net_owns(fd) || fs_owns(fd))) {
    Str s; for (int i = 0; i < c; i++) s.append((const char*)v[i].iov_base, v[i].iov_len);
    return write(fd, s.data(), s.size());
  }
  return ret(raw(SYS_writev, fd, (long)v, c));
}
extern "C" ssize_t read(int fd, void* b, size_t n) {
  if (active()) {
    if (net_owns(fd)) return net_read(fd, b, n, 0);
    if (fs_owns(fd)) return do_read(fd, (char*)b, n, -1);
  }
  return ret(raw(SYS_read, fd, (long)b, n));
}
extern "C" ssize_t readv(int fd, const struct iovec* v, int c) {
  if (active() && (net_owns(fd) || fs_owns(fd))) {
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
  }
  return ret(raw(SYS_readv, fd, (long)v, c));
}
extern "C" ssize_t pread(int fd, void* b, size_t n, off_t o) {
  if (active() && fs_owns(fd)) return do_read(fd, (char*)b, n, o);
  return ret(raw(SYS_pread64, fd, (long)b, n, o));
}
extern "C" ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }

// ------------------------------------------------------------ durability
static void apply_pend(Str& c, const Pend& p) {
  if (p.kind == 1) { c.resize(p.off); return; }
  if (c.size() < p.off + p.len) c.resize(p.off + p.len);
  memcpy(&c[p.off], p.data.data(), p.len);
}
static void force(Inode* i) { for (auto& p : i->pend) apply_pend(i->dur, p); i->pend.clear(); }
static int do_fsync(int fd, bool data) {
  FdI& f = fds[fd];
  stat_add(S_IO_FSYNC);
  if (io_point(IO_SYNC)) {
    // The crash may come before or after the force has happened.
    if (choose_uniform(ST_CRASH, 2) && G.c.shadow) { if (f.kind == 1) force(f.ino); }
    crash_now("fsync");
  }
  if (hit(G.c.p_eio_fsync)) {
    // The kernel drops the dirty state: what was pending may or may not be there.
    return fail(EIO, F_EIO_FSYNC, "fsync", fpath(fd));
  }
  if (G.c.shadow) {
    if (f.kind == 1) { force(f.ino); if (G.c.fsmode == 1) ns_durable = journal->size(); }
    else if (f.kind == 2) {
      // Ordered journal: forcing a directory forces every earlier name change.
      ns_durable = journal->size();
    }
  }
  tr("%s %s", data ? "fdatasync" : "fsync", fpath(fd));
  return 0;
}
extern "C" int fsync(int fd) { return active() && fs_owns(fd) ? do_fsync(fd, false) : (int)ret(raw(SYS_fsync, fd)); }
extern "C" int fdatasync(int fd) { return active() && fs_owns(fd) ? do_fsync(fd, true) : (int)ret(raw(SYS_fdatasync, fd)); }
extern "C" int sync_file_range(int fd, off64_t, off64_t, unsigned) { (void)fd; return 0; }
extern "C" int syncfs(int fd) {
  if (active() && fs_owns(fd)) { if (G.c.shadow) { for (auto i : *inodes) force(i); ns_durable = journal->size(); } return 0; }
  return (int)ret(raw(SYS_syncfs, fd));
}
extern "C" void sync() { if (active() && G.c.shadow) { for (auto i : *inodes) force(i); ns_durable = journal->size(); } }
extern "C" int ftruncate(int fd, off_t n) {
  if (active() && fs_owns(fd)) {
    if (io_point(IO_META)) crash_now("ftruncate");
    FdI& f = fds[fd];
    if (G.c.shadow) f.ino->pend.push_back({1, (uint64_t)n, 0, ""});
    f.ino->size = n;
  }
  return (int)ret(raw(SYS_ftruncate, fd, n));
}
extern "C" int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
extern "C" int fallocate(int fd, int mode, off_t o, off_t n) {
  if (active() && fs_owns(fd)) {
    if (mode & 1) return 0;
    if (G.c.shadow && (uint64_t)(o + n) > fds[fd].ino->size) { fds[fd].ino->pend.push_back({1, (uint64_t)(o + n), 0, ""}); }
    if ((uint64_t)(o + n) > fds[fd].ino->size) fds[fd].ino->size = o + n;
  }
  return (int)ret(raw(SYS_fallocate, fd, mode, o, n));
}
extern "C" int fallocate64(int fd, int mode, off64_t o, off64_t n) { return fallocate(fd, mode, o, n); }
extern "C" int posix_fallocate(int fd, off_t o, off_t n) { return fallocate(fd, 0, o, n) ? errno : 0; }

// ------------------------------------------------------------ names
static int do_rename(const char* a, const char* b) {
  PathBuf pa, pb;
  if (!active() || !is_sim(a) || !is_sim(b)) {
    if (active() && (is_sim(a) || is_sim(b))) { errno = EXDEV; return -1; }
    return (int)ret(raw(SYS_rename, (long)a, (long)b));
  }
  stat_add(S_IO_RENAME);
  if (io_point(IO_RENAME)) crash_now("rename");
  if (hit(G.c.p_eio_rename)) return fail(EIO, F_EIO_RENAME, "rename", a);
  Str x = norm(a), y = norm(b);
  // /sim/tmp is a file system of its own when the run asks for it.
  if (G.shm->params[60] && (x.compare(0, 9, "/sim/tmp/") == 0) != (y.compare(0, 9, "/sim/tmp/") == 0)) { errno = EXDEV; return -1; }
  int r = (int)ret(raw(SYS_rename, (long)mapp(a, pa), (long)mapp(b, pb)));
  if (r == 0) {
    auto it = names->find(x);
    if (it != names->end()) { Inode* i = it->second; names->erase(it); (*names)[y] = i; ns(2, x, y, i); mixh(0x21, i->id); }
    else {
      std::vector<std::pair<Str, Inode*>> mv;
      for (auto& kv : *names) if (kv.first.compare(0, x.size() + 1, x + "/") == 0) mv.push_back(kv);
      for (auto& kv : mv) { names->erase(kv.first); (*names)[y + kv.first.substr(x.size())] = kv.second; }
      std::vector<Str> md;
      for (auto& kv : *dirs) if (kv.first == x || kv.first.compare(0, x.size() + 1, x + "/") == 0) md.push_back(kv.first);
      for (auto& k : md) { dirs->erase(k); (*dirs)[y + k.substr(x.size())] = 1; }
      ns(2, x, y, nullptr);
    }
    tr("rename %s -> %s", a, b);
  }
  return r;
}
extern "C" int rename(const char* a, const char* b) { return do_rename(a, b); }
extern "C" int renameat(int, const char* a, int, const char* b) { return do_rename(a, b); }
extern "C" int renameat2(int d1, const char* a, int d2, const char* b, unsigned fl) {
  PathBuf x;
  if (active() && is_sim(b) && (fl & 1) && REAL(access)(mapp(b, x), 0) == 0) { errno = EEXIST; return -1; }
  if (active() && is_sim(a)) return do_rename(a, b);
  return (int)ret(raw(SYS_renameat2, d1, (long)a, d2, (long)b, fl));
}
static int do_unlink(const char* p) {
  PathBuf pb;
  if (!active() || !is_sim(p)) return (int)ret(raw(SYS_unlink, (long)p));
  stat_add(S_IO_UNLINK);
  if (io_point(IO_META)) crash_now("unlink");
  Str s = norm(p);
  int r = (int)ret(raw(SYS_unlink, (long)mapp(p, pb)));
  if (r == 0) {
    auto it = names->find(s);
    if (it != names->end()) { if (G.c.disk_cap != NEVER) G.c.disk_cap += it->second->size; names->erase(it); }
    ns(1, s, "", nullptr);
    tr("unlink %s", p);
  }
  return r;
}
extern "C" int unlink(const char* p) { return do_unlink(p); }
extern "C" int rmdir(const char* p) {
  PathBuf pb;
  bool sm = active() && is_sim(p);
  if (sm && io_point(IO_META)) crash_now("rmdir");
  int r = (int)ret(raw(SYS_rmdir, (long)mapp(p, pb)));
  if (sm && r == 0) { dirs->erase(norm(p)); ns(4, norm(p), "", nullptr); }
  return r;
}
extern "C" int unlinkat(int d, const char* p, int fl) {
  if (active() && is_sim(p)) return fl & AT_REMOVEDIR ? rmdir(p) : do_unlink(p);
  return (int)ret(raw(SYS_unlinkat, d, (long)p, fl));
}
extern "C" int remove(const char* p) {
  if (active() && is_sim(p)) return dirs->count(norm(p)) ? rmdir(p) : do_unlink(p);
  return REAL(remove)(p);
}
extern "C" int mkdir(const char* p, mode_t m) {
  PathBuf pb;
  bool sm = active() && is_sim(p);
  if (sm && io_point(IO_META)) crash_now("mkdir");
  if (sm && hit(G.c.p_eio_open)) return fail(EIO, F_EIO_OPEN, "mkdir", p);
  int r = (int)ret(raw(SYS_mkdir, (long)mapp(p, pb), m));
  if (sm && r == 0) { Str s = norm(p); (*dirs)[s] = 1; ns(3, s, "", nullptr); tr("mkdir %s", p); }
  return r;
}
extern "C" int mkdirat(int d, const char* p, mode_t m) { return active() && is_sim(p) ? mkdir(p, m) : (int)ret(raw(SYS_mkdirat, d, (long)p, m)); }
extern "C" int link(const char* a, const char* b) {
  PathBuf pa, pb;
  bool sm = active() && is_sim(a) && is_sim(b);
  if (sm && io_point(IO_META)) crash_now("link");
  int r = (int)ret(raw(SYS_link, (long)mapp(a, pa), (long)mapp(b, pb)));
  if (sm && r == 0) { Inode* i = (*names)[norm(a)]; (*names)[norm(b)] = i; ns(0, norm(b), "", i); }
  return r;
}
extern "C" int linkat(int d1, const char* a, int d2, const char* b, int fl) {
  if (active() && is_sim(a)) return link(a, b);
  return (int)ret(raw(SYS_linkat, d1, (long)a, d2, (long)b, fl));
}

// ------------------------------------------------------------ metadata
static uint64_t sim_ino(uint64_t real) {
  auto it = inomap->find(real);
  if (it != inomap->end()) return it->second;
  int v = (int)inomap->size() + 100;
  (*inomap)[real] = v;
  return v;
}
static void patch(struct stat* s) {
  s->st_dev = 77; s->st_ino = sim_ino(s->st_ino);
  time_t t = (time_t)((G.now + G.wall_off) / 1000000000);
  s->st_atim = s->st_mtim = s->st_ctim = timespec{t, 0};
}
extern "C" int stat(const char* p, struct stat* s) {
  PathBuf pb; bool sm = active() && is_sim(p);
  if (sm) advance(2000);
  int r = (int)ret(raw(SYS_stat, (long)mapp(p, pb), (long)s));
  if (sm && !r) patch(s);
  return r;
}
extern "C" int lstat(const char* p, struct stat* s) {
  PathBuf pb; bool sm = active() && is_sim(p);
  int r = (int)ret(raw(SYS_lstat, (long)mapp(p, pb), (long)s));
  if (sm && !r) patch(s);
  return r;
}
extern "C" int fstat(int fd, struct stat* s) {
  int r = (int)ret(raw(SYS_fstat, fd, (long)s));
  if (active() && fs_owns(fd) && !r) patch(s);
  return r;
}
extern "C" int fstatat(int d, const char* p, struct stat* s, int fl) {
  // std probes with null pointers, which the declaration forbids.
  asm volatile("" : "+r"(p), "+r"(s));
  PathBuf pb; bool sm = active() && (is_sim(p) || (fs_owns(d) && p[0] == 0));
  int r = (int)ret(raw(SYS_newfstatat, d, (long)mapp(p, pb), (long)s, fl));
  if (sm && !r) patch(s);
  return r;
}
extern "C" int stat64(const char* p, struct stat64* s) { return stat(p, (struct stat*)s); }
extern "C" int lstat64(const char* p, struct stat64* s) { return lstat(p, (struct stat*)s); }
extern "C" int fstat64(int fd, struct stat64* s) { return fstat(fd, (struct stat*)s); }
extern "C" int fstatat64(int d, const char* p, struct stat64* s, int fl) { return fstatat(d, p, (struct stat*)s, fl); }
extern "C" int statx(int d, const char* p, int fl, unsigned mask, struct statx* s) {
  // std probes with null pointers, which the declaration forbids.
  asm volatile("" : "+r"(p), "+r"(s));
  PathBuf pb; bool sm = active() && (is_sim(p) || (p && p[0] == 0 && fs_owns(d)));
  // What Rust's std uses; RocksDB calls stat().
  if (sm && p[0] && hit(G.c.p_eio_stat)) return fail(EIO, F_EIO_STAT, "stat", p);
  int r = (int)ret(raw(SYS_statx, d, (long)mapp(p, pb), fl, mask, (long)s));
  if (sm && !r) {
    s->stx_dev_major = 0; s->stx_dev_minor = 77; s->stx_ino = sim_ino(s->stx_ino);
    int64_t t = (int64_t)((G.now + G.wall_off) / 1000000000);
    s->stx_atime.tv_sec = s->stx_mtime.tv_sec = s->stx_ctime.tv_sec = s->stx_btime.tv_sec = t;
    s->stx_atime.tv_nsec = s->stx_mtime.tv_nsec = s->stx_ctime.tv_nsec = s->stx_btime.tv_nsec = 0;
  }
  return r;
}
extern "C" int access(const char* p, int m) { PathBuf pb; return (int)ret(raw(SYS_access, (long)mapp(p, pb), m)); }
extern "C" int faccessat(int d, const char* p, int m, int f) { PathBuf pb; return (int)ret(raw(SYS_faccessat2, d, (long)mapp(p, pb), m, f)); }
extern "C" int chmod(const char* p, mode_t m) { PathBuf pb; return (int)ret(raw(SYS_chmod, (long)mapp(p, pb), m)); }
extern "C" DIR* opendir(const char* p) {
  PathBuf pb;
  if (active() && is_sim(p)) { io_point(IO_OPEN); if (hit(G.c.p_eio_open)) { fail(EIO, F_EIO_OPEN, "opendir", p); return nullptr; } }
  return REAL(opendir)(mapp(p, pb));
}
extern "C" char* realpath(const char* p, char* o) {
  if (active() && is_sim(p)) { Str s = norm(p); if (!o) o = (char*)malloc(s.size() + 1); strcpy(o, s.c_str()); return o; }
  return REAL(realpath)(p, o);
}
extern "C" int statvfs(const char* p, struct statvfs* s) {
  PathBuf pb;
  int r = REAL(statvfs)(mapp(p, pb), s);
  if (active() && is_sim(p) && !r) { s->f_bsize = s->f_frsize = 4096; s->f_blocks = 1 << 24; s->f_bfree = s->f_bavail = G.c.disk_cap == NEVER ? 1 << 23 : G.c.disk_cap / 4096; s->f_files = 1 << 20; s->f_ffree = s->f_favail = 1 << 19; }
  return r;
}
extern "C" int statvfs64(const char* p, struct statvfs64* s) { return statvfs(p, (struct statvfs*)s); }
extern "C" int fstatfs(int fd, struct statfs* s) {
  int r = (int)ret(raw(SYS_fstatfs, fd, (long)s));
  if (active() && fs_owns(fd) && !r) { s->f_bfree = s->f_bavail = 1 << 23; s->f_blocks = 1 << 24; s->f_type = 0xEF53; memset(&s->f_fsid, 0, sizeof s->f_fsid); s->f_files = 1 << 20; s->f_ffree = 1 << 19; }
  return r;
}
extern "C" int fstatfs64(int fd, struct statfs64* s) { return fstatfs(fd, (struct statfs*)s); }
extern "C" int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (active() && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) {
    int n = (int)ret(raw(SYS_fcntl, fd, cmd, a));
    if (n >= 0 && net_owns(fd)) net_dup(fd, n);
    if (n >= 0 && fs_owns(fd)) { fds[n] = fds[fd]; if (fds[n].path) fds[n].path = new Str(*fds[fd].path); }
    return n;
  }
  return (int)ret(raw(SYS_fcntl, fd, cmd, a));
}
extern "C" int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, a); }
extern "C" int dup(int fd) { return fcntl(fd, F_DUPFD, 0); }

// ------------------------------------------------------------ power loss
// Overwrites the scratch directory with what the disk would hold.
static void wipe(const Str& d) {
  DIR* h = REAL(opendir)(d.c_str());
  if (!h) return;
  std::vector<Str> es;
  while (struct dirent* e = REAL(readdir)(h)) { Str n = e->d_name; if (n != "." && n != "..") es.push_back(n); }
  REAL(closedir)(h);
  for (auto& n : es) {
    Str p = d + "/" + n; struct stat st;
    if (raw(SYS_lstat, (long)p.c_str(), (long)&st)) continue;
    if (S_ISDIR(st.st_mode)) { wipe(p); raw(SYS_rmdir, (long)p.c_str()); } else raw(SYS_unlink, (long)p.c_str());
  }
}
static uint32_t cw(uint32_t n) {  // uniform choice usable after the scheduler has stopped
  return choose_uniform(ST_CRASH, n);
}
void fs_power_image() {
  if (!G.c.shadow) return;
  // Names: a prefix of the journal, at least the forced part.
  size_t extra = journal->size() - ns_durable, keep = ns_durable;
  switch (cw(4)) {
    case 0: keep = journal->size(); break;
    case 1: keep = ns_durable; break;
    default: keep = ns_durable + (extra ? cw((uint32_t)extra + 1) : 0);
  }
  std::map<Str, Inode*> nm = *dnames; std::map<Str, int> dm = *ddirs;
  for (size_t k = 0; k < keep; k++) {
    NsOp& o = (*journal)[k];
    switch (o.kind) {
      case 0: nm[o.a] = (*inodes)[o.ino - 1]; break;
      case 1: nm.erase(o.a); break;
      case 2:
        if (o.ino) { nm.erase(o.a); nm[o.b] = (*inodes)[o.ino - 1]; }
        else {
          std::vector<std::pair<Str, Inode*>> mv;
          for (auto& kv : nm) if (kv.first.compare(0, o.a.size() + 1, o.a + "/") == 0) mv.push_back(kv);
          for (auto& kv : mv) { nm.erase(kv.first); nm[o.b + kv.first.substr(o.a.size())] = kv.second; }
          std::vector<Str> md;
          for (auto& kv : dm) if (kv.first == o.a || kv.first.compare(0, o.a.size() + 1, o.a + "/") == 0) md.push_back(kv.first);
          for (auto& q : md) { dm.erase(q); dm[o.b + q.substr(o.a.size())] = 1; }
        }
        break;
      case 3: dm[o.a] = 1; break;
      case 4: dm.erase(o.a); break;
    }
  }
  if (keep < journal->size()) stat_add(F_LOST_NS, journal->size() - keep);
  // Contents: forced data plus some of the pending writes.
  uint32_t style = cw(4);  // 0 everything kept, 1 nothing pending kept, 2 prefix with torn tail, 3 arbitrary sectors
  std::map<int, Str> content;
  for (auto& kv : nm) {
    Inode* i = kv.second;
    if (content.count(i->id)) continue;
    Str c = i->dur;
    size_t np = i->pend.size();
    if (style == 0) { for (auto& p : i->pend) apply_pend(c, p); }
    else if (style == 1) { for (auto& p : i->pend) if (p.kind == 0) stat_add(F_LOST_BYTES, p.len); }
    else if (style == 2 && np) {
      size_t k = cw((uint32_t)np + 1);
      for (size_t q = 0; q < k; q++) apply_pend(c, i->pend[q]);
      if (k < np && i->pend[k].kind == 0 && i->pend[k].len > 1) {
        Pend p = i->pend[k];
        uint32_t l = cw((uint32_t)p.len);
        if (cw(2)) l &= ~511u;
        p.len = l; p.data.resize(l);
        if (l) { apply_pend(c, p); stat_add(F_POWER_TORN); }
      }
      for (size_t q = k; q < np; q++) if (i->pend[q].kind == 0) stat_add(F_LOST_BYTES, i->pend[q].len);
    } else if (style == 3 && np) {
      // Write-back in any order by 4096-byte page; the size may run ahead of
      // the data, in which case the hole reads as zeroes.
      for (auto& p : i->pend) {
        if (p.kind == 1) { if (cw(2)) apply_pend(c, p); continue; }
        uint64_t pos = p.off, end = p.off + p.len;
        while (pos < end) {
          uint64_t pe = (pos / 4096 + 1) * 4096; if (pe > end) pe = end;
          if (cw(2)) { Pend q{0, pos, pe - pos, p.data.substr(pos - p.off, pe - pos)}; apply_pend(c, q); }
          else stat_add(F_LOST_BYTES, pe - pos);
          pos = pe;
        }
      }
      stat_add(F_POWER_REORDER);
    }
    content[i->id] = c;
  }
  // Did an older log lose something while a newer one kept something? RocksDB
  // does not notice that (see known-findings.txt), so such runs are marked.
  std::map<Str, bool> lostlog;
  for (auto& kv : nm) {
    const Str& f = kv.first;
    size_t sl = f.rfind('/');
    if (f.size() - sl != 11 || f.compare(f.size() - 4, 4, ".log")) continue;
    Str live = kv.second->dur;
    for (auto& p : kv.second->pend) apply_pend(live, p);
    Str& c = content[kv.second->id];
    Str dir = f.substr(0, sl);
    if (!c.empty() && lostlog[dir]) stat_add(F_WAL_HOLE);
    if (c != live) lostlog[dir] = true;
  }
  Str root = G.shm->root;
  wipe(root);
  for (auto& d : dm) if (d.first != "/sim") raw(SYS_mkdir, (long)(root + d.first.substr(4)).c_str(), 0755);
  std::map<int, Str> written;
  for (auto& kv : nm) {
    if (!dm.count(parent(kv.first))) continue;
    Str p = root + kv.first.substr(4);
    int id = kv.second->id;
    if (written.count(id)) { raw(SYS_link, (long)written[id].c_str(), (long)p.c_str()); continue; }
    int fd = (int)raw(SYS_open, (long)p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    if (fd < 0) continue;
    Str& c = content[id];
    size_t k = 0;
    while (k < c.size()) { long r = raw(SYS_write, fd, (long)(c.data() + k), c.size() - k); if (r <= 0) break; k += r; }
    raw(SYS_close, fd);
    written[id] = p;
  }
  tr("power loss image: %zu of %zu name changes, style %u", keep, journal->size(), style);
}
