// In-memory disk behind the C library's file interface.
//
// std::fstream ends up in fopen/read/write/writev/lseek/fclose of libc; those calls are redirected to this disk while a
// simulation is active. Every call is counted; a plan of faults says which call fails, is cut short, is interrupted,
// is delayed or never happens because the process stops. What was handed over by completed write calls survives a stop.
#include "rt_internal.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <stdarg.h>
#include <string>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <vector>

namespace rt {

struct Node { std::string data; bool dir = false; };
struct Open { std::shared_ptr<Node> node; uint64_t pos = 0; bool rd = false, wr = false, append = false, used = false, eof_forced = false; std::string path; };

static std::map<std::string, std::shared_ptr<Node>>* g_fs;
static std::vector<Open>* g_open;
static std::vector<qs_fault>* g_faults;
static int64_t g_capacity = -1;
static Rng g_drng;
static int g_short_permille = 0, g_eintr_permille = 0;
static uint64_t g_ops[QS_OP_COUNT], g_all_ops, g_fired[QS_F_KIND_COUNT], g_written;
static const int FD0 = 1000000;

static void ensure() {
  if (g_fs) return;
  g_fs = new std::map<std::string, std::shared_ptr<Node>>;
  g_open = new std::vector<Open>;
  g_faults = new std::vector<qs_fault>;
}
static std::string norm(const char* p) {
  std::string s(p);
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '/' && !o.empty() && o.back() == '/') continue;
    if (s[i] == '.' && (o.empty() || o.back() == '/') && (i + 1 == s.size() || s[i + 1] == '/')) { ++i; continue; }
    o += s[i];
  }
  while (o.size() > 1 && o.back() == '/') o.pop_back();
  return o;
}
static std::string parent(const std::string& p) { size_t k = p.rfind('/'); return k == std::string::npos ? "" : k == 0 ? "/" : p.substr(0, k); }
static bool dir_exists(const std::string& d) {
  if (d.empty() || d == "/") return true;
  auto it = g_fs->find(d);
  return it != g_fs->end() && it->second->dir;
}
static int64_t used_bytes() { int64_t n = 0; for (auto& e : *g_fs) n += static_cast<int64_t>(e.second->data.size()); return n; }

static bool ours_path(const char* p) {
  if (!simulated() || !p) return false;
  static const char* real[] = { "/proc/", "/sys/", "/etc/", "/usr/", "/lib", "/dev/" };
  for (auto r : real) if (strncmp(p, r, strlen(r)) == 0) return false;
  return true;
}
static bool ours_fd(int fd) { return fd >= FD0; }
static Open* open_of(int fd) {
  size_t k = static_cast<size_t>(fd - FD0);
  if (!g_open || k >= g_open->size() || !(*g_open)[k].used) return nullptr;
  return &(*g_open)[k];
}

static const qs_fault* next_fault(int op) {
  const int64_t mine = static_cast<int64_t>(g_ops[op]++), all = static_cast<int64_t>(g_all_ops++);
  trace(static_cast<uint64_t>(all), 0x6000 | static_cast<uint64_t>(op));
  for (auto& f : *g_faults) {
    if (f.op >= 0 && f.op != op) continue;
    const int64_t k = f.op >= 0 ? mine : all;
    if (k == f.nth || (f.sticky && k > f.nth)) {
      // the kind must make sense for the operation
      if (f.kind == QS_F_EOF && op != QS_OP_READ) continue;
      if (f.kind == QS_F_SHORT && op != QS_OP_READ && op != QS_OP_WRITE) continue;
      if (f.kind == QS_F_EINTR && op != QS_OP_READ && op != QS_OP_WRITE) continue;
      return &f;
    }
  }
  return nullptr;
}
static void crash() {
  trace(g_all_ops, 0x6F00);
  if (g_crash) { g_in_rt = false; g_crash(); }
  _exit(98);
}
// common part; returns true when the call is decided (errno set, result -1)
static bool common_fault(const qs_fault* f) {
  if (!f) return false;
  ++g_fired[f->kind];
  trace(static_cast<uint64_t>(f->kind), 0x6100);
  switch (f->kind) {
    case QS_F_ERROR: errno = static_cast<int>(f->arg); return true;
    case QS_F_EINTR: errno = EINTR; return true;
    case QS_F_STALL: clock_advance_ns(static_cast<uint64_t>(f->arg) * 1000000ull); return false;
    default: return false;
  }
}

static int d_open(const char* path, bool rd, bool wr, bool create, bool trunc, bool append, bool excl) {
  sync_point(20);
  RtScope s;
  ensure();
  const qs_fault* f = next_fault(QS_OP_OPEN);
  if (f && f->kind == QS_F_CRASH) { ++g_fired[QS_F_CRASH]; crash(); }
  if (common_fault(f)) return -1;
  std::string p = norm(path);
  auto it = g_fs->find(p);
  if (it != g_fs->end() && it->second->dir) { if (wr) { errno = EISDIR; return -1; } }
  if (it == g_fs->end()) {
    if (!create || !dir_exists(parent(p))) { errno = ENOENT; return -1; }
    it = g_fs->emplace(p, std::make_shared<Node>()).first;
  } else if (excl && create) { errno = EEXIST; return -1; }
  if (trunc && wr) it->second->data.clear();
  Open o; o.node = it->second; o.rd = rd; o.wr = wr; o.append = append; o.used = true; o.path = p;
  for (size_t i = 0; i < g_open->size(); ++i) if (!(*g_open)[i].used) { (*g_open)[i] = o; return FD0 + static_cast<int>(i); }
  g_open->push_back(o);
  return FD0 + static_cast<int>(g_open->size()) - 1;
}

static ssize_t d_read(int fd, void* buf, size_t n) {
  sync_point(21);
  RtScope s;
  Open* o = open_of(fd);
  if (!o || !o->rd) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  const qs_fault* f = next_fault(QS_OP_READ);
  if (f && f->kind == QS_F_CRASH) { ++g_fired[QS_F_CRASH]; crash(); }
  if (common_fault(f)) return -1;
  if (f && f->kind == QS_F_EOF) { o->eof_forced = true; }
  if (o->eof_forced) return 0;
  if (!f && g_drng.permille(g_eintr_permille)) { ++g_fired[QS_F_EINTR]; errno = EINTR; return -1; }
  if (o->node->dir) { errno = EISDIR; return -1; }
  if (o->pos >= o->node->data.size()) return 0;
  size_t k = o->node->data.size() - o->pos;
  if (k > n) k = n;
  if (f && f->kind == QS_F_SHORT) { size_t m = f->arg > 0 ? static_cast<size_t>(f->arg) : 1; if (m < k) k = m; }
  else if (k > 1 && g_drng.permille(g_short_permille)) { ++g_fired[QS_F_SHORT]; k = 1 + g_drng.below(k < 64 || (g_drng.next() & 1) ? k : 64); }
  if (k > o->node->data.size() - o->pos) k = o->node->data.size() - o->pos;
  memcpy(buf, o->node->data.data() + o->pos, k);
  o->pos += k;
  return static_cast<ssize_t>(k);
}

static ssize_t d_write(int fd, const void* buf, size_t n) {
  sync_point(22);
  RtScope s;
  Open* o = open_of(fd);
  if (!o || !o->wr) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  const qs_fault* f = next_fault(QS_OP_WRITE);
  if (common_fault(f)) return -1;
  if (!f && g_drng.permille(g_eintr_permille)) { ++g_fired[QS_F_EINTR]; errno = EINTR; return -1; }
  size_t k = n;
  if (f && f->kind == QS_F_SHORT) { size_t m = f->arg > 0 ? static_cast<size_t>(f->arg) : 1; if (m < k) k = m; }
  else if (f && f->kind == QS_F_CRASH) { size_t m = f->arg > 0 ? static_cast<size_t>(f->arg) : 0; if (m < k) k = m; }
  else if (k > 1 && g_drng.permille(g_short_permille)) { ++g_fired[QS_F_SHORT]; k = 1 + g_drng.below(k < 64 || (g_drng.next() & 1) ? k : 64); if (k > n) k = n; }
  if (o->append) o->pos = o->node->data.size();
  if (g_capacity >= 0) {
    const uint64_t end = o->pos + k;
    const int64_t grow = end > o->node->data.size() ? static_cast<int64_t>(end - o->node->data.size()) : 0;
    const int64_t room = g_capacity - used_bytes();
    if (grow > room) {
      const int64_t fit = static_cast<int64_t>(k) - (grow - (room > 0 ? room : 0));
      if (fit <= 0) { ++g_fired[QS_F_ERROR]; errno = ENOSPC; return -1; }
      k = static_cast<size_t>(fit);
      ++g_fired[QS_F_ERROR]; // the rest cannot be stored any more
    }
  }
  if (o->node->data.size() < o->pos + k) o->node->data.resize(o->pos + k, '\0');
  memcpy(&o->node->data[o->pos], buf, k);
  o->pos += k;
  g_written += k;
  if (f && f->kind == QS_F_CRASH) { ++g_fired[QS_F_CRASH]; crash(); }
  return static_cast<ssize_t>(k);
}

static int d_close(int fd) {
  sync_point(23);
  RtScope s;
  Open* o = open_of(fd);
  if (!o) { errno = EBADF; return -1; }
  // only closing a file that was written can lose something
  const bool wr = o->wr;
  const qs_fault* f = wr ? next_fault(QS_OP_CLOSE) : nullptr;
  if (f && f->kind == QS_F_CRASH) { ++g_fired[QS_F_CRASH]; crash(); }
  *o = Open{};
  if (common_fault(f)) return -1;
  return 0;
}

static int64_t d_seek(int fd, int64_t off, int whence) {
  RtScope s;
  Open* o = open_of(fd);
  if (!o) { errno = EBADF; return -1; }
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<int64_t>(o->pos) : static_cast<int64_t>(o->node->data.size());
  if (base + off < 0) { errno = EINVAL; return -1; }
  o->pos = static_cast<uint64_t>(base + off);
  return static_cast<int64_t>(o->pos);
}

static void fill_stat(struct stat* st, const Node& n) {
  memset(st, 0, sizeof(*st));
  st->st_mode = n.dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  st->st_size = static_cast<off_t>(n.data.size());
  st->st_nlink = 1; st->st_blksize = 4096;
}

// stdio on top of the disk
struct Cookie { int fd; };
static std::map<FILE*, int>* g_files;
static ssize_t c_read(void* c, char* b, size_t n) { return d_read(static_cast<Cookie*>(c)->fd, b, n); }
static ssize_t c_write(void* c, const char* b, size_t n) { ssize_t r = d_write(static_cast<Cookie*>(c)->fd, b, n); return r < 0 ? 0 : r; }
static int c_seek(void* c, off64_t* o, int w) { int64_t r = d_seek(static_cast<Cookie*>(c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int c_close(void* c) { Cookie* k = static_cast<Cookie*>(c); int r = d_close(k->fd); free(k); return r; }

static bool parse_mode(const char* m, bool& rd, bool& wr, bool& cr, bool& tr, bool& ap, bool& ex) {
  rd = wr = cr = tr = ap = ex = false;
  switch (*m) { case 'r': rd = true; break; case 'w': wr = cr = tr = true; break; case 'a': wr = cr = ap = true; break; default: return false; }
  for (const char* p = m + 1; *p; ++p) { if (*p == '+') rd = wr = true; if (*p == 'x') ex = true; }
  return true;
}
static FILE* d_fopen(const char* path, const char* mode) {
  bool rd, wr, cr, tr, ap, ex;
  if (!parse_mode(mode, rd, wr, cr, tr, ap, ex)) { errno = EINVAL; return nullptr; }
  int fd = d_open(path, rd, wr, cr, tr, ap, ex);
  if (fd < 0) return nullptr;
  RtScope s;
  Cookie* c = static_cast<Cookie*>(malloc(sizeof(Cookie)));
  c->fd = fd;
  cookie_io_functions_t io = { c_read, c_write, c_seek, c_close };
  FILE* f = fopencookie(c, mode, io);
  if (!f) { free(c); return nullptr; }
  if (!g_files) g_files = new std::map<FILE*, int>;
  (*g_files)[f] = fd;
  return f;
}

} // namespace rt

using namespace rt;

template<class F> static F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

QS_EXPORT FILE* fopen(const char* p, const char* m) {
  if (ours_path(p)) return d_fopen(p, m);
  static auto f = real<FILE* (*)(const char*, const char*)>("fopen");
  return f(p, m);
}
QS_EXPORT FILE* fopen64(const char* p, const char* m) {
  if (ours_path(p)) return d_fopen(p, m);
  static auto f = real<FILE* (*)(const char*, const char*)>("fopen64");
  return f(p, m);
}
QS_EXPORT int fclose(FILE* h) {
  if (g_files) {
    RtScope s;
    g_files->erase(h);
  }
  static auto f = real<int (*)(FILE*)>("fclose");
  return f(h);
}
QS_EXPORT int fileno(FILE* h) noexcept {
  if (g_files) { auto it = g_files->find(h); if (it != g_files->end()) return it->second; }
  static auto f = real<int (*)(FILE*)>("fileno");
  return f(h);
}
static int v_open(const char* p, int fl, mode_t m) {
  (void)m;
  const int acc = fl & O_ACCMODE;
  return d_open(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, fl & O_EXCL);
}
#define OPEN_BODY(NAME) \
  mode_t m = 0; \
  if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = static_cast<mode_t>(va_arg(ap, int)); va_end(ap); } \
  if (ours_path(p)) return v_open(p, fl, m); \
  static auto f = real<int (*)(const char*, int, ...)>(NAME); \
  return f(p, fl, m);
QS_EXPORT int open(const char* p, int fl, ...) { OPEN_BODY("open") }
QS_EXPORT int open64(const char* p, int fl, ...) { OPEN_BODY("open64") }
QS_EXPORT int creat(const char* p, mode_t m) {
  if (ours_path(p)) return v_open(p, O_WRONLY | O_CREAT | O_TRUNC, m);
  static auto f = real<int (*)(const char*, mode_t)>("creat");
  return f(p, m);
}
QS_EXPORT int close(int fd) {
  if (ours_fd(fd)) return d_close(fd);
  static auto f = real<int (*)(int)>("close");
  return f(fd);
}
QS_EXPORT ssize_t read(int fd, void* b, size_t n) {
  if (ours_fd(fd)) return d_read(fd, b, n);
  static auto f = real<ssize_t (*)(int, void*, size_t)>("read");
  return f(fd, b, n);
}
QS_EXPORT ssize_t write(int fd, const void* b, size_t n) {
  if (ours_fd(fd)) return d_write(fd, b, n);
  static auto f = real<ssize_t (*)(int, const void*, size_t)>("write");
  return f(fd, b, n);
}
QS_EXPORT ssize_t writev(int fd, const struct iovec* v, int n) {
  if (!ours_fd(fd)) { static auto f = real<ssize_t (*)(int, const struct iovec*, int)>("writev"); return f(fd, v, n); }
  std::string all;
  { RtScope s; for (int i = 0; i < n; ++i) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len); }
  ssize_t r = d_write(fd, all.data(), all.size());
  { RtScope s; std::string().swap(all); }
  return r;
}
QS_EXPORT ssize_t readv(int fd, const struct iovec* v, int n) {
  if (!ours_fd(fd)) { static auto f = real<ssize_t (*)(int, const struct iovec*, int)>("readv"); return f(fd, v, n); }
  return n > 0 ? d_read(fd, v[0].iov_base, v[0].iov_len) : 0;
}
QS_EXPORT off_t lseek(int fd, off_t o, int w) noexcept {
  if (ours_fd(fd)) return d_seek(fd, o, w);
  static auto f = real<off_t (*)(int, off_t, int)>("lseek");
  return f(fd, o, w);
}
QS_EXPORT off64_t lseek64(int fd, off64_t o, int w) noexcept {
  if (ours_fd(fd)) return d_seek(fd, o, w);
  static auto f = real<off64_t (*)(int, off64_t, int)>("lseek64");
  return f(fd, o, w);
}
QS_EXPORT int fstat(int fd, struct stat* st) noexcept {
  if (ours_fd(fd)) { Open* o = open_of(fd); if (!o) { errno = EBADF; return -1; } fill_stat(st, *o->node); return 0; }
  static auto f = real<int (*)(int, struct stat*)>("fstat");
  return f(fd, st);
}
QS_EXPORT int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
static int path_stat(const char* p, struct stat* st) {
  RtScope s;
  ensure();
  std::string k = norm(p);
  auto it = g_fs->find(k);
  if (it == g_fs->end()) { errno = ENOENT; return -1; }
  fill_stat(st, *it->second);
  return 0;
}
QS_EXPORT int stat(const char* p, struct stat* st) noexcept {
  if (ours_path(p)) return path_stat(p, st);
  static auto f = real<int (*)(const char*, struct stat*)>("stat");
  return f(p, st);
}
QS_EXPORT int stat64(const char* p, struct stat64* st) noexcept { return stat(p, reinterpret_cast<struct stat*>(st)); }
QS_EXPORT int lstat(const char* p, struct stat* st) noexcept {
  if (ours_path(p)) return path_stat(p, st);
  static auto f = real<int (*)(const char*, struct stat*)>("lstat");
  return f(p, st);
}
QS_EXPORT int access(const char* p, int m) noexcept {
  if (ours_path(p)) { struct stat st; return path_stat(p, &st); }
  static auto f = real<int (*)(const char*, int)>("access");
  return f(p, m);
}
QS_EXPORT int mkdir(const char* p, mode_t m) noexcept {
  if (!ours_path(p)) { static auto f = real<int (*)(const char*, mode_t)>("mkdir"); return f(p, m); }
  RtScope s;
  ensure();
  std::string k = norm(p);
  if (g_fs->count(k)) { errno = EEXIST; return -1; }
  if (!dir_exists(parent(k))) { errno = ENOENT; return -1; }
  auto n = std::make_shared<Node>(); n->dir = true;
  (*g_fs)[k] = n;
  return 0;
}
QS_EXPORT int rename(const char* a, const char* b) noexcept {
  if (!ours_path(a)) { static auto f = real<int (*)(const char*, const char*)>("rename"); return f(a, b); }
  sync_point(24);
  RtScope s;
  ensure();
  const qs_fault* f = next_fault(QS_OP_RENAME);
  if (f && f->kind == QS_F_CRASH) { ++g_fired[QS_F_CRASH]; crash(); }
  if (common_fault(f)) return -1;
  auto it = g_fs->find(norm(a));
  if (it == g_fs->end()) { errno = ENOENT; return -1; }
  auto n = it->second;
  g_fs->erase(it);
  (*g_fs)[norm(b)] = n;
  return 0;
}
QS_EXPORT int unlink(const char* p) noexcept {
  if (!ours_path(p)) { static auto f = real<int (*)(const char*)>("unlink"); return f(p); }
  sync_point(25);
  RtScope s;
  ensure();
  const qs_fault* f = next_fault(QS_OP_UNLINK);
  if (f && f->kind == QS_F_CRASH) { ++g_fired[QS_F_CRASH]; crash(); }
  if (common_fault(f)) return -1;
  if (!g_fs->erase(norm(p))) { errno = ENOENT; return -1; }
  return 0;
}
QS_EXPORT int remove(const char* p) noexcept {
  if (ours_path(p)) return unlink(p);
  static auto f = real<int (*)(const char*)>("remove");
  return f(p);
}
QS_EXPORT int fsync(int fd) {
  if (!ours_fd(fd)) { static auto f = real<int (*)(int)>("fsync"); return f(fd); }
  sync_point(26);
  RtScope s;
  const qs_fault* f = next_fault(QS_OP_SYNC);
  if (f && f->kind == QS_F_CRASH) { ++g_fired[QS_F_CRASH]; crash(); }
  return common_fault(f) ? -1 : 0;
}
QS_EXPORT int fdatasync(int fd) {
  if (!ours_fd(fd)) { static auto f = real<int (*)(int)>("fdatasync"); return f(fd); }
  return fsync(fd);
}
QS_EXPORT int ftruncate(int fd, off_t n) noexcept {
  if (!ours_fd(fd)) { static auto f = real<int (*)(int, off_t)>("ftruncate"); return f(fd, n); }
  RtScope s;
  Open* o = open_of(fd);
  if (!o || !o->wr) { errno = EBADF; return -1; }
  o->node->data.resize(static_cast<size_t>(n), '\0');
  return 0;
}
QS_EXPORT int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
  if (!ours_fd(fd)) { static auto f = real<int (*)(int, unsigned long, ...)>("ioctl"); return f(fd, req, a); }
  errno = ENOTTY;
  return -1;
}
QS_EXPORT int poll(struct pollfd* p, nfds_t n, int t) {
  if (n >= 1 && ours_fd(p[0].fd)) { p[0].revents = p[0].events; return 1; }
  static auto f = real<int (*)(struct pollfd*, nfds_t, int)>("poll");
  return f(p, n, t);
}

// ------------------------------------------------------------------------------------------------ control
QS_EXPORT void qs_disk_reset(void) { RtScope s; ensure(); g_fs->clear(); for (auto& o : *g_open) o = Open{}; g_faults->clear(); g_capacity = -1; g_short_permille = g_eintr_permille = 0; }
QS_EXPORT void qs_disk_set_faults(const qs_fault* f, size_t n, int64_t cap, uint64_t seed, int shortpm, int eintrpm) {
  RtScope s; ensure();
  g_faults->assign(f, f + n);
  g_capacity = cap; g_drng.seed(seed ^ 0xD15C); g_short_permille = shortpm; g_eintr_permille = eintrpm;
  memset(g_ops, 0, sizeof(g_ops)); g_all_ops = 0; memset(g_fired, 0, sizeof(g_fired)); g_written = 0;
}
QS_EXPORT void qs_disk_put(const char* p, const void* d, size_t n) {
  RtScope s; ensure();
  auto k = std::make_shared<Node>(); k->data.assign(static_cast<const char*>(d), n);
  (*g_fs)[norm(p)] = k;
}
QS_EXPORT int qs_disk_get(const char* p, const void** d, size_t* n) {
  RtScope s; ensure();
  auto it = g_fs->find(norm(p));
  if (it == g_fs->end() || it->second->dir) return 0;
  *d = it->second->data.data(); *n = it->second->data.size();
  return 1;
}
QS_EXPORT int qs_disk_exists(const char* p) { RtScope s; ensure(); return g_fs->count(norm(p)) > 0; }
QS_EXPORT void qs_disk_mkdir(const char* p) { RtScope s; ensure(); auto n = std::make_shared<Node>(); n->dir = true; (*g_fs)[norm(p)] = n; }
QS_EXPORT void qs_disk_remove(const char* p) { RtScope s; ensure(); g_fs->erase(norm(p)); }
QS_EXPORT size_t qs_disk_list(const char** out, size_t max) { RtScope s; ensure(); size_t k = 0; for (auto& e : *g_fs) if (!e.second->dir && k < max) out[k++] = e.first.c_str(); return k; }
QS_EXPORT uint64_t qs_disk_ops(int op) { return op < 0 ? g_all_ops : g_ops[op]; }
QS_EXPORT uint64_t qs_disk_fired(int k) { return g_fired[k]; }
QS_EXPORT size_t qs_disk_open_fds(void) { size_t k = 0; if (g_open) for (auto& o : *g_open) k += o.used; return k; }
QS_EXPORT uint64_t qs_disk_bytes_written(void) { return g_written; }
