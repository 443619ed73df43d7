#include "seam.h"
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <algorithm>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(HAVE_ASAN)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region((void *)(p), (n))
#define UNPOISON(p, n) __asan_unpoison_memory_region((void *)(p), (n))
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif
#if defined(SIM_THREADS)
extern "C" void simthr_point(void);   // scheduler point before a seam call (thread build)
#define SCHED_POINT() simthr_point()
#else
#define SCHED_POINT() ((void)0)
#endif

namespace sim {
thread_local Ctx *cur = nullptr;
Counters g_cnt;
static void (*g_hook)(const char *, const char *) = nullptr;
void set_fatal_hook(void (*h)(const char *, const char *)) { g_hook = h; }
void fatal_violation(const char *cls, const std::string &msg) {
  if (g_hook) g_hook(cls, msg.c_str());
  fprintf(stderr, "FATAL %s: %s\n", cls, msg.c_str());
  _exit(97);
}

static const size_t ARENA = (size_t)256 << 20, MARENA = (size_t)256 << 20;
static const size_t RZ = 32;
static int g_arena_idx_done[64];
// Harness containers must not be seen by a simulated allocation failure: they
// use the real allocator, which this file does not redirect.
void ctx_init(Ctx &c, int idx) {
  if (!c.base) {
    uintptr_t want = 0x200000000000ULL + (uintptr_t)idx * 0x4000000000ULL;
    (void)g_arena_idx_done;
    void *p = mmap((void *)want, ARENA + MARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)want) { perror("arena mmap"); _exit(98); }
    c.base = want; c.cap = ARENA; c.mbase = want + ARENA; c.mcap = MARENA; c.high = 0;
  }
  ctx_reset(c);
}
void ctx_reset(Ctx &c) {
  if (c.high) { UNPOISON(c.base, c.high); POISON(c.base, c.high); }
  if (c.mused) { UNPOISON(c.mbase, c.mused); }
  c.used = 0; c.high = 0; c.mused = 0; c.live.clear(); c.seq = 0; c.freelist.clear(); c.cur_op = 0;
  c.fail_at = 0; c.fail_persist = false; c.nalloc = 0; c.nfired = 0; c.limit = (size_t)48 << 20;
  c.reuse = false; c.skew = 0; c.fill = 0xA5;
  c.files.clear(); c.fds.assign(3, Fd()); for (auto &f : c.fds) f.open = true; c.maps.clear(); c.streams.clear(); c.plan.clear();
  c.fail_call = -1; c.fail_nth = 0; c.fail_errno = 0; c.fail_persistent = false; c.io_calls = 0; c.io_fired = 0; c.io_budget = 0;
  c.stream_eof = false; c.nonblock = false; c.trace.clear(); c.eof_now = false; c.eof_after = 0; c.eof_size = INT64_MIN; c.wb_fail = false; c.zero_writes = 0; c.io_zero = 0;
}
size_t live_count(const Ctx &c) { return c.live.size(); }
int n_open_fds(const Ctx &c) { int n = 0; for (auto &f : c.fds) n += f.open; return n - 3; }
static int new_fd(Ctx &c) {
  for (size_t i = 3; i < c.fds.size(); i++) if (!c.fds[i].open) { c.fds[i] = Fd(); c.fds[i].open = true; return (int)i; }
  c.fds.push_back(Fd()); c.fds.back().open = true; return (int)c.fds.size() - 1;
}
int open_stream(Ctx &c) { int fd = new_fd(c); c.fds[fd].kind = 1; c.fds[fd].rd = c.fds[fd].wr = true; c.streams[fd].clear(); return fd; }

static void *do_alloc(size_t n, bool zero) {
  Ctx *c = cur;
  if (!c) { fprintf(stderr, "alloc outside simulation\n"); _exit(98); }
  c->nalloc++; c->clock_ns += c->alloc_ns;
  if (c->fail_at > 0) {
    if (--c->fail_at == 0) {
      c->nfired++; g_cnt.alloc_fail++;
      if (c->fail_persist) c->fail_at = 1;
      errno = ENOMEM; return nullptr;
    }
  }
  if (n > c->limit) { errno = ENOMEM; return nullptr; }
  size_t sz = (n + 15) & ~(size_t)15; if (!sz) sz = 16;
  uintptr_t p = 0;
  if (c->reuse) {
    auto it = c->freelist.find(sz);
    if (it != c->freelist.end() && !it->second.empty()) { p = it->second.back(); it->second.pop_back(); }
  }
  if (!p) {
    size_t need = sz + 2 * RZ + c->skew * 16;
    if (c->used + need > c->cap) { errno = ENOMEM; return nullptr; }
    p = c->base + c->used + RZ + c->skew * 16;
    UNPOISON(c->base + c->used, need); POISON(c->base + c->used, need);
    c->used += need; if (c->used > c->high) c->high = c->used;
  }
  UNPOISON(p, n);
  memset((void *)p, zero ? 0 : c->fill, n);
  c->live[p] = Block{n, ++c->seq, c->cur_op};
  return (void *)p;
}
static void do_free(void *q) {
  if (!q) return;
  Ctx *c = cur; uintptr_t p = (uintptr_t)q;
  auto it = c->live.find(p);
  if (it == c->live.end()) {
    char b[96]; snprintf(b, sizeof b, "free of invalid or already freed block (arena offset 0x%zx)", (size_t)(p - c->base));
    fatal_violation("memory", b);
  }
  size_t n = it->second.size; c->live.erase(it);
  memset(q, 0xDD, n);
  size_t sz = (n + 15) & ~(size_t)15; if (!sz) sz = 16;
  POISON(p, sz);
  if (c->reuse) c->freelist[sz].push_back(p);
}

// ---- I/O
// returns true if the call must fail now (errno set)
static bool io_enter(int kind) {
  SCHED_POINT(); Ctx *c = cur; c->io_calls++; c->io_kind[kind]++;
  if (c->io_budget && c->io_calls > c->io_budget) fatal_violation("hang", "transfer makes no progress: more than " + std::to_string(c->io_budget) + " system calls in one library call");
  if (c->fail_call == kind && c->fail_nth > 0) {
    if (--c->fail_nth == 0) {
      c->io_fired++; g_cnt.io_err++; g_cnt.io_err_kind[kind]++;
      if (c->fail_persistent) c->fail_nth = 1;
      errno = c->fail_errno; return true;
    }
  }
  return false;
}
static IoDecision next_dec() {
  Ctx *c = cur; if (c->plan.empty()) return {IA_NORMAL, 0};
  IoDecision d = c->plan.front(); c->plan.pop_front(); return d;
}
static bool bad_fd(int fd) { return fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd].open; }
static int do_open(const char *path, int flags) {
  if (io_enter(IO_OPEN)) return -1;
  Ctx *c = cur; auto it = c->files.find(path);
  if (it == c->files.end()) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    c->files[path] = FileData();
  } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (flags & O_TRUNC) c->files[path].data.clear();
  int fd = new_fd(*c); auto &f = c->fds[fd]; f.kind = 0; f.name = path;
  int acc = flags & O_ACCMODE; f.rd = acc == O_RDONLY || acc == O_RDWR; f.wr = acc == O_WRONLY || acc == O_RDWR;
  return fd;
}
static ssize_t xfer(int fd, char *rbuf, const char *wbuf, size_t n, int64_t at) {
  bool w = wbuf != nullptr;
  if (io_enter(w ? IO_WRITE : IO_READ)) return -1;
  if (bad_fd(fd) || (w ? !cur->fds[fd].wr : !cur->fds[fd].rd)) { errno = EBADF; return -1; }
  Ctx *c = cur; Fd &f = c->fds[fd];
  IoDecision d = next_dec();
  if (n == 0) return 0;
  if (!w && c->eof_now && c->eof_after-- <= 0) { c->io_zero++; g_cnt.io_eof++; return 0; }
  if (w && c->zero_writes > 0) { c->zero_writes--; c->io_zero++; g_cnt.io_zero_w++; return 0; }
  if (d.act == IA_EINTR) { c->io_fired++; g_cnt.io_eintr++; errno = EINTR; return -1; }
  if (d.act == IA_EAGAIN && f.kind == 1 && c->nonblock) { c->io_fired++; g_cnt.io_eagain++; errno = EAGAIN; return -1; }
  if (d.act == IA_ZERO && w) { c->io_fired++; g_cnt.io_zero_w++; return 0; }
  size_t m = n;
  if (d.act == IA_SHORT) {
    size_t k = 1 + (size_t)((uint64_t)d.arg % (uint64_t)n);
    if (k < m) { m = k; c->io_fired++; (w ? g_cnt.io_short_w : g_cnt.io_short_r)++; }
  }
  if (f.kind == 1) {
    auto &s = c->streams[fd];
    if (w) { s.insert(s.end(), wbuf, wbuf + m); return (ssize_t)m; }
    if (s.empty()) {
      if (c->stream_eof) { c->io_fired++; g_cnt.io_eof++; return 0; }
      if (c->nonblock) { errno = EAGAIN; return -1; }
      fatal_violation("hang", "blocking read on an empty stream whose object was already complete (reads past the object's bytes)");
    }
    m = std::min(m, s.size());
    std::copy(s.begin(), s.begin() + m, rbuf); s.erase(s.begin(), s.begin() + m);
    return (ssize_t)m;
  }
  auto &data = c->files[f.name].data; size_t pos = at >= 0 ? (size_t)at : f.pos;
  if (w) {
    if (data.size() < pos + m) data.resize(pos + m, 0);
    memcpy(data.data() + pos, wbuf, m);
  } else {
    if (pos >= data.size()) return 0;
    m = std::min(m, data.size() - pos); memcpy(rbuf, data.data() + pos, m);
  }
  if (at < 0) f.pos = pos + m;
  return (ssize_t)m;
}
static int fill_stat(int fd, struct stat *st) {
  if (io_enter(IO_FSTAT)) return -1;
  if (bad_fd(fd)) { errno = EBADF; return -1; }
  memset(st, 0, sizeof *st);
  if (cur->fds[fd].kind == 0) { st->st_mode = S_IFREG | 0644; st->st_size = (off_t)cur->files[cur->fds[fd].name].data.size(); if (int64_t e = cur->eof_size; e != INT64_MIN && st->st_size > 0 && (e = e < 0 ? std::max<int64_t>(0, st->st_size + e) : e) < st->st_size) { st->st_size = e; cur->io_zero++; g_cnt.io_eof++; } }
  else { st->st_mode = S_IFIFO | 0600; }
  st->st_blksize = 4096; st->st_nlink = 1;
  return 0;
}
// pages [from, to) of a shared mapping reach the file; false: the storage refused the last page
static bool writeback(uintptr_t a, Ctx::Mapping &m, size_t from, size_t to) {
  if (!(m.shared && m.write)) return true;
  auto it = cur->files.find(m.name); if (it == cur->files.end()) return true;
  auto &d = it->second.data; to = std::min(to, m.len); size_t last = m.len ? (m.len - 1) & ~(size_t)4095 : 0; bool ok = true;
  if (m.synced.size() != m.len) m.synced.resize(m.len, 0);
  for (size_t i = from; i < to && m.off + i < d.size(); i++) {
    if (cur->wb_fail && i >= last && (!m.synced[i] || d[m.off + i] != ((char *)a)[i])) { ok = false; d[m.off + i] = 0; continue; }
    d[m.off + i] = ((char *)a)[i]; m.synced[i] = 1;
  }
  if (!ok) { cur->io_fired++; g_cnt.io_err++; g_cnt.io_err_kind[IO_MSYNC]++; }
  return ok;
}
static void *do_mmap(size_t len, int prot, int flags, int fd, off_t off) {
  if (io_enter(IO_MMAP)) return MAP_FAILED;
  if (len == 0) { errno = EINVAL; return MAP_FAILED; }
  Ctx *c = cur;
  bool anon = flags & MAP_ANONYMOUS;
  if (!anon && bad_fd(fd)) { errno = EBADF; return MAP_FAILED; }
  if (!anon && (!c->fds[fd].rd || ((flags & MAP_SHARED) && (prot & PROT_WRITE) && !c->fds[fd].wr))) { errno = EACCES; return MAP_FAILED; }
  size_t sz = (len + 4095) & ~(size_t)4095;
  if (len > c->limit || c->mused + sz + 8192 > c->mcap) { errno = ENOMEM; return MAP_FAILED; }
  uintptr_t p = c->mbase + c->mused + 4096; c->mused += sz + 8192;
  UNPOISON(p - 4096, sz + 8192); POISON(p - 4096, 4096); POISON(p + sz, 4096);
  memset((void *)p, 0, sz);
  Ctx::Mapping m; m.len = len; m.shared = flags & MAP_SHARED; m.write = prot & PROT_WRITE; m.off = (size_t)off;
  if (!anon) {
    m.name = c->fds[fd].name; auto &d = c->files[m.name].data;
    size_t avail = d.size() > (size_t)off ? d.size() - off : 0, n = std::min(avail, len);
    if (n) memcpy((void *)p, d.data() + off, n);
    size_t ok = (n + 4095) & ~(size_t)4095;          // SIGBUS beyond the last file page
    if (ok < sz) POISON(p + ok, sz - ok);
  }
  c->maps[p] = m;
  return (void *)p;
}
} // namespace sim
using namespace sim;

extern "C" {
void *sim_malloc(size_t n) { SCHED_POINT(); return do_alloc(n, false); }
void *sim_calloc(size_t a, size_t b) {
  SCHED_POINT();
  size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return do_alloc(n, true);
}
void sim_free(void *p) { SCHED_POINT(); do_free(p); }
void *sim_realloc(void *p, size_t n) {
  SCHED_POINT();
  if (!p) return do_alloc(n, false);
  auto it = cur->live.find((uintptr_t)p);
  if (it == cur->live.end()) fatal_violation("memory", "realloc of invalid or already freed block");
  size_t old = it->second.size;
  if (n == 0) { do_free(p); return nullptr; }
  void *q = do_alloc(n, false);
  if (!q) return nullptr;
  memcpy(q, p, std::min(old, n)); do_free(p);
  return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) {
  size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return sim_realloc(p, n);
}
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)sim_malloc(n); if (r) memcpy(r, s, n); return r; }
char *sim_strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *r = (char *)sim_malloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
int sim_posix_memalign(void **p, size_t, size_t n) { void *q = sim_malloc(n); if (!q) return ENOMEM; *p = q; return 0; }
int sim_vasprintf(char **out, const char *f, va_list ap) {
  va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, f, a2); va_end(a2);
  char *b = (char *)sim_malloc((size_t)n + 1); if (!b) { return -1; }
  vsnprintf(b, (size_t)n + 1, f, ap); *out = b; return n;
}
int sim_asprintf(char **out, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(out, f, ap); va_end(ap); return r; }
void sim_exit(int rc) { fatal_violation("exit", "the library terminated the process: exit(" + std::to_string(rc) + ")"); }
void sim_abort(void) { fatal_violation("exit", "the library aborted the process"); }
void sim_assert_fail(const char *e, const char *f, unsigned l, const char *) { fatal_violation("exit", std::string("assertion failed in library: ") + e + " at " + f + ":" + std::to_string(l)); }

int sim_open(const char *p, int flags, ...) { return do_open(p, flags); }
int sim_close(int fd) {
  if (bad_fd(fd)) fatal_violation("memory", "close of a descriptor that is not open: " + std::to_string(fd));
  bool f = io_enter(IO_CLOSE);
  cur->fds[fd].open = false; cur->streams.erase(fd);   // Linux: the descriptor is gone even when close reports an error
  if (f) return -1;
  return 0;
}
ssize_t sim_read(int fd, void *b, size_t n) { return xfer(fd, (char *)b, nullptr, n, -1); }
ssize_t sim_write(int fd, const void *b, size_t n) { return xfer(fd, nullptr, (const char *)b, n, -1); }
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { return xfer(fd, (char *)b, nullptr, n, o); }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { return xfer(fd, nullptr, (const char *)b, n, o); }
off_t sim_lseek(int fd, off_t o, int wh) {
  if (io_enter(IO_OTHER)) return -1;
  if (bad_fd(fd)) { errno = EBADF; return -1; }
  Fd &f = cur->fds[fd]; if (f.kind) { errno = ESPIPE; return -1; }
  off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)f.pos : (off_t)cur->files[f.name].data.size();
  f.pos = (size_t)(b + o); return b + o;
}
int sim_fstat(int fd, struct stat *st) { return fill_stat(fd, st); }
int sim_stat(const char *p, struct stat *st) {
  if (io_enter(IO_FSTAT)) return -1;
  auto it = cur->files.find(p); if (it == cur->files.end()) { errno = ENOENT; return -1; }
  memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = (off_t)it->second.data.size(); return 0;
}
int sim_ftruncate(int fd, off_t n) {
  if (io_enter(IO_FTRUNC)) return -1;
  if (bad_fd(fd) || !cur->fds[fd].wr) { errno = EBADF; return -1; }
  if (n < 0 || (size_t)n > cur->limit) { errno = EFBIG; return -1; }
  cur->files[cur->fds[fd].name].data.resize((size_t)n, 0);
  for (auto &m : cur->maps) if (m.second.name == cur->fds[fd].name) {      // pages inside the file become accessible
    size_t sz = (m.second.len + 4095) & ~(size_t)4095, ok = std::min(sz, ((size_t)n + 4095) & ~(size_t)4095);
    UNPOISON(m.first, ok); if (ok < sz) POISON(m.first + ok, sz - ok);
  }
  return 0;
}
int sim_posix_fallocate(int fd, off_t o, off_t n) {
  if (io_enter(IO_FTRUNC)) return errno;
  if (bad_fd(fd)) return EBADF;
  auto &d = cur->files[cur->fds[fd].name].data; if (d.size() < (size_t)(o + n)) d.resize((size_t)(o + n), 0); return 0;
}
void *sim_mmap(void *, size_t len, int prot, int flags, int fd, off_t off) { return do_mmap(len, prot, flags, fd, off); }
int sim_munmap(void *p, size_t len) {
  auto it = cur->maps.find((uintptr_t)p);
  if (it == cur->maps.end()) { if (io_enter(IO_MUNMAP)) return -1; errno = EINVAL; return -1; }
  bool f = io_enter(IO_MUNMAP);
  if (f) return -1;
  writeback(it->first, it->second, 0, it->second.len);        // a failing storage is not reported here
  size_t sz = (it->second.len + 4095) & ~(size_t)4095; (void)len;
  POISON(p, sz); cur->maps.erase(it); return 0;
}
int sim_msync(void *p, size_t n, int fl) {
  if (io_enter(IO_MSYNC)) return -1;
  auto it = cur->maps.upper_bound((uintptr_t)p); if (it == cur->maps.begin()) { errno = ENOMEM; return -1; }
  --it; size_t o = (uintptr_t)p - it->first; if (o >= ((it->second.len + 4095) & ~(size_t)4095)) { errno = ENOMEM; return -1; }
  if (o % 4096) { errno = EINVAL; return -1; }
  if (!(fl & MS_SYNC)) return 0;
  if (!writeback(it->first, it->second, o, (o + n + 4095) & ~(size_t)4095)) { errno = EIO; return -1; }
  return 0;
}
int sim_raise(int sig) { fatal_violation("exit", "the library raised signal " + std::to_string(sig)); }
int sim_clock_gettime(int, struct timespec *ts) { uint64_t t = cur ? (cur->clock_ns += cur->clock_step) : 0; ts->tv_sec = (time_t)(t / 1000000000ULL); ts->tv_nsec = (long)(t % 1000000000ULL); return 0; }
int sim_gettimeofday(struct timeval *tv, void *) { struct timespec t; sim_clock_gettime(0, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
time_t sim_time(time_t *p) { struct timespec t; sim_clock_gettime(0, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int sim_fsync(int fd) { if (io_enter(IO_MSYNC)) return -1; if (bad_fd(fd)) { errno = EBADF; return -1; } for (auto &m : cur->maps) if (m.second.name == cur->fds[fd].name && !writeback(m.first, m.second, 0, m.second.len)) { errno = EIO; return -1; } return 0; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_unlink(const char *p) { if (io_enter(IO_OTHER)) return -1; if (!cur->files.erase(p)) { errno = ENOENT; return -1; } return 0; }
int sim_rename(const char *a, const char *b) {
  if (io_enter(IO_OTHER)) return -1;
  auto it = cur->files.find(a); if (it == cur->files.end()) { errno = ENOENT; return -1; }
  cur->files[b] = it->second; cur->files.erase(a); return 0;
}
int sim_fcntl(int fd, int, ...) { if (bad_fd(fd)) { errno = EBADF; return -1; } return 0; }
struct pollfd_ { int fd; short ev, rev; };
int sim_poll(struct pollfd_ *p, unsigned long n, int) { for (unsigned long i = 0; i < n; i++) p[i].rev = p[i].ev; return (int)n; }
}
