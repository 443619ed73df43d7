// Thread property: several programs, one per thread, under a seeded scheduler.
// The library is compiled with -fsanitize=thread instrumentation; this file is the
// runtime behind that instrumentation: every memory access of the library is a point
// where the scheduler may move to another thread, and accesses to process-wide library
// memory go through a happens-before race detector. Threads are real (the library's
// thread-local state is real) but exactly one runs at any time.
#include "gen.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <elf.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <stdarg.h>
#include <condition_variable>
#include <mutex>
#include <thread>

extern "C" char __start_ccsdata[] __attribute__((weak)), __stop_ccsdata[] __attribute__((weak)), __start_ccsbss[] __attribute__((weak)), __stop_ccsbss[] __attribute__((weak));

namespace {
const int MAXT = 4;
// ---- names of library functions and variables (for reports and error traces) -----------
struct Sym { uintptr_t a; size_t n; const char *s; bool fn; };
Vec<Sym> &syms() {
  static Vec<Sym> v; static bool done = false; if (done) return v; done = true;
  int fd = ::open("/proc/self/exe", O_RDONLY); struct stat st; if (fd < 0 || fstat(fd, &st)) return v;
  char *m = (char *)::mmap(nullptr, (size_t)st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); ::close(fd); if (m == MAP_FAILED) return v;
  auto *eh = (Elf64_Ehdr *)m; auto *sh = (Elf64_Shdr *)(m + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) {
    auto *s = (Elf64_Sym *)(m + sh[i].sh_offset); const char *str = m + sh[sh[i].sh_link].sh_offset; size_t n = sh[i].sh_size / sizeof *s;
    for (size_t k = 0; k < n; k++) { int t = ELF64_ST_TYPE(s[k].st_info); if ((t == STT_FUNC || t == STT_OBJECT) && s[k].st_value) v.push_back({(uintptr_t)s[k].st_value, (size_t)s[k].st_size, str + s[k].st_name, t == STT_FUNC}); }
  }
  std::sort(v.begin(), v.end(), [](const Sym &a, const Sym &b) { return a.a < b.a; });
  return v;
}
const char *sym_of(uintptr_t a) {
  auto &v = syms(); size_t lo = 0, hi = v.size(); while (lo < hi) { size_t mid = (lo + hi) / 2; if (v[mid].a <= a) lo = mid + 1; else hi = mid; }
  while (lo > 0) { const Sym &s = v[lo - 1]; if (a < s.a + std::max<size_t>(s.n, 1)) return s.s; if (a - s.a > (1 << 20)) break; lo--; if (v.size() - lo > 64 && a - v[lo].a > 65536) break; }
  return "?";
}

// ---- scheduler -----------------------------------------------------------------------------
struct Thr {
  int id = 0; bool started = false, done = false; const void *wait = nullptr; uintptr_t stlo = 0, sthi = 0, alo = 0, ahi = 0;
  uint64_t steps = 0; uint32_t vc[MAXT] = {0}; int depth = 0; uintptr_t fn[64]; uintptr_t api = 0; std::set<uintptr_t> second; std::condition_variable cv;
};
struct Shadow { uint32_t w[MAXT], r[MAXT]; uintptr_t wpc, rpc; };
struct Sched {
  Thr t[MAXT]; int n = 0, cur = -1; bool active = false, race = false; const Vec<int32_t> *plan = nullptr; size_t pi = 0; int64_t left = -1; bool hot = false; int target = 0;
  std::mutex m; std::condition_variable main_cv; uint64_t total = 0; uint64_t switches = 0, trace = 1469598103934665603ULL;
  std::set<uintptr_t> written;              // process-wide library bytes written while a program ran alone
  Vec<Shadow> sh; std::map<uintptr_t, std::array<uint32_t, MAXT>> sync; std::map<const void *, int> owner; std::map<const void *, int> once;
} S;
thread_local Thr *me = nullptr; thread_local int busy = 0;
struct Busy { Busy() { busy++; } ~Busy() { busy--; } };

void next_decision() {
  if (S.plan && S.pi < S.plan->size()) { int32_t v = (*S.plan)[S.pi++]; S.left = v / 16; S.hot = (v & 8) != 0; S.target = v & 7; } else S.left = -1;
}
bool runnable(int i) { return S.t[i].started && !S.t[i].done && !S.t[i].wait; }
void hand_to(std::unique_lock<std::mutex> &l, int i) {
  S.cur = i; S.t[i].cv.notify_one(); Thr *x = me; while (S.cur != x->id) x->cv.wait(l);
}
void yield_now(bool forced) {               // called by the running thread
  Vec<int> o; for (int k = 1; k < S.n; k++) { int i = (me->id + k) % S.n; if (runnable(i)) o.push_back(i); }
  if (o.empty()) { if (forced) sim::fatal_violation("hang", "every thread waits for a lock"); return; }
  int to = o[(size_t)S.target % o.size()]; S.switches++; sim::g_cnt.preempt++;
  S.trace = (S.trace ^ (uint64_t)(to + 1)) * 1099511628211ULL; S.trace = (S.trace ^ (me->depth && me->depth <= 64 ? me->fn[me->depth - 1] : 1)) * 1099511628211ULL;
  std::unique_lock<std::mutex> l(S.m); hand_to(l, to);
}
void point(bool hot) {
  if (!me || busy || !S.active) return;
  me->steps++; S.total++;
  if (S.left < 0 || (S.hot && !hot)) return;
  if (S.left-- > 0) return;
  int t = S.target; next_decision(); int nt = S.target; S.target = t; yield_now(false); (void)nt; 
  if (S.pi && S.plan) S.target = S.left >= 0 ? ((*S.plan)[S.pi - 1] & 7) : 0;
}
inline bool in_lib(uintptr_t a, size_t &off) {
  uintptr_t d0 = (uintptr_t)__start_ccsdata, d1 = (uintptr_t)__stop_ccsdata, b0 = (uintptr_t)__start_ccsbss, b1 = (uintptr_t)__stop_ccsbss;
  if (a >= d0 && a < d1) { off = a - d0; return true; }
  if (a >= b0 && a < b1) { off = a - b0 + (d1 - d0); return true; }
  return false;
}
size_t lib_size() { return (size_t)(__stop_ccsdata - __start_ccsdata) + (size_t)(__stop_ccsbss - __start_ccsbss); }
Str where(uintptr_t pc) { return sym_of(pc); }
void race(uintptr_t a, bool w, uintptr_t pc, int other, bool ow, uintptr_t opc) {
  Busy b; sim::fatal_violation("race", fmt("unordered accesses to library memory %s: thread %d %s in %s, thread %d %s in %s", sym_of(a), me->id, w ? "writes" : "reads", where(pc).c_str(), other, ow ? "wrote" : "read", where(opc).c_str()));
}
void access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  if (!me || busy || !S.active) return;
  if (a >= me->stlo && a < me->sthi) return;
  if (a >= me->alo && a < me->ahi) { point(false); return; }
  size_t off;
  if (in_lib(a, off)) {
    bool hot = w || S.written.count(a);
    point(hot);
    if (!S.race) { if (w) for (size_t i = 0; i < n; i++) S.written.insert(a + i); return; }
    int t = me->id;
    for (size_t i = 0; i < n && off + i < S.sh.size(); i++) {
      Shadow &s = S.sh[off + i];
      for (int u = 0; u < S.n; u++) {
        if (u == t) continue;
        if (s.w[u] > me->vc[u]) race(a + i, w, pc, u, true, s.wpc);
        if (w && s.r[u] > me->vc[u]) race(a + i, w, pc, u, false, s.rpc);
      }
      if (w) { s.w[t] = me->vc[t]; s.wpc = pc; } else { s.r[t] = me->vc[t]; s.rpc = pc; }
    }
    return;
  }
  for (int u = 0; u < S.n; u++) if (u != me->id && a >= S.t[u].alo && a < S.t[u].ahi) {
    Busy b; sim::fatal_violation("race", fmt("thread %d %s memory that belongs to thread %d's objects, in %s", me->id, w ? "writes" : "reads", u, where(pc).c_str()));
  }
  point(false);                             // thread-local or caller-owned memory
}
void acquire(uintptr_t a) { auto it = S.sync.find(a); if (it != S.sync.end()) for (int u = 0; u < MAXT; u++) me->vc[u] = std::max(me->vc[u], it->second[(size_t)u]); }
void release(uintptr_t a) { auto &v = S.sync[a]; for (int u = 0; u < MAXT; u++) v[(size_t)u] = std::max(v[(size_t)u], me->vc[u]); me->vc[me->id]++; }
void sync_access(const volatile void *p) { if (!me || busy || !S.active) return; point(true); acquire((uintptr_t)p); release((uintptr_t)p); }
} // namespace

// ---- instrumentation runtime ---------------------------------------------------------------
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void simthr_point(void) { point(false); }
void __tsan_init(void) {}
void __tsan_func_entry(void *) {
  if (!me || busy || !S.active) return;
  uintptr_t pc = PC; if (me->depth < 64) me->fn[me->depth] = pc;
  me->depth++; if (me->depth == 1) { me->api = pc; me->second.clear(); } else if (me->depth == 2) me->second.insert(pc);
  point(false);
}
void __tsan_func_exit(void) { if (!me || busy || !S.active) return; if (me->depth > 0) me->depth--; }
#define RW(N) void __tsan_read##N(void *p) { access((uintptr_t)p, N, false, PC); } void __tsan_write##N(void *p) { access((uintptr_t)p, N, true, PC); } \
  void __tsan_unaligned_read##N(void *p) { access((uintptr_t)p, N, false, PC); } void __tsan_unaligned_write##N(void *p) { access((uintptr_t)p, N, true, PC); } \
  void __tsan_read_write##N(void *p) { access((uintptr_t)p, N, false, PC); access((uintptr_t)p, N, true, PC); } void __tsan_unaligned_read_write##N(void *p) { access((uintptr_t)p, N, false, PC); access((uintptr_t)p, N, true, PC); } \
  void __tsan_volatile_read##N(void *p) { access((uintptr_t)p, N, false, PC); } void __tsan_volatile_write##N(void *p) { access((uintptr_t)p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { access((uintptr_t)p, n, true, PC); }
void __tsan_vptr_update(void **p, void *) { access((uintptr_t)p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, false, PC); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { if (n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { if (n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { if (n) access((uintptr_t)d, n, true, PC); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) { if (me && S.active) sync_access(&S); }
void __tsan_atomic_signal_fence(int) {}
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T *p, int) { sync_access(p); return *p; } void __tsan_atomic##B##_store(volatile T *p, T v, int) { sync_access(p); *p = v; } \
  T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { sync_access(p); T o = *p; *p = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { sync_access(p); T o = *p; *p = (T)(o + v); return o; } T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { sync_access(p); T o = *p; *p = (T)(o - v); return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { sync_access(p); T o = *p; *p = (T)(o & v); return o; } T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { sync_access(p); T o = *p; *p = (T)(o | v); return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) { sync_access(p); T o = *p; *p = (T)(o ^ v); return o; } T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int) { sync_access(p); T o = *p; *p = (T)~(o & v); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { sync_access(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, a, b); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int, int) { sync_access(p); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ---- locks the library might use: scheduler-aware, with ordering -------------------------
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!me || !S.active) { return 0; }
  point(true); while (S.owner.count(m)) { if (S.owner[m] == me->id) return 35; me->wait = m; S.target = 0; yield_now(true); }
  S.owner[m] = me->id; acquire((uintptr_t)m); return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { if (!me || !S.active) return 0; point(true); if (S.owner.count(m)) return 16; S.owner[m] = me->id; acquire((uintptr_t)m); return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { if (!me || !S.active) return 0; release((uintptr_t)m); S.owner.erase(m); for (int i = 0; i < S.n; i++) if (S.t[i].wait == m) S.t[i].wait = nullptr; point(true); return 0; }
int sim_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *) { return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return sim_pthread_mutex_lock((pthread_mutex_t *)m); }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return sim_pthread_mutex_lock((pthread_mutex_t *)m); }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *m) { return sim_pthread_mutex_unlock((pthread_mutex_t *)m); }
int sim_pthread_spin_lock(pthread_spinlock_t *m) { return sim_pthread_mutex_lock((pthread_mutex_t *)m); }
int sim_pthread_spin_unlock(pthread_spinlock_t *m) { return sim_pthread_mutex_unlock((pthread_mutex_t *)m); }
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (!me || !S.active) { if (!*(int *)o) { *(int *)o = 2; f(); } return 0; }
  sim_pthread_mutex_lock((pthread_mutex_t *)o); if (*(int *)o != 2) { f(); *(int *)o = 2; } sim_pthread_mutex_unlock((pthread_mutex_t *)o); return 0;
}
// ---- libc string functions, so that accesses through them are seen ---------------------------
static void rdn(const void *p, size_t n, uintptr_t pc) { if (n) access((uintptr_t)p, n, false, pc); }
static void wrn(void *p, size_t n, uintptr_t pc) { if (n) access((uintptr_t)p, n, true, pc); }
size_t sim_t_strlen(const char *s) { size_t n = strlen(s); rdn(s, n + 1, PC); return n; }
int sim_t_strcmp(const char *a, const char *b) { rdn(a, strlen(a) + 1, PC); rdn(b, strlen(b) + 1, PC); return strcmp(a, b); }
int sim_t_strncmp(const char *a, const char *b, size_t n) { rdn(a, strnlen(a, n), PC); rdn(b, strnlen(b, n), PC); return strncmp(a, b, n); }
int sim_t_memcmp(const void *a, const void *b, size_t n) { rdn(a, n, PC); rdn(b, n, PC); return memcmp(a, b, n); }
char *sim_t_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; rdn(s, n, PC); wrn(d, n, PC); return strcpy(d, s); }
char *sim_t_strncpy(char *d, const char *s, size_t n) { rdn(s, strnlen(s, n), PC); wrn(d, n, PC); return strncpy(d, s, n); }
char *sim_t_strcat(char *d, const char *s) { rdn(s, strlen(s) + 1, PC); wrn(d + strlen(d), strlen(s) + 1, PC); return strcat(d, s); }
int sim_t_vsnprintf(char *d, size_t n, const char *f, va_list ap) { int r = vsnprintf(d, n, f, ap); if (d && n && r >= 0) wrn(d, std::min(n, (size_t)r + 1), PC); return r; }
int sim_t_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(d, n, f, ap); va_end(ap); if (d && n && r >= 0) wrn(d, std::min(n, (size_t)r + 1), PC); return r; }
int sim_t_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(d, f, ap); va_end(ap); if (r >= 0) wrn(d, (size_t)r + 1, PC); return r; }
static struct { int (*c)(const void *, const void *); } qs;
void sim_t_qsort(void *b, size_t n, size_t w, int (*c)(const void *, const void *)) { wrn(b, n * w, PC); qsort(b, n, w, c); (void)qs; }
// what the last library call of this thread was (for error traces)
bool simthr_api(Str &api, std::set<Str> &second) { if (!me || !me->api) return false; Busy b; api = sym_of(me->api); for (auto a : me->second) second.insert(sym_of(a)); return true; }
}

// ---- running programs ------------------------------------------------------------------------
static Vec<char> g_image; static bool g_ready = false;
static void lib_restore() {                // process-wide library memory as it is after ccs_init
  size_t d = (size_t)(__stop_ccsdata - __start_ccsdata), b = (size_t)(__stop_ccsbss - __start_ccsbss);
  if (!g_ready) { g_ready = true; if (ccs_init() < 0) { fprintf(stderr, "ccs_init failed\n"); _exit(98); } g_image.resize(d + b); memcpy(g_image.data(), __start_ccsdata, d); memcpy(g_image.data() + d, __start_ccsbss, b); syms(); }
  memcpy(__start_ccsdata, g_image.data(), d); memcpy(__start_ccsbss, g_image.data() + d, b);
}
struct TRes { bool bad = false; sim::Violation v; Vec<Str> log; Vec<int> log_op; Vec<sim::Violation> foreign; uint64_t ops = 0, failed = 0, steps = 0; };
static void run_sub(const Case &c, int arena, TRes &r) {
  sim::Ctx &ctx = ctx_for(arena); { Busy b; sim::ctx_init(ctx, arena); } sim::cur = &ctx;
  VMConfig g = config_for(c); g.classes.insert("leak");
  VM vm(&ctx, g); ut_set_vm(&vm); obj_set_vm(&vm); vm.release_seed = (uint64_t)c.get("release", 1);
  try { for (size_t i = 0; i < c.ops.size(); i++) vm.exec((int)i, c.ops[i]); vm.finish(); } catch (sim::Violation &v) { r.bad = true; r.v = v; ccs_clear_thread_error(); }
  r.log = vm.log; r.log_op = vm.log_op; r.foreign = vm.foreign; r.ops = vm.executed; r.failed = vm.failed_calls;
}
static void thread_main(Thr *t, const Case *c, int arena, TRes *r) {
  { std::unique_lock<std::mutex> l(S.m); pthread_attr_t a; void *lo; size_t n; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &lo, &n); pthread_attr_destroy(&a);
    char here; t->sthi = (uintptr_t)lo + n; t->stlo = (uintptr_t)lo; (void)here;
    // thread-local storage lies at the top of the stack mapping: do not count it as stack
    uintptr_t f = (uintptr_t)__builtin_frame_address(0); t->sthi = f + 512; t->started = true; S.main_cv.notify_one(); while (S.cur != t->id) t->cv.wait(l); }
  me = t; run_sub(*c, arena, *r); r->steps = t->steps; me = nullptr;
  std::unique_lock<std::mutex> l(S.m); t->done = true; int nx = -1;
  for (int k = 1; k < S.n; k++) { int i = (t->id + k) % S.n; if (runnable(i)) { nx = i; break; } }
  if (nx >= 0) { S.cur = nx; S.t[nx].cv.notify_one(); }
  else { bool stuck = false; for (int i = 0; i < S.n; i++) if (!S.t[i].done) stuck = true; if (stuck) sim::fatal_violation("hang", "a thread waits for a lock that is never released"); S.cur = -2; S.main_cv.notify_one(); }
}
static void run_set(const Vec<const Case *> &cs, const Vec<int> &arenas, const Vec<int32_t> *plan, bool race, Vec<TRes> &res) {
  S.n = (int)cs.size(); S.cur = -1; S.plan = plan; S.pi = 0; S.left = -1; S.race = race; S.total = 0; S.switches = 0; S.trace = 1469598103934665603ULL; S.sync.clear(); S.owner.clear();
  if (race) S.sh.assign(lib_size(), Shadow()); else S.sh.clear();
  lib_restore(); res.assign(cs.size(), TRes());
  Vec<std::thread> th;
  for (int i = 0; i < S.n; i++) {
    Thr &t = S.t[i]; t.id = i; t.started = t.done = false; t.wait = nullptr; t.steps = 0; t.depth = 0; t.api = 0; t.second.clear(); for (int u = 0; u < MAXT; u++) t.vc[u] = u == i ? 1 : 0;
    sim::Ctx &ctx = ctx_for(arenas[(size_t)i]); sim::ctx_init(ctx, arenas[(size_t)i]); t.alo = ctx.base; t.ahi = ctx.base + ctx.cap + ctx.mcap;
  }
  for (int i = 0; i < S.n; i++) th.emplace_back(thread_main, &S.t[i], cs[(size_t)i], arenas[(size_t)i], &res[(size_t)i]);
  { std::unique_lock<std::mutex> l(S.m); for (;;) { bool all = true; for (int i = 0; i < S.n; i++) all = all && S.t[i].started; if (all) break; S.main_cv.wait(l); }
    S.active = true; S.target = 0; next_decision(); S.cur = 0; S.t[0].cv.notify_one(); while (S.cur != -2) S.main_cv.wait(l); }
  for (auto &x : th) x.join(); S.active = false;
}
// programs for the threads, then a schedule shaped by what the programs touch when run alone
bool gen_threads(Case &c) {
  Rng64 r(c.seed * 0x9e3779b97f4a7c15ULL + 808); int n = (int)r.range(2, r.chance(30) ? 4 : 2); int64_t len = r.range(4, r.chance(30) ? 40 : 16); bool same = r.chance(25); lib_restore();
  for (int i = 0; i < n; i++) {
    Case k; k.prop = "C08"; k.mode = "threads"; k.seed = same ? c.seed : c.seed * 7 + (uint64_t)i; k.cfg["len"] = len; k.cfg["release"] = r.range(1, 1000000); k.cfg["badargs"] = r.chance(60); k.cfg["lists"] = 1;
    sim::Ctx &ctx = ctx_for(1 + i); sim::ctx_init(ctx, 1 + i); sim::cur = &ctx; VMConfig g = config_for(k); g.classes = {"none"}; VM vm(&ctx, g); ut_set_vm(&vm); obj_set_vm(&vm);
    try { if (!gen_case(k, vm)) return false; vm.release_all(); } catch (sim::Violation &) { ccs_clear_thread_error(); }
    c.sub.push_back(k);
  }
  S.written.clear(); uint64_t tot = 0;
  for (int i = 0; i < n; i++) { Vec<TRes> res; run_set({&c.sub[(size_t)i]}, {1 + i}, nullptr, false, res); tot += res[0].steps; }
  auto put = [&](int64_t gap, bool hot) { gap = std::min<int64_t>(gap, 1 << 26); c.sched.push_back((int32_t)(gap * 16 + (hot ? 8 : 0) + r.below(n - 1))); };
  bool hot = !S.written.empty(); int64_t T = std::max<int64_t>((int64_t)tot, 10); int style = (int)r.below(hot ? 6 : 4);
  auto geo = [&](int64_t mean) { return (int64_t)(-std::log((double)(r.below(1000000) + 1) / 1000001.0) * (double)mean); };
  if (style == 0) { int d = (int)r.range(1, 6); Vec<int64_t> at; for (int i = 0; i < d; i++) at.push_back(r.below(T)); std::sort(at.begin(), at.end()); int64_t p = 0; for (auto a : at) { put(a - p, false); p = a; } }
  else if (style == 1) { int64_t mean = 1 + r.below(T / 20 + 2); for (int64_t p = 0; p < T && c.sched.size() < 300;) { int64_t g = geo(mean); put(g, false); p += g; } }
  else if (style == 2) { put(r.below(T), false); int k = (int)r.range(20, 250); for (int i = 0; i < k; i++) put(r.below(4), false); }             // dense burst
  else if (style == 3) { int64_t mean = 1 + T / 60; for (int i = 0; i < 60; i++) { put(geo(mean), false); int k = (int)r.below(6); for (int j = 0; j < k; j++) put(r.below(30), false); } }
  else { int k = (int)r.range(1, 40); for (int i = 0; i < k; i++) put(r.below(style == 4 ? 3 : 40), true); }
  return true;
}
Outcome run_threads(const Case &c, std::set<uint64_t> *states) {
  Outcome o; int n = (int)c.sub.size(); if (n > MAXT) n = MAXT; if (n < 1) return o;
  Vec<TRes> solo((size_t)n), par; Vec<const Case *> cs; Vec<int> ar; S.written.clear();
  auto fail = [&](const sim::Violation &v, int t) { if (!o.bad) { o.bad = true; o.v = v; o.v.msg = fmt("thread %d: ", t) + v.msg; } };
  for (int i = 0; i < n; i++) {
    Vec<TRes> x; const_cast<Case &>(c.sub[(size_t)i]).prop = "C08"; const_cast<Case &>(c.sub[(size_t)i]).mode = "threads";
    run_set({&c.sub[(size_t)i]}, {1 + i}, nullptr, false, x); solo[(size_t)i] = x[0]; cs.push_back(&c.sub[(size_t)i]); ar.push_back(1 + i);
    TRes &s = solo[(size_t)i]; for (auto &f : s.foreign) o.foreign.push_back(f); o.ops += s.ops; o.failed += s.failed;
    if (s.bad) { if (s.v.cls == "leak") { o.foreign.push_back(s.v); } else { fail(s.v, i); return o; } }
  }
  run_set(cs, ar, &c.sched, true, par); uint64_t h = 7;
  if (states) states->insert(S.trace);
  for (int i = 0; i < n; i++) {
    TRes &a = solo[(size_t)i], &b = par[(size_t)i]; o.ops += b.ops; o.failed += b.failed; for (auto &s : b.log) h = hash_str(s, h);
    if (g_keep_log) for (auto &s : b.log) g_keep_log->push_back(fmt("T%d ", i) + s);
    if (b.bad && !a.bad) { sim::Violation v = b.v; if (v.cls == "leak") v.cls = "differs"; fail(v, i); }
    for (size_t k = 0; k < std::max(a.log.size(), b.log.size()); k++) {
      Str x = k < a.log.size() ? a.log[k] : "(nothing)", y = k < b.log.size() ? b.log[k] : "(nothing)"; if (x == y) continue;
      fail({"differs", fmt("op %d: next to other threads the same calls give other results:\n--- alone\n", k < a.log_op.size() ? a.log_op[k] : -1) + x + "\n--- together\n" + y}, i); break;
    }
  }
  o.hash = h ^ S.trace; o.faults = S.switches; if (o.bad) o.hash = hash_str(o.v.cls + o.v.msg, o.hash);
  return o;
}
