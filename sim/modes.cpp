// How a case is judged: one or several simulated runs and the comparison of their histories.
#include "gen.h"
#include "session.h"

thread_local Vec<Str> *g_keep_log = nullptr;
sim::Ctx &ctx_for(int i) { static sim::Ctx c[16]; return c[i]; }

static std::map<Str, std::set<Str>> &own() {
  static std::map<Str, std::set<Str>> m = {
    {"C01", {"roundtrip", "announce"}}, {"C02", {"differs", "roundtrip"}}, {"C03", {"iofault", "unchanged", "leak", "roundtrip", "differs", "announce"}}, {"C04", {"damaged", "leak", "alive"}},
    {"C05", {"unchanged", "leak", "alive", "differs"}}, {"C06", {"tuner", "compare"}}, {"C07", {"alive", "content", "leak"}}, {"C08", {"errtrace", "race", "differs"}},
    {"C09", {"sample", "check", "dist"}}, {"C10", {"map", "alive", "leak"}}, {"C11", {"tree"}}, {"C12", {"cb", "unchanged", "leak", "differs"}}, {"C13", {"ftuner"}},
    {"C14", {"differs", "hashcmp"}}, {"C15", {"accept", "space", "differs"}}, {"C17", {"misuse", "differs", "leak", "alive"}}, {"C18", {"paths", "content", "check"}}};
  return m;
}
VMConfig config_for(const Case &c) {
  VMConfig g; g.classes = own()[c.prop]; if (g.classes.empty()) g.classes.insert("none");
  if (c.mode == "oom" || c.mode == "cbfault" || c.mode == "iofault") g.balanced_dyn = true;
  if (c.mode == "ckpt") { g.models = false; g.text_final = false; g.check_alive = false; g.no_destroy_cb = true; }
  if (c.mode == "threads") g.trace_err = true;
  if (c.mode == "plain") g.keep_err = true;
  return g;
}
struct RunOpt { int arena = 0; bool faults = false, inspect = false; int64_t noise = 0; unsigned char fill = 0xA5; bool reuse = false; size_t skew = 0; const std::set<int> *skip = nullptr; };
struct Run { bool bad = false; sim::Violation v; Vec<Str> log; Vec<int> log_op; Vec<sim::Violation> foreign; uint64_t ops = 0, failed = 0, faults = 0; std::set<int> lost, refused; };
static void use(VM &vm) { ut_set_vm(&vm); obj_set_vm(&vm); sim::cur = vm.ctx; }

static Run run_once(const Case &c, const RunOpt &o, std::set<uint64_t> *states) {
  Run r; sim::Ctx &ctx = ctx_for(o.arena); sim::ctx_init(ctx, o.arena); ctx.fill = o.fill; ctx.reuse = o.reuse; ctx.skew = o.skew; sim::cur = &ctx;
  VMConfig g = config_for(c); VM vm(&ctx, g); use(vm); vm.faults_on = o.faults; vm.states = states; vm.release_seed = (uint64_t)c.get("release", 1);
  Case nc; VMConfig ng; ng.models = false; ng.classes.insert("none"); ng.check_alive = false; ng.text_final = false; VM nvm(&ctx, ng); std::unique_ptr<Gen> ngen;
  if (o.noise) { nc.prop = "C14"; nc.mode = "noise"; nc.seed = (uint64_t)o.noise; ngen.reset(new Gen(nvm, nc, (uint64_t)o.noise)); ngen->w = {{"rng", 1}, {"rngop", 2}, {"dist", 2}, {"dsample", 2}, {"param", 3}, {"psample", 2}, {"cspace", 1}, {"csmod", 2}, {"csuse", 2}, {"conf", 2}, {"tuner0", 1}, {"tell", 4}, {"tree", 3}, {"map", 4}, {"ref", 5}, {"bad", 6}, {"ser", 3}}; }
  try {
    for (size_t i = 0; i < c.ops.size(); i++) {
      if (o.skip && o.skip->count((int)i)) continue;
      if (ngen && (hash_str(fmt("%ld/%zu", (long)o.noise, i)) % 3) == 0) { use(nvm); ngen->loop(2); use(vm); }
      if (o.inspect && i % 2) vm.inspect_all();
      vm.exec((int)i, c.ops[i]);
    }
    if (ngen) { use(nvm); nvm.release_all(); use(vm); }
    vm.finish();
  } catch (sim::Violation &v) { r.bad = true; r.v = v; ccs_clear_thread_error(); }
  r.log = vm.log; r.log_op = vm.log_op; r.foreign = vm.foreign; r.ops = vm.executed; r.failed = vm.failed_calls; r.faults = vm.faults_hit; if (vm.sess) r.lost = vm.sess->lost;
  for (size_t i = 0; i < vm.op_failed.size(); i++) if (vm.op_failed[i]) r.refused.insert((int)i);
  return r;
}
// first difference between two histories, restricted to operations `keep` selects
static bool compare_logs(const Run &a, const Run &b, const char *what, sim::Violation &v, const std::function<bool(int)> &keep) {
  size_t i = 0, j = 0;
  for (;;) {
    while (i < a.log.size() && !keep(a.log_op[i])) i++;
    while (j < b.log.size() && !keep(b.log_op[j])) j++;
    if (i >= a.log.size() && j >= b.log.size()) return true;
    Str x = i < a.log.size() ? a.log[i] : "(nothing)", y = j < b.log.size() ? b.log[j] : "(nothing)";
    if (x != y) { int op = i < a.log.size() ? a.log_op[i] : b.log_op[j]; v.cls = "differs"; v.msg = fmt("op %d: %s:\n--- expected\n", op, what) + x + "\n--- got\n" + y; return false; }
    i++; j++;
  }
}
static uint64_t loghash(const Run &r, uint64_t h) { for (auto &s : r.log) h = hash_str(s, h); return h; }
Outcome run_threads(const Case &c, std::set<uint64_t> *states) __attribute__((weak));

Outcome run_case(const Case &c, std::set<uint64_t> *states) {
  Outcome o; auto all = [](int) { return true; };
  if (c.mode == "threads") { if (run_threads) return run_threads(c, states); return o; }
  auto take = [&](const Run &r) { o.hash = loghash(r, o.hash * 31 + 7); o.ops += r.ops; o.failed += r.failed; o.faults += r.faults; for (auto &f : r.foreign) o.foreign.push_back(f); if (r.bad) o.hash = hash_str(r.v.cls + r.v.msg, o.hash); };
  auto fail = [&](const sim::Violation &v) { o.bad = true; o.v = v; };
  if (c.mode == "plain" || c.mode == "damage") { Run r = run_once(c, RunOpt(), states); take(r); if (r.bad) fail(r.v); if (g_keep_log) *g_keep_log = r.log; return o; }
  if (c.mode == "oom" || c.mode == "cbfault" || c.mode == "iofault") {
    Run ref = run_once(c, RunOpt(), states); take(ref); if (ref.bad && ref.v.cls == "cb" && c.prop == "C12") { if (g_keep_log) *g_keep_log = ref.log; fail(ref.v); return o; }   // what callbacks are given does not depend on failures
    if (ref.bad) { o.ref_bad = true; o.foreign.push_back(ref.v); if (g_keep_log) *g_keep_log = ref.log; return o; }
    RunOpt f; f.faults = true; Run r = run_once(c, f, states); take(r); if (g_keep_log) *g_keep_log = r.log; if (r.bad) { fail(r.v); return o; }
    sim::Violation v; if (!compare_logs(ref, r, "after failed calls were repeated the program continues differently from one without failures", v, all)) fail(v);
    return o;
  }
  if (c.mode == "layout") {
    Run ref = run_once(c, RunOpt(), states); take(ref); if (ref.bad) { fail(ref.v); return o; }
    if (g_keep_log) *g_keep_log = ref.log;
    struct { const char *n; RunOpt o; } var[3];
    var[0].n = "with other memory content and addresses the same calls give other results"; var[0].o.fill = (unsigned char)c.get("fill", 0x00); var[0].o.reuse = c.get("reuse", 1); var[0].o.skew = (size_t)c.get("skew", 48);
    var[1].n = "with unrelated objects used in between the same calls give other results"; var[1].o.noise = c.get("noise", 5); var[1].o.fill = 0xFF; var[1].o.reuse = true;
    var[2].n = "with objects inspected in between the same calls give other results"; var[2].o.inspect = true; var[2].o.arena = 1;
    for (auto &x : var) { Run r = run_once(c, x.o, nullptr); take(r); if (r.bad) { fail(r.v); return o; } sim::Violation v; if (!compare_logs(ref, r, x.n, v, all)) { fail(v); return o; } }
    return o;
  }
  if (c.mode == "ckpt") {
    Run m = run_once(c, RunOpt(), states); take(m); if (g_keep_log) *g_keep_log = m.log; if (m.bad) { fail(m.v); return o; }
    std::set<int> skip = m.lost; for (size_t i = 0; i < c.ops.size(); i++) { const char *n = op_table()[c.ops[i].code].name; if (!strcmp(n, "c2_crash") || !strcmp(n, "c2_ckpt")) skip.insert((int)i); }
    RunOpt t; t.skip = &skip; Run w = run_once(c, t, states); take(w); if (w.bad) { fail(w.v); return o; }
    sim::Violation v; if (!compare_logs(w, m, "after crash and restore the tuner answers differently from one that was never interrupted", v, [&](int op) { return op < 0 || !skip.count(op); })) fail(v);
    return o;
  }
  if (c.mode == "twin") {
    Run m = run_once(c, RunOpt(), states); take(m); if (g_keep_log) *g_keep_log = m.log; if (m.bad) { fail(m.v); return o; }
    static const std::set<Str> single = {"cs_add", "cs_dist", "cs_cond", "cs_forb", "cs_rng", "param", "expr", "dist_uni", "dist_norm"}; std::set<int> skip;
    if (c.prop == "C17") { for (size_t i = 0; i < c.ops.size(); i++) if (!strcmp(op_table()[c.ops[i].code].name, "misuse")) skip.insert((int)i); }
    else for (int i : m.refused) { const Op &p = c.ops[(size_t)i]; Str n = op_table()[p.code].name; if (single.count(n) || (n == "sp_add" && p.a.size() == 2) || (n == "os_obj" && p.a.size() == 3)) skip.insert(i); }
    if (skip.empty()) return o;
    RunOpt t; t.skip = &skip; Run w = run_once(c, t, states); take(w); if (w.bad) { fail(w.v); return o; }
    sim::Violation v; if (!compare_logs(w, m, "the program behaves differently from the same program without its refused calls", v, [&](int op) { return op < 0 || !skip.count(op); })) fail(v);
    return o;
  }
  return o;
}
// choose where the faults go, from the fault points counted in a run without faults
void add_faults(Case &c, VM &vm) {
  Rng64 r(c.seed * 77 + 5); int64_t per = c.get("fk", 2); static const int errs[] = {CCS_RESULT_ERROR_INVALID_VALUE, CCS_RESULT_ERROR_OUT_OF_MEMORY, CCS_RESULT_ERROR_EXTERNAL, CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, CCS_RESULT_ERROR_SYSTEM, CCS_RESULT_ERROR_INVALID_OBJECT};
  for (size_t i = 0; i < c.ops.size() && i < vm.op_allocs.size(); i++) {
    Op &o = c.ops[i]; o.faults.clear();
    if (c.mode == "oom") {
      int64_t n = vm.op_allocs[i]; if (!n) continue;
      std::set<int64_t> ks; int64_t want = std::min<int64_t>(n, per); if (n <= per) for (int64_t k = 1; k <= n; k++) ks.insert(k); else while ((int64_t)ks.size() < want) ks.insert(r.chance(25) ? n - r.below(std::min<int64_t>(n, 4)) : r.range(1, n));
      for (int64_t k : ks) o.faults.push_back({F_ALLOC, k, r.chance(15), 0});
    } else if (c.mode == "cbfault") {
      int64_t n = vm.op_cbs[i]; if (!n) continue;
      for (int64_t q = 0; q < std::min<int64_t>(n, per); q++) o.faults.push_back({F_CB, n <= per ? q + 1 : r.range(1, n), errs[r.below(6)], 0});
    } else if (c.mode == "iofault") {
      static const int en[] = {5, 28, 9, 13, 12, 22, 27};   // EIO ENOSPC EBADF EACCES ENOMEM EINVAL EFBIG
      auto &k = vm.op_iok[i];
      for (int q = 0; q < sim::IO_NCALLS; q++) if (k[q] && q != sim::IO_OTHER && q != sim::IO_CLOSE && q != sim::IO_MUNMAP) { int64_t m = std::min<int64_t>(k[q], q == sim::IO_READ || q == sim::IO_WRITE ? per : 1); for (int64_t z = 0; z < m; z++) o.faults.push_back({F_IO, q, k[q] <= per ? z + 1 : r.range(1, k[q]), en[r.below(7)]}); }
      if (k[sim::IO_READ]) { o.faults.push_back({F_IO, 100, 0, 0}); if (k[sim::IO_READ] > 1) o.faults.push_back({F_IO, 100, r.range(1, k[sim::IO_READ] - 1), 0}); }
      if (k[sim::IO_FSTAT]) o.faults.push_back({F_IO, 102, r.chance(30) ? r.range(0, 24) : r.chance(50) ? -r.range(1, 20) : r.range(0, 400), 0});      // the file is shorter than the image
      if (k[sim::IO_MMAP] && k[sim::IO_FTRUNC]) o.faults.push_back({F_IO, 103, 0, 0});                                // the storage refuses a page that was mapped
      if (o.faults.size() > 1 && r.chance(50)) std::swap(o.faults[0], o.faults[(size_t)r.below((int64_t)o.faults.size())]);
    }
  }
}
