// Command line of the simulator: seeded search (work), generation (gen), exact replay (exec).
#include "gen.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include <fstream>
#include <sstream>
#include <gsl/gsl_errno.h>

static Case *g_case = nullptr; static Str g_out; static const char *g_phase = "run"; static Str g_stats_path; static bool g_exec = false;
static void write_file(const Str &p, const Str &t) { FILE *f = fopen(p.c_str(), "w"); if (f) { fwrite(t.data(), 1, t.size(), f); fclose(f); } }
static void report(const Str &cls, const Str &msg) {
  printf("RESULT VIOLATION %s\n%s\n", cls.c_str(), msg.c_str());
  if (!g_exec && g_case && !g_out.empty()) { Str p = g_out + ".case"; write_file(p, case_text(*g_case)); printf("CASE %s\n", p.c_str()); }
  fflush(stdout);
}
Str g_note;
static volatile sig_atomic_t g_dying = 0;
static void fatal(const char *cls, const char *msg) { if (g_dying) _exit(3); g_dying = 1; report(cls, msg); _exit(3); }
static void on_sig(int s) { if (g_dying) _exit(3); g_dying = 1; const char *n = s == SIGVTALRM ? "hang" : "crash"; report(n, s == SIGVTALRM ? "the call did not return within its time bound" : Str("signal ") + strsignal(s)); _exit(3); }
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" const char *__asan_get_report_description(void) __attribute__((weak));
extern "C" int __asan_report_present(void) __attribute__((weak));
static void on_asan(void) { if (g_dying) return; g_dying = 1; const char *d = __asan_get_report_description && __asan_report_present && __asan_report_present() ? __asan_get_report_description() : nullptr; report("memory", Str("memory error: ") + (d ? d : "reported by the sanitizer") + (g_note.empty() ? "" : " in " + g_note)); }
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=3:allocator_may_return_null=1:handle_segv=1:abort_on_error=0:detect_stack_use_after_return=0:quarantine_size_mb=4:malloc_context_size=5"; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static void watchdog(int s) { itimerval t = {{0, 0}, {s, 0}}; setitimer(ITIMER_VIRTUAL, &t, nullptr); }

void setup_case(Case &c, const Str &tier) {           // swarm: configuration of one seed
  Rng64 r(c.seed * 0x1234567ULL + 99); const Str &p = c.prop; bool th = tier == "thorough";
  c.cfg["release"] = r.range(1, 1000000); int64_t len = r.chance(30) ? 20 : r.chance(60) ? 50 : th ? 160 : 90;
  if (p == "C05") { c.mode = "oom"; c.cfg["lists"] = 0; c.cfg["fk"] = th ? 6 : 3; len = std::min<int64_t>(len, 70); c.cfg["badargs"] = r.chance(30); }
  else if (p == "C12") { c.mode = "cbfault"; c.cfg["lists"] = 0; c.cfg["fk"] = th ? 6 : 3; }
  else if (p == "C03") { c.mode = "iofault"; c.cfg["lists"] = 0; c.cfg["fk"] = th ? 5 : 2; c.cfg["io"] = r.chance(50) ? 0 : r.range(10, 70); }
  else if (p == "C02") { c.mode = "ckpt"; c.cfg["io"] = r.chance(40) ? 0 : r.range(10, 70); }
  else if (p == "C14") { c.mode = "layout"; c.cfg["fill"] = r.below(256); c.cfg["reuse"] = r.below(2); c.cfg["skew"] = 16 * r.below(9); c.cfg["noise"] = r.range(1, 1 << 30); }
  else if (p == "C15") { c.mode = "twin"; c.cfg["badargs"] = 1; }
  else if (p == "C17") c.mode = "twin";
  else if (p == "C08") { c.mode = "threads"; }
  else if (p == "C04") { c.mode = "damage"; c.cfg["io"] = r.chance(60) ? 0 : 40; }
  else { c.mode = "plain"; if (p == "C01") c.cfg["io"] = r.chance(25) ? 0 : r.range(10, 90); if (p == "C09") c.cfg["weird"] = r.chance(40); if (p == "C07") c.cfg["badargs"] = r.chance(40); }
  if (!c.cfg.count("lists")) c.cfg["lists"] = r.chance(80);
  c.cfg["len"] = len;
}
struct Stats { uint64_t runs = 0, ops = 0, failed = 0, faults = 0, ref_bad = 0, reruns = 0; std::map<Str, uint64_t> foreign; std::map<Str, Str> fsample; std::map<Str, uint64_t> opmix; };
bool gen_threads(Case &c) __attribute__((weak));
// generation executes the program on a live VM; for plain cases that run is already the check
static bool generate(Case &c, Outcome &o, std::set<uint64_t> *states, bool &decided) {
  decided = false; sim::Ctx &ctx = ctx_for(0); 
  if (c.mode == "threads") return gen_threads && gen_threads(c);
  sim::ctx_init(ctx, 0); sim::cur = &ctx; VMConfig g = config_for(c); bool plain = c.mode == "plain" || c.mode == "damage"; if (!plain && c.mode != "ckpt") g.classes = {"none"};
  VM vm(&ctx, g); ut_set_vm(&vm); obj_set_vm(&vm); if (plain) vm.states = states;
  try { if (!gen_case(c, vm)) return false; if (plain) vm.finish(); } catch (sim::Violation &v) { o.bad = true; o.v = v; ccs_clear_thread_error(); }
  if (plain) { uint64_t h = 0; h = h * 31 + 7; for (auto &s : vm.log) h = hash_str(s, h); if (o.bad) h = hash_str(o.v.cls + o.v.msg, h); o.hash = h; o.ops = vm.executed; o.failed = vm.failed_calls; o.foreign = vm.foreign; decided = true; }
  else { o = Outcome(); add_faults(c, vm); }
  return true;
}
static Str esc(const Str &s) { Str o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) o += fmt("\\u%04x", ch); else o += (char)ch; } return o; }
static void put_counters(Str &s) {
  sim::Counters &g = sim::g_cnt; auto one = [&](const char *n, uint64_t v) { s += fmt(",\"%s\":%lu", n, (unsigned long)v); };
  s += "\"faults\":{\"_\":0"; one("alloc_fail", g.alloc_fail); one("short_read", g.io_short_r); one("short_write", g.io_short_w); one("eintr", g.io_eintr); one("eagain", g.io_eagain); one("io_error", g.io_err); one("unexpected_eof", g.io_eof); one("callback_error", g.cb_fail);
  one("crash_restore", g.crash_restore); one("torn_image", g.torn); one("bitflip", g.bitflip); one("truncation", g.truncation); one("rng_extreme", g.rng_extreme); one("preempt", g.preempt); one("clock_jump", g.clock_jump); one("bad_call", g.bad_call); one("msg_dup", g.msg_dup); one("msg_reorder", g.msg_reorder); one("msg_lost", g.msg_lost); one("msg_fail", g.msg_fail);
  static const char *k[] = {"open", "close", "read", "write", "mmap", "munmap", "msync", "ftruncate", "fstat", "other"}; for (int i = 0; i < sim::IO_NCALLS; i++) if (g.io_err_kind[i]) s += fmt(",\"err_%s\":%lu", k[i], (unsigned long)g.io_err_kind[i]); s += "}";
}
static int cmd_work(int argc, char **argv) {          // prop tier seed0 stride count seconds outprefix
  Str prop = argv[2], tier = argv[3]; uint64_t s0 = strtoull(argv[4], nullptr, 10), stride = strtoull(argv[5], nullptr, 10), count = strtoull(argv[6], nullptr, 10); double secs = atof(argv[7]); g_out = argv[8]; bool hashes = argc > 9;
  std::set<uint64_t> states; Stats st; double t0 = now(); std::map<Str, uint64_t> mix; Str samples; uint64_t nviol = 0; 
  for (uint64_t k = 0; k < count && now() - t0 < secs; k++) {
    Case c; c.prop = prop; c.seed = s0 + k * stride; g_case = &c; setup_case(c, tier); watchdog(60); Outcome o; bool decided = false;
    if (!generate(c, o, &states, decided)) { fprintf(stderr, "no generator for %s\n", prop.c_str()); return 98; }
    if (!decided) o = run_case(c, &states);
    watchdog(0); st.runs++; st.ops += o.ops; st.failed += o.failed; st.faults += o.faults; st.ref_bad += o.ref_bad;
    for (auto &f : o.foreign) { if (!st.foreign[f.cls]++) st.fsample[f.cls] = fmt("seed %lu: ", (unsigned long)c.seed) + f.msg.substr(0, 600); }
    for (auto &x : c.ops) mix[op_table()[x.code].name]++; for (auto &q : c.sub) for (auto &x : q.ops) mix[op_table()[x.code].name]++;
    if (hashes) printf("HASH %lu %016lx\n", (unsigned long)c.seed, (unsigned long)o.hash);
    if (k < 2) { Str t; int n = 0; for (auto &x : c.ops) if (n++ < 12) t += Str(n > 1 ? "; " : "") + op_table()[x.code].name; samples += fmt("%s\"seed %lu mode %s: %s ...\"", samples.empty() ? "" : ",", (unsigned long)c.seed, c.mode.c_str(), t.c_str()); }
    if (o.bad) { nviol++; report(o.v.cls, o.v.msg); break; }
  }
  Str s = "{"; s += fmt("\"runs\":%lu,\"ops\":%lu,\"failed_calls\":%lu,\"faults_in_calls\":%lu,\"ref_bad\":%lu,\"wall\":%.3f,", (unsigned long)st.runs, (unsigned long)st.ops, (unsigned long)st.failed, (unsigned long)st.faults, (unsigned long)st.ref_bad, now() - t0); put_counters(s);
  s += ",\"foreign\":{"; bool first = true; for (auto &x : st.foreign) { s += fmt("%s\"%s\":[%lu,\"%s\"]", first ? "" : ",", x.first.c_str(), (unsigned long)x.second, esc(st.fsample[x.first]).c_str()); first = false; } s += "},\"opmix\":{"; first = true; for (auto &x : mix) { s += fmt("%s\"%s\":%lu", first ? "" : ",", x.first.c_str(), (unsigned long)x.second); first = false; } s += "},\"samples\":[" + samples + "]}\n";
  write_file(g_out + ".json", s); Str b; for (auto h : states) b.append((char *)&h, 8); write_file(g_out + ".states", b);
  return nviol ? 3 : 0;
}
// GSL calls the handler of the process where it fails, and the one it starts with ends the process. What ccs_init() leaves is noted;
// from then on running out of memory is an error like any other if the library saw to that, and any other failure is the library's mistake.
static bool g_gsl_aborts;
static void on_gsl(const char *why, const char *, int, int no) {
  if (no == GSL_ENOMEM && !g_gsl_aborts) return;
  fatal("crash", (Str("GSL reports '") + why + "', which ends the process by default").c_str());
}
int main(int argc, char **argv) {
  ccs_init(); g_gsl_aborts = gsl_set_error_handler(on_gsl) == nullptr; sim::set_fatal_hook(fatal); if (__asan_set_death_callback) __asan_set_death_callback(on_asan);
  signal(SIGVTALRM, on_sig); if (!__asan_set_death_callback) { signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig); } signal(SIGABRT, on_sig); signal(SIGFPE, on_sig);
  Str cmd = argc > 1 ? argv[1] : "";
  if (cmd == "work" && argc >= 9) return cmd_work(argc, argv);
  if (cmd == "gen" && argc >= 5) { Case c; c.prop = argv[2]; c.seed = strtoull(argv[4], nullptr, 10); setup_case(c, argv[3]); g_case = &c; g_out = argc > 5 ? argv[5] : "/dev/null"; Outcome o; bool d; watchdog(60); generate(c, o, nullptr, d); printf("%s", case_text(c).c_str()); if (o.bad) { printf("# %s %s\n", o.v.cls.c_str(), o.v.msg.c_str()); return 3; } return 0; }
  if (cmd == "exec" && argc >= 3) {
    std::ifstream f(argv[2]); std::stringstream b; b << f.rdbuf(); Case c; Str err; if (!case_parse(b.str(), c, err)) { fprintf(stderr, "%s\n", err.c_str()); return 98; }
    g_exec = true; g_case = &c; Vec<Str> log; bool verbose = argc > 3; if (verbose) g_keep_log = &log; watchdog(60); Outcome o = run_case(c, nullptr); watchdog(0);
    if (verbose) for (auto &l : log) printf("LOG %s\n", l.c_str());
    for (auto &x : o.foreign) if (verbose) printf("OTHER %s %s\n", x.cls.c_str(), x.msg.c_str());
    printf("HASH %016lx\n", (unsigned long)o.hash);
    if (o.bad) { report(o.v.cls, o.v.msg); return 3; }
    printf("RESULT OK\n"); return 0;
  }
  fprintf(stderr, "usage: work|gen|exec\n"); return 98;
}
