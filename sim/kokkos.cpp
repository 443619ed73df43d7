// Kokkos connector: the simulated Kokkos runtime and clock around the real connector and library.
#include "seam.h"
#include <cconfigspace.h>
#include <impl/Kokkos_Profiling_Interface.hpp>
#include <gsl/gsl_errno.h>
#include <gsl/gsl_rng.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include <stdarg.h>
#include <string.h>
#include <math.h>
#include <memory>
#include <array>
#include <set>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
using namespace Kokkos::Tools::Experimental;
typedef std::string Str; template <class T> using Vec = std::vector<T>;
extern "C" {
void kokkosp_provide_tool_programming_interface(uint32_t, ToolProgrammingInterface);
void kokkosp_request_tool_settings(uint32_t, ToolSettings *);
void kokkosp_begin_parallel_for(const char *, const uint32_t, uint64_t *); void kokkosp_end_parallel_for(const uint64_t);
void kokkosp_begin_parallel_scan(const char *, const uint32_t, uint64_t *); void kokkosp_end_parallel_scan(const uint64_t);
void kokkosp_begin_parallel_reduce(const char *, const uint32_t, uint64_t *); void kokkosp_end_parallel_reduce(const uint64_t);
void kokkosp_init_library(const int, const uint64_t, const uint32_t, void *); void kokkosp_finalize_library();
void kokkosp_declare_input_type(const char *, const size_t, VariableInfo *); void kokkosp_declare_output_type(const char *, const size_t, VariableInfo *);
void kokkosp_request_values(size_t, size_t, VariableValue *, size_t, VariableValue *); void kokkosp_begin_context(size_t); void kokkosp_end_context(size_t);
}
static Str fmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static uint64_t hs(const Str &s, uint64_t h = 1469598103934665603ULL) { for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; return h; }
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x) {} uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  int64_t below(int64_t n) { return n <= 0 ? 0 : (int64_t)(next() % (uint64_t)n); } int64_t range(int64_t a, int64_t b) { return a + below(b - a + 1); } bool chance(int p) { return below(100) < p; } };

struct Op { Str name; Vec<int64_t> a; };
struct Case { Str prop = "C16", mode = "kokkos"; uint64_t seed = 0; Vec<Op> ops; };
static Str case_text(const Case &c) { Str s = fmt("case %s %s %lu\n", c.prop.c_str(), c.mode.c_str(), (unsigned long)c.seed); for (auto &o : c.ops) { s += "op " + o.name; for (auto x : o.a) s += fmt(" %ld", (long)x); s += "\n"; } return s; }
static bool case_parse(const Str &t, Case &c) { std::istringstream in(t); Str l; while (std::getline(in, l)) { std::istringstream q(l); Str w; if (!(q >> w) || w[0] == '#') continue; if (w == "case") q >> c.prop >> c.mode >> c.seed; else if (w == "op") { Op o; q >> o.name; int64_t v; while (q >> v) o.a.push_back(v); c.ops.push_back(o); } } return true; }

static const size_t CUTOFF = 500;
struct Var {
  bool out = false; size_t id = 0; Str name; int type = 0, cat = 0, quant = 0; Vec<int64_t> si; Vec<double> sd; Vec<Str> ss; Vec<std::array<char, 64>> sbuf; double lo = 0, hi = 0, step = 0; bool ol = false, oh = false; VariableInfo info;
};
struct Region { Vec<size_t> in, out; };
struct Meas { Str conf; int64_t t; };
struct RState { size_t told = 0; bool conv = false; std::map<Str, Vec<Meas>> by; };
struct Open { size_t id; std::set<size_t> reg; Str feat, conf; bool conv; uint64_t t0; std::map<Str, Str> fv, cv; };
static uint64_t g_fences = 0; static Vec<uint32_t> g_fdev; static void fence_cb(const uint32_t dev) { g_fences++; g_fdev.push_back(dev); }
struct Told { int64_t elapsed; Str conf, feat; int n; };
static Vec<Told> g_told;
struct Sim;
static Sim *g_sim = nullptr;
struct Bad { Str cls, msg; };

struct Sim {
  sim::Ctx &ctx; std::map<size_t, std::shared_ptr<Var>> vars; std::map<int64_t, Region> regions; std::map<std::set<size_t>, RState> st; Vec<Open> stack; struct K { int type; uint64_t id; uint32_t dev; }; Vec<K> kern; size_t nextctx = 1; bool up = false; Str where;
  uint64_t events = 0, requests = 0, measured = 0, suggested = 0, fences = 0, hash = 7; uint64_t clock0 = 0; std::set<uint64_t> *states = nullptr; bool log = false; Str logtext; uint64_t slow = 0;
  Sim(sim::Ctx &c) : ctx(c) {}
  void bad(const Str &cls, const Str &m) { throw Bad{cls, where + ": " + m}; }
  void note(const Str &s) { hash = hs(s, hash); if (log) logtext += s + "\n"; }
  void init() { kokkosp_init_library(0, KOKKOSP_INTERFACE_VERSION, 0, nullptr); ToolProgrammingInterface p; memset(&p, 0, sizeof p); p.fence = fence_cb; kokkosp_provide_tool_programming_interface(1, p); ToolSettings ts; memset(&ts, 0, sizeof ts); ts.requires_global_fencing = true; kokkosp_request_tool_settings(1, &ts); if (ts.requires_global_fencing) bad("fence", "the connector asks for global fencing"); up = true; }
  bool measuring() { for (auto &o : stack) if (!o.conv) return true; return false; }
  Str val(const Var &v, const VariableValue &x) { if (v.type == 0) return fmt("%.17g", x.value.double_value); if (v.type == 1) return fmt("%ld", (long)x.value.int_value); return Str(x.value.string_value, strnlen(x.value.string_value, 64)); }
  Str dval(const ccs_datum_t &d) { switch (d.type) { case CCS_DATA_TYPE_INT: return fmt("%ld", (long)d.value.i); case CCS_DATA_TYPE_FLOAT: return fmt("%.17g", d.value.f); case CCS_DATA_TYPE_STRING: return d.value.s ? d.value.s : "(null)"; case CCS_DATA_TYPE_BOOL: return fmt("bool%ld", (long)d.value.i); default: return fmt("type%d", (int)d.type); } }
  Str inside(const Var &v, const VariableValue &x) {     // "" when the value is one of the declared candidates
    if (v.quant == 0) {
      if (v.type == 0) { for (double d : v.sd) if (d == x.value.double_value) return ""; }
      else if (v.type == 1) { for (auto i : v.si) if (i == x.value.int_value) return ""; }
      else { for (auto &s : v.ss) if (s == val(v, x)) return ""; }
      return "is not in the declared set";
    }
    if (v.quant == 1) {
      double d = v.type == 0 ? x.value.double_value : (double)x.value.int_value;
      if (d < v.lo || (v.ol && d <= v.lo)) return fmt("is below the declared range (lower %g%s)", v.lo, v.ol ? ", open" : "");
      if (d > v.hi || (v.oh && d >= v.hi)) return fmt("is above the declared range (upper %g%s)", v.hi, v.oh ? ", open" : "");
      if (v.step > 0) { double k = (d - v.lo) / v.step; if (fabs(k - nearbyint(k)) > 1e-6) return fmt("is not a multiple of the declared step %g from %g", v.step, v.lo); }
    }
    return "";
  }
  void declare(const Op &o) {             // out id type cat quant ...
    if (o.a.size() < 5) return; size_t id = (size_t)o.a[1]; if (vars.count(id)) return;
    auto v = std::make_shared<Var>(); v->out = o.a[0]; v->id = id; v->name = fmt("%s%zu", v->out ? "tune" : "ctx", id); v->type = (int)o.a[2]; v->cat = (int)o.a[3]; v->quant = (int)o.a[4]; memset(&v->info, 0, sizeof v->info);
    v->info.type = (ValueType)v->type; v->info.category = (StatisticalCategory)v->cat; v->info.valueQuantity = (CandidateValueType)v->quant; Vec<int64_t> r(o.a.begin() + 5, o.a.end());
    if (v->quant == 0) {
      if (r.empty()) return;
      for (auto x : r) { if (v->type == 0) v->sd.push_back((double)x * 0.25); else if (v->type == 1) v->si.push_back(x); else { Str s = x % 7 == 0 ? fmt("a rather long candidate value number %ld xxxxxxxxxxxxxxxx", (long)x) : fmt("s%ld", (long)x); v->ss.push_back(s); std::array<char, 64> b; memset(b.data(), 0, 64); strncpy(b.data(), s.c_str(), 63); v->ss.back() = b.data(); v->sbuf.push_back(b); } }
      v->info.candidates.set.size = r.size(); if (v->type == 0) v->info.candidates.set.values.double_value = v->sd.data(); else if (v->type == 1) v->info.candidates.set.values.int_value = v->si.data(); else v->info.candidates.set.values.string_value = (Kokkos_Tools_Tuning_String *)v->sbuf.data();
    } else if (v->quant == 1) {
      if (r.size() < 5) return; double sc = v->type == 0 ? 0.25 : 1; v->lo = (double)r[0] * sc; v->hi = (double)r[1] * sc; v->step = (double)r[2] * sc; v->ol = r[3]; v->oh = r[4]; auto &g = v->info.candidates.range;
      if (v->type == 0) { g.lower.double_value = v->lo; g.upper.double_value = v->hi; g.step.double_value = v->step; } else { g.lower.int_value = r[0]; g.upper.int_value = r[1]; g.step.int_value = r[2]; } g.openLower = v->ol; g.openUpper = v->oh;
    }
    vars[id] = v; if (v->out) kokkosp_declare_output_type(v->name.c_str(), id, &v->info); else kokkosp_declare_input_type(v->name.c_str(), id, &v->info);
  }
  void set_ctx_value(const Var &v, VariableValue &x, uint64_t k) {
    if (v.quant == 0) { size_t n = v.type == 0 ? v.sd.size() : v.type == 1 ? v.si.size() : v.ss.size(); size_t i = k % std::min<size_t>(n, 3); if (v.type == 0) x.value.double_value = v.sd[i]; else if (v.type == 1) x.value.int_value = v.si[i]; else memcpy(x.value.string_value, v.sbuf[i].data(), 64); }
    else if (v.quant == 1) { double st = v.step > 0 ? v.step : (v.type == 1 ? 1 : 0.25); double d = v.lo + st * (double)(k % 2 + (v.ol ? 1 : 0)); if (d > v.hi || (v.oh && d >= v.hi)) d = v.lo + (v.ol ? st : 0); if (v.type == 0) x.value.double_value = d; else x.value.int_value = (int64_t)d; }
    else { if (v.type == 0) x.value.double_value = (double)(k % 3) * 1.5 - 1; else if (v.type == 1) x.value.int_value = (int64_t)(k % 3) * 1000003 - 5; else { memset(x.value.string_value, 0, 64); snprintf(x.value.string_value, 64, "%s", k % 3 == 0 ? "" : k % 3 == 1 ? "left" : "right"); } }
  }
  void request(int64_t rid, uint64_t fsel, uint64_t perm) {
    auto it = regions.find(rid); if (it == regions.end() || !up || stack.size() > 12) return;
    Vec<size_t> in = it->second.in, out = it->second.out; Rng r(perm); if (perm) { for (size_t i = in.size(); i > 1; i--) std::swap(in[i - 1], in[(size_t)r.below((int64_t)i)]); for (size_t i = out.size(); i > 1; i--) std::swap(out[i - 1], out[(size_t)r.below((int64_t)i)]); }
    std::set<size_t> key(in.begin(), in.end()); key.insert(out.begin(), out.end());
    Vec<VariableValue> cv(in.size()), tv(out.size()); Open o; o.id = nextctx++ * 977; o.reg = key;
    for (size_t i = 0; i < in.size(); i++) { Var &v = *vars[in[i]]; memset(&cv[i], 0, sizeof cv[i]); cv[i].type_id = in[i]; cv[i].metadata = &v.info; set_ctx_value(v, cv[i], fsel / (in[i] + 1)); o.fv[v.name] = val(v, cv[i]); }
    for (size_t i = 0; i < out.size(); i++) { Var &v = *vars[out[i]]; memset(&tv[i], 0xEE, sizeof tv[i]); tv[i].type_id = out[i]; tv[i].metadata = &v.info; }
    Vec<VariableValue> cv0 = cv; uint64_t f0 = g_fences; size_t told0 = g_told.size(); Vec<VariableInfo *> md; for (auto &x : tv) md.push_back(x.metadata);
    kokkosp_request_values(o.id, cv.size(), cv.data(), tv.size(), tv.data()); events++; requests++;
    if (g_fences != f0) bad("fence", "a request for values fenced"); if (g_told.size() != told0) bad("attribution", "a request for values reported a measurement");
    for (size_t i = 0; i < cv.size(); i++) if (memcmp(&cv[i], &cv0[i], sizeof cv[i])) bad("values", "a request for values changed the context values it was given");
    for (size_t i = 0; i < tv.size(); i++) {
      Var &v = *vars[out[i]]; if (tv[i].type_id != out[i] || tv[i].metadata != md[i]) bad("values", "a request for values changed the identity of a tuning variable");
      if (v.type == 2 && memchr(tv[i].value.string_value, 0, 64) == nullptr) bad("values", fmt("the value for %s is not terminated", v.name.c_str()));
      Str w = inside(v, tv[i]); if (!w.empty()) bad("values", fmt("the value %s handed out for %s ", val(v, tv[i]).c_str(), v.name.c_str()) + w); o.cv[v.name] = val(v, tv[i]);
    }
    for (auto &x : o.fv) o.feat += x.first + "=" + x.second + " "; for (auto &x : o.cv) o.conf += x.first + "=" + x.second + " ";
    RState &s = st[key]; if (!s.conv && s.told >= CUTOFF) s.conv = true; o.conv = s.conv;
    if (s.conv) {
      auto m = s.by.find(o.feat); 
      if (m != s.by.end() && !m->second.empty()) { int64_t best = m->second[0].t; for (auto &x : m->second) best = std::min(best, x.t); bool ok = false; Str cand; for (auto &x : m->second) if (x.t == best) { if (x.conf == o.conf) ok = true; else cand = x.conf; }
        suggested++; if (!ok) { Str got = "never measured"; int64_t gb = -1; for (auto &x : m->second) if (x.conf == o.conf && (gb < 0 || x.t < gb)) gb = x.t; if (gb >= 0) got = fmt("measured %ld ns", (long)gb); bad("best", fmt("after %zu measurements the region answers [%s] (%s) for [%s], the fastest measured was [%s] with %ld ns", s.told, o.conf.c_str(), got.c_str(), o.feat.c_str(), cand.c_str(), (long)best)); } }
    }
    note(fmt("req %zu %s| %s", o.id, o.feat.c_str(), o.conf.c_str())); if (states) states->insert(hs(fmt("%d/%zu/%d/%zu", (int)s.conv, std::min<size_t>(s.told / 25, 30), (int)measuring(), stack.size()), hs(o.feat)));
    kokkosp_begin_context(o.id); o.t0 = ctx.clock_ns; stack.push_back(o);
  }
  void end() {
    if (stack.empty() || !up) return; Open o = stack.back(); stack.pop_back(); uint64_t f0 = g_fences; size_t n0 = g_told.size(); int64_t el = (int64_t)(ctx.clock_ns - o.t0);
    kokkosp_end_context(o.id); events++;
    if (g_fences != f0) bad("fence", "the end of a context fenced");
    size_t n = g_told.size() - n0; RState &s = st[o.reg];
    if (o.conv) { if (n) bad("attribution", fmt("a context of a region that stopped measuring reported %zu measurement(s)", n)); }
    else {
      if (n != 1) bad("attribution", fmt("the end of a measured context reported %zu measurement(s) instead of one", n)); Told &t = g_told.back();
      if (t.n != 1 || t.elapsed != el) bad("attribution", fmt("the context took %ld ns but %ld ns were reported", (long)el, (long)t.elapsed));
      if (t.conf != o.conf || t.feat != o.feat) bad("attribution", fmt("the measurement of [%s] for [%s] was reported for [%s] and [%s]", o.conf.c_str(), o.feat.c_str(), t.conf.c_str(), t.feat.c_str()));
      s.told++; measured++; s.by[o.feat].push_back({o.conf, el}); note(fmt("end %zu %ld", o.id, (long)el));
    }
  }
  void end_unknown(uint64_t k) { if (!up) return; uint64_t f0 = g_fences; size_t n0 = g_told.size(); kokkosp_begin_context(5000000 + k); kokkosp_end_context(5000000 + k); events++; sim::g_cnt.msg_lost++; if (g_told.size() != n0) bad("attribution", "the end of an unknown context reported a measurement"); if (g_fences != f0) bad("fence", "the end of an unknown context fenced"); }
  void want_fence(uint64_t f0, uint32_t dev, const char *what) { uint64_t n = g_fences - f0; bool w = measuring(); if (n != (w ? 1u : 0u)) bad("fence", fmt("%s of a kernel %s although %s region around it is still being measured", what, n ? "fenced" : "did not fence", w ? "a" : "no")); if (n && g_fdev.back() != dev) bad("fence", fmt("%s of a kernel on device %u fenced device %u", what, dev, g_fdev.back())); if (n) fences++; if (g_fdev.size() > 1000) g_fdev.clear(); }
  void kbegin(int type, uint32_t dev) { if (!up || kern.size() > 6) return; uint64_t id = 0, f0 = g_fences; if (type % 3 == 0) kokkosp_begin_parallel_for("k", dev, &id); else if (type % 3 == 1) kokkosp_begin_parallel_scan("k", dev, &id); else kokkosp_begin_parallel_reduce("k", dev, &id); events++; kern.push_back({type % 3, id, dev}); want_fence(f0, dev, "the begin"); }
  void kend() { if (!up || kern.empty()) return; K k = kern.back(); kern.pop_back(); uint64_t f0 = g_fences; if (k.type == 0) kokkosp_end_parallel_for(k.id); else if (k.type == 1) kokkosp_end_parallel_scan(k.id); else kokkosp_end_parallel_reduce(k.id); events++; want_fence(f0, k.dev, "the end"); }
  uint64_t cost(const Open &o, uint64_t salt) { uint64_t h = hs(o.conf + o.feat, salt | 1); return h % 40 * (h % 3 ? 1000 : 1); }
  void adv(uint64_t ns) { ctx.clock_ns += ns; }
  void rounds(const Op &o) {            // region count seed nested
    if (o.a.size() < 4) return; Rng r((uint64_t)o.a[2]);
    for (int64_t i = 0; i < o.a[1]; i++) {
      size_t d = stack.size(); request(o.a[0], (uint64_t)r.below(4) * 3 + (uint64_t)r.below(2), r.chance(30) ? r.next() : 0); if (stack.size() == d) return;
      if (r.chance(50)) kbegin((int)r.below(3), (uint32_t)r.next());
      if (r.chance(8)) { adv((uint64_t)r.below(1000000000000LL)); sim::g_cnt.clock_jump++; } else if (r.chance(15)) { sim::g_cnt.clock_jump++; /* the clock stands still */ } else adv(cost(stack.back(), 5) + (r.chance(30) ? (uint64_t)r.below(3) : 0));
      while (!kern.empty() && r.chance(90)) kend();
      if (o.a[3] >= 0 && r.chance(40)) { size_t e = stack.size(); request(o.a[3], (uint64_t)r.below(6), 0); if (stack.size() > e) { if (r.chance(40)) { kbegin(0, 1); kend(); } adv(cost(stack.back(), 9)); if (r.chance(10)) end_unknown((uint64_t)r.below(100)); end(); } }
      end();
    }
  }
  void fini(bool dirty) {
    if (!up) return; while (!dirty && !stack.empty()) end(); if (!stack.empty()) sim::g_cnt.crash_restore++;
    kokkosp_finalize_library(); up = false; stack.clear(); kern.clear(); vars.clear(); regions.clear(); st.clear(); g_told.clear(); events++;
    if (!ctx.live.empty()) bad("leak", fmt("%zu block(s) of the library remain after finalisation", ctx.live.size()));
  }
  void exec(const Op &o) {
    auto a = [&](size_t i, int64_t d) { return i < o.a.size() ? o.a[i] : d; };
    if (o.name == "decl") declare(o);
    else if (o.name == "region") { Region r; for (size_t i = 1; i < o.a.size(); i++) { auto v = vars.find((size_t)o.a[i]); if (v == vars.end()) continue; if (v->second->out) r.out.push_back((size_t)o.a[i]); else r.in.push_back((size_t)o.a[i]); } if (!r.out.empty()) regions[a(0, 0)] = r; }
    else if (o.name == "req") request(a(0, 0), (uint64_t)a(1, 0), (uint64_t)a(2, 0));
    else if (o.name == "end") end(); else if (o.name == "endx") end_unknown((uint64_t)a(0, 0)); else if (o.name == "adv") { adv((uint64_t)a(0, 0)); if (a(0, 0) > 1000000000) sim::g_cnt.clock_jump++; }
    else if (o.name == "kb") kbegin((int)a(0, 0), (uint32_t)a(1, 0)); else if (o.name == "ke") kend(); else if (o.name == "round") rounds(o); else if (o.name == "slow") ctx.alloc_ns = (uint64_t)a(0, 0);
    else if (o.name == "fini") { fini(a(0, 0)); init(); gsl_rng_default_seed = (unsigned long)a(1, 0); }
  }
};
extern "C" ccs_result_t simk_features_tuner_tell(ccs_features_tuner_t t, size_t n, ccs_features_evaluation_t *e) {
  for (size_t i = 0; i < n; i++) {
    Told x; x.n = (int)n; ccs_datum_t d; ccs_features_t f; ccs_configuration_t c; x.elapsed = -1; ccs_evaluation_result_t rc = CCS_RESULT_SUCCESS;
    if (ccs_features_evaluation_get_value(e[i], 0, &d) == 0 && d.type == CCS_DATA_TYPE_INT) x.elapsed = d.value.i;
    if (ccs_features_evaluation_get_result(e[i], &rc) < 0 || rc != CCS_RESULT_SUCCESS) x.elapsed = -2;
    auto text = [&](auto space_get, auto value_get, Str &out) { std::map<Str, Str> m; size_t np = 0; space_get(np); for (size_t k = 0; k < np; k++) { Str nm; ccs_datum_t v; if (value_get(k, nm, v)) m[nm] = g_sim->dval(v); } for (auto &y : m) out += y.first + "=" + y.second + " "; };
    if (ccs_features_evaluation_get_configuration(e[i], &c) == 0) { ccs_configuration_space_t sp = nullptr; ccs_configuration_get_configuration_space(c, &sp);
      text([&](size_t &np) { ccs_configuration_space_get_num_parameters(sp, &np); }, [&](size_t k, Str &nm, ccs_datum_t &v) { ccs_parameter_t p; const char *s; if (ccs_configuration_space_get_parameter(sp, k, &p) < 0 || ccs_parameter_get_name(p, &s) < 0 || ccs_configuration_get_value(c, k, &v) < 0) return false; nm = s; return true; }, x.conf); }
    if (ccs_features_evaluation_get_features(e[i], &f) == 0) { ccs_features_space_t sp = nullptr; ccs_features_get_features_space(f, &sp);
      text([&](size_t &np) { ccs_features_space_get_num_parameters(sp, &np); }, [&](size_t k, Str &nm, ccs_datum_t &v) { ccs_parameter_t p; const char *s; if (ccs_features_space_get_parameter(sp, k, &p) < 0 || ccs_parameter_get_name(p, &s) < 0 || ccs_features_get_value(f, k, &v) < 0) return false; nm = s; return true; }, x.feat); }
    g_told.push_back(x);
  }
  return ccs_features_tuner_tell(t, n, e);
}

static void generate(Case &c, bool thorough) {
  Rng r(c.seed * 0x9e3779b97f4a7c15ULL + 16); auto add = [&](const char *n, Vec<int64_t> a) { c.ops.push_back({n, a}); };
  int sessions = r.chance(15) ? 2 : 1;
  for (int se = 0; se < sessions; se++) {
    if (r.chance(50)) add("slow", {r.range(1, 5000)});
    int nin = (int)r.below(4), nout = (int)r.range(1, 4); size_t id = (size_t)r.range(1, 20); Vec<int64_t> ins, outs;
    for (int i = 0; i < nin + nout; i++) {
      bool out = i >= nin; id += (size_t)r.range(1, 4); int quant = out ? (int)r.below(2) : (int)r.below(3), type = (int)r.below(quant == 1 ? 2 : 3), cat = (int)r.below(type == 2 ? 2 : 4); Vec<int64_t> a = {out, (int64_t)id, type, cat, quant};
      if (quant == 0) { int n = (int)r.range(r.chance(10) ? 1 : 2, out ? 6 : 4); std::set<int64_t> u; while ((int)u.size() < n) u.insert(r.range(-8, 30)); Vec<int64_t> v(u.begin(), u.end()); if (cat < 2) for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[(size_t)r.below((int64_t)k)]); a.insert(a.end(), v.begin(), v.end()); }
      else if (quant == 1) { int64_t lo = r.range(-20, 20), step = r.chance(40) ? 0 : r.range(1, 7), span = r.range(1, 40); bool ol = r.chance(30), oh = r.chance(40); if (ol) span = std::max<int64_t>(span, 2 * std::max<int64_t>(step, 1)); if (oh) span = std::max<int64_t>(span, std::max<int64_t>(step, 1) * (ol ? 2 : 1) + 1); if (!ol && !oh && r.chance(5)) span = 0; a.push_back(lo); a.push_back(lo + span); a.push_back(step); a.push_back(ol); a.push_back(oh); }
      add("decl", a); (out ? outs : ins).push_back((int64_t)id);
    }
    int nr = (int)r.range(1, 3); for (int k = 0; k < nr; k++) { Vec<int64_t> a = {k}; for (auto x : ins) if (r.chance(75)) a.push_back(x); bool any = false; for (auto x : outs) if (k == 0 || r.chance(60)) { a.push_back(x); any = true; } if (!any) a.push_back(outs[0]); add("region", a); }
    bool conv = r.chance(70); int parts = (int)r.range(3, thorough ? 14 : 8); int64_t total = conv ? r.range(500, 760) : r.range(5, 120);
    for (int k = 0; k < parts; k++) {
      int64_t x = r.below(10), reg = conv && r.chance(70) ? 0 : r.below(nr);
      if (x < 6 || conv) add("round", {reg, std::max<int64_t>(1, total / parts + r.below(20)), r.range(1, 1 << 30), r.chance(40) ? r.below(nr) : -1});
      if (r.chance(40)) { int depth = (int)r.range(1, 4); for (int d = 0; d < depth; d++) { add("req", {r.below(nr), r.below(12), r.chance(30) ? r.range(1, 1000) : 0}); if (r.chance(40)) { add("kb", {r.below(3), r.below(5)}); add("adv", {r.below(5000)}); if (r.chance(80)) add("ke", {}); } if (r.chance(20)) add("endx", {r.below(50)}); if (r.chance(20)) add("round", {r.below(nr), r.range(1, 6), r.range(1, 1 << 30), -1}); if (r.chance(30)) add("adv", {r.chance(20) ? r.below(2000000000000LL) : r.below(50000)}); } for (int d = 0; d < depth; d++) { if (r.chance(30)) add("adv", {r.below(5000)}); add("end", {}); if (r.chance(30)) { add("kb", {r.below(3), r.below(5)}); add("ke", {}); } } }
    }
    if (conv) { for (int k = 0; k < 12; k++) { add("req", {0, r.below(12), r.chance(30) ? r.range(1, 1000) : 0}); add("kb", {r.below(3), 7}); add("adv", {r.below(4)}); add("ke", {}); add("end", {}); } add("round", {0, 30, r.range(1, 1 << 30), r.chance(50) ? r.below(nr) : -1}); }
    bool dirty = r.chance(15); if (dirty) add("req", {0, r.below(5), 0}); add("fini", {dirty, r.range(1, 1 << 30)});
  }
}
// ---- command line (same protocol as main.cpp) -------------------------------------------------
static Case *g_case = nullptr; static Str g_out; static bool g_exec = false; static volatile sig_atomic_t g_dying = 0;
static void write_file(const Str &p, const Str &t) { FILE *f = fopen(p.c_str(), "w"); if (f) { fwrite(t.data(), 1, t.size(), f); fclose(f); } }
static void report(const Str &cls, const Str &msg) { printf("RESULT VIOLATION %s\n%s\n", cls.c_str(), msg.c_str()); if (!g_exec && g_case && !g_out.empty()) { write_file(g_out + ".case", case_text(*g_case)); printf("CASE %s.case\n", g_out.c_str()); } fflush(stdout); }
static void fatal(const char *cls, const char *msg) { if (g_dying) _exit(3); g_dying = 1; report(cls, msg); _exit(3); }
static void on_sig(int s) { fatal(s == SIGVTALRM ? "hang" : "crash", s == SIGVTALRM ? "the call did not return within its time bound" : strsignal(s)); }
extern "C" void __asan_set_death_callback(void (*)(void)); extern "C" const char *__asan_get_report_description(void); extern "C" int __asan_report_present(void);
static void on_asan(void) { if (g_dying) return; g_dying = 1; const char *d = __asan_report_present() ? __asan_get_report_description() : nullptr; report("memory", Str("memory error: ") + (d ? d : "reported by the sanitizer")); }
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=3:allocator_may_return_null=1:handle_segv=1:abort_on_error=0:detect_stack_use_after_return=0:quarantine_size_mb=4:malloc_context_size=5"; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static void watchdog(int s) { itimerval t = {{0, 0}, {s, 0}}; setitimer(ITIMER_VIRTUAL, &t, nullptr); }
struct Res { bool bad = false; Bad v; uint64_t hash = 0, events = 0, requests = 0, measured = 0, suggested = 0, fences = 0, ns = 0; Str log; };
static Res run(const Case &c, std::set<uint64_t> *states, bool log) {
  static sim::Ctx ctx; sim::ctx_init(ctx, 0); sim::cur = &ctx; ctx.clock_ns = 1000000000ULL * (c.seed % 1000) + 999999000ULL; ctx.clock_step = 0; ctx.alloc_ns = 0; uint64_t c0 = ctx.clock_ns;
  Sim s(ctx); g_sim = &s; s.states = states; s.log = log; g_told.clear(); g_fences = 0; g_fdev.clear(); Res r;
  try { s.where = "start"; s.init(); gsl_rng_default_seed = (unsigned long)(c.seed % 100003 + 1); int i = 0; for (auto &o : c.ops) { s.where = fmt("op %d %s", i++, o.name.c_str()); s.exec(o); } s.where = "end"; s.fini(false); }
  catch (Bad &b) { r.bad = true; r.v = b; }
  r.hash = s.hash; r.events = s.events; r.requests = s.requests; r.measured = s.measured; r.suggested = s.suggested; r.fences = s.fences; r.ns = ctx.clock_ns - c0; r.log = s.logtext; if (r.bad) r.hash = hs(r.v.cls + r.v.msg, r.hash); g_sim = nullptr; return r;
}
static bool g_gsl_aborts;              // see main.cpp
static void on_gsl(const char *why, const char *, int, int no) { if (no == GSL_ENOMEM && !g_gsl_aborts) return; fatal("crash", (Str("GSL reports '") + why + "', which ends the process by default").c_str()); }
int main(int argc, char **argv) {
  std::cout.rdbuf(nullptr); ccs_init(); g_gsl_aborts = gsl_set_error_handler(on_gsl) == nullptr; sim::set_fatal_hook(fatal); __asan_set_death_callback(on_asan); signal(SIGVTALRM, on_sig); signal(SIGABRT, on_sig); signal(SIGFPE, on_sig); Str cmd = argc > 1 ? argv[1] : "";
  if (cmd == "gen" && argc >= 5) { Case c; c.seed = strtoull(argv[4], nullptr, 10); generate(c, Str(argv[3]) == "thorough"); printf("%s", case_text(c).c_str()); return 0; }
  if (cmd == "exec" && argc >= 3) { std::ifstream f(argv[2]); std::stringstream b; b << f.rdbuf(); Case c; case_parse(b.str(), c); g_exec = true; g_case = &c; watchdog(60); Res r = run(c, nullptr, argc > 3); watchdog(0); if (argc > 3) printf("%s", r.log.c_str()); printf("HASH %016lx\n", (unsigned long)r.hash); if (r.bad) { report(r.v.cls, r.v.msg); return 3; } printf("RESULT OK\n"); return 0; }
  if (cmd == "work" && argc >= 9) {
    Str tier = argv[3]; uint64_t s0 = strtoull(argv[4], nullptr, 10), stride = strtoull(argv[5], nullptr, 10), count = strtoull(argv[6], nullptr, 10); double secs = atof(argv[7]); g_out = argv[8]; bool hashes = argc > 9; std::set<uint64_t> states; double t0 = now(); uint64_t runs = 0, ev = 0, req = 0, me = 0, su = 0, fe = 0, ns = 0; bool bad = false; std::map<Str, uint64_t> mix; Str samples;
    for (uint64_t k = 0; k < count && now() - t0 < secs; k++) {
      Case c; c.seed = s0 + k * stride; g_case = &c; generate(c, tier == "thorough"); watchdog(60); Res r = run(c, &states, false); watchdog(0); runs++; ev += r.events; req += r.requests; me += r.measured; su += r.suggested; fe += r.fences; ns += r.ns; for (auto &o : c.ops) mix[o.name]++;
      if (k < 1) { for (size_t i = 0; i < c.ops.size() && i < 14; i++) { samples += (i ? "; " : "") + c.ops[i].name; for (auto x : c.ops[i].a) samples += fmt(" %ld", (long)x); } }
      if (hashes) printf("HASH %lu %016lx\n", (unsigned long)c.seed, (unsigned long)r.hash);
      if (r.bad) { bad = true; report(r.v.cls, r.v.msg); break; }
    }
    Str s = fmt("{\"runs\":%lu,\"ops\":%lu,\"failed_calls\":0,\"faults_in_calls\":0,\"ref_bad\":0,\"wall\":%.3f,\"faults\":{\"clock_jump_or_stall\":%lu,\"unknown_context\":%lu,\"finalise_with_open_contexts\":%lu},\"foreign\":{},", (unsigned long)runs, (unsigned long)ev, now() - t0, (unsigned long)sim::g_cnt.clock_jump, (unsigned long)sim::g_cnt.msg_lost, (unsigned long)sim::g_cnt.crash_restore);
    s += fmt("\"extra\":{\"requests\":%lu,\"measurements\":%lu,\"converged_answers_compared\":%lu,\"fences\":%lu,\"simulated_seconds\":%lu},\"opmix\":{", (unsigned long)req, (unsigned long)me, (unsigned long)su, (unsigned long)fe, (unsigned long)(ns / 1000000000ULL)); bool first = true; for (auto &x : mix) { s += fmt("%s\"%s\":%lu", first ? "" : ",", x.first.c_str(), (unsigned long)x.second); first = false; } s += "},\"samples\":[\"" + samples + "\"]}\n";
    write_file(g_out + ".json", s); Str b; for (auto h : states) b.append((char *)&h, 8); write_file(g_out + ".states", b); return bad ? 3 : 0;
  }
  fprintf(stderr, "usage: work|gen|exec\n"); return 98;
}
