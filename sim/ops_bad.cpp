// Incorrect calls: one argument of an otherwise correct public call is spoiled
// (missing or wrong handle, missing result pointer, index out of range, list
// buffer too small, unknown name, foreign object, impossible count or enum).
// Every entry is one public function; the seed picks function, argument and spoiling.
#include "vm.h"
#include <gsl/gsl_rng.h>

namespace {
const int E_OBJ = CCS_RESULT_ERROR_INVALID_OBJECT, E_VAL = CCS_RESULT_ERROR_INVALID_VALUE, E_OOB = CCS_RESULT_ERROR_OUT_OF_BOUNDS, E_NAME = CCS_RESULT_ERROR_INVALID_NAME,
          E_PAR = CCS_RESULT_ERROR_INVALID_PARAMETER, E_DIST = CCS_RESULT_ERROR_INVALID_DISTRIBUTION, E_EXPR = CCS_RESULT_ERROR_INVALID_EXPRESSION, E_TREE = CCS_RESULT_ERROR_INVALID_TREE, ANY = 0;
constexpr unsigned bit(int k) { return 1u << k; }
const unsigned CTX = bit(K_CSPACE) | bit(K_FSPACE) | bit(K_OSPACE), BIND = bit(K_CONF) | bit(K_FEAT) | bit(K_EVAL) | bit(K_FEVAL) | bit(K_TEVAL), ALLK = ~0u;
struct M {
  VM &vm; uint64_t sel, cnt = 0; bool ran = false, none = false, good = false; int want = 0; ccs_result_t res = CCS_RESULT_SUCCESS; Str what, after; Vec<std::unique_ptr<char[]>> mem;
  M(VM &v, uint64_t s) : vm(v), sel(s) {}
  uint64_t h() { return hash_str(fmt("%lu/%lu", (unsigned long)sel, (unsigned long)++cnt)); }
  ccs_result_t call(const std::function<ccs_result_t()> &f) { g_note = what; ccs_result_t e = vm.call(f); g_note.clear(); return e; }
  P pick(unsigned mask, const std::function<bool(const Obj &)> &ok = nullptr) {
    Vec<P> c; for (auto &s : vm.slots) if ((mask & bit(s.second->kind)) && (!ok || ok(*s.second))) c.push_back(s.second);
    return c.empty() ? nullptr : c[h() % c.size()];
  }
  void *scratch(size_t n = 256) { mem.emplace_back(new char[n]); memset(mem.back().get(), 0xEE, n); return mem.back().get(); }
};
// ---- arguments -------------------------------------------------------------------------
struct Arg { int nv = 0; };
struct O : Arg {                      // a handle
  ccs_object_t h, bad = nullptr;
  O(M &m, const P &o, unsigned mask, bool opt = false, bool typed = true) : h(o->h) { init(m, mask, opt, typed); }
  O(M &m, ccs_object_t x, unsigned mask, bool opt = false, bool typed = true) : h(x) { init(m, mask, opt, typed); }
  bool opt_ = false;
  void init(M &m, unsigned mask, bool opt, bool typed) { opt_ = opt; if (typed) { P w = m.pick(~mask); if (w) bad = w->h; } nv = (opt ? 0 : 1) + (bad ? 1 : 0); }
  template <class A> A get(int v, M &m) { if (v < 0) return (A)h; m.want = E_OBJ; if (!opt_ && v == 0) { m.what += "no object"; return (A) nullptr; } m.what += "an object of another type"; return (A)bad; }
};
struct R : Arg {                      // a result or required pointer
  void *p; int want; R(void *x, int w = E_VAL) : p(x), want(w) { nv = 1; }
  template <class A> A get(int v, M &m) { if (v < 0) return (A)p; m.want = want; m.what += "no pointer"; return (A) nullptr; }
};
struct I : Arg {                      // an index
  size_t v, lim; int want; I(size_t x, size_t l, int w = E_OOB) : v(x), lim(l), want(w) { nv = 4; }
  template <class A> A get(int k, M &m) { if (k < 0) return (A)v; size_t b[] = {lim, lim + 1 + v, ((size_t)1 << 32) + v, (size_t)-1}; m.want = want; m.what += fmt("index %zu of %zu", b[k], lim); return (A)b[k]; }
};
struct S : Arg {                      // a name
  const char *s; int wantname; S(const char *x, int wn = 0) : s(x), wantname(wn) { nv = 1 + (wn != 0); }
  template <class A> A get(int k, M &m) { if (k < 0) return (A)s; if (k == 0) { m.want = E_VAL; m.what += "no name"; return (A) nullptr; } m.want = wantname; m.what += "an unknown name"; return (A) "no such name"; }
};
template <class T> struct Vt : Arg { T v; Vt(T x) : v(x) {} template <class A> A get(int, M &) { return (A)v; } };
template <> struct Vt<ccs_datum_t> : Arg { ccs_datum_t v; Vt(ccs_datum_t x) : v(x) {} template <class A> A get(int, M &) { return v; } };
template <> struct Vt<ccs_numeric_t> : Arg { ccs_numeric_t v; Vt(ccs_numeric_t x) : v(x) {} template <class A> A get(int, M &) { return v; } };
template <class T> Vt<T> V(T x) { return Vt<T>(x); }
struct N : Arg {                      // a count that has to be exact; the buffer behind it is larger
  size_t n; int want; N(size_t x, int w = E_VAL) : n(x), want(w) { nv = 2; }
  template <class A> A get(int k, M &m) { if (k < 0) return (A)n; size_t b = k == 0 && n > 1 ? n - 1 : n + 1; m.want = want; m.what += fmt("%zu values instead of %zu", b, n); return (A)b; }
};
struct En : Arg {                     // an enumerated value
  int v; Vec<int> bads; int want; En(int x, Vec<int> b, int w) : v(x), bads(b), want(w) { nv = (int)b.size(); }
  template <class A> A get(int k, M &m) { if (k < 0) return (A)v; m.want = want; m.what += fmt("value %d", bads[(size_t)k]); return (A)bads[(size_t)k]; }
};
template <class T> struct Bt : Arg {  // a plain value with impossible alternatives
  T v; Vec<T> bads; int want; Bt(T x, Vec<T> b, int w) : v(x), bads(b), want(w) { nv = (int)b.size(); }
  template <class A> A get(int k, M &m) { if (k < 0) return (A)v; m.want = want; m.what += fmt("impossible value %d", k); return (A)bads[(size_t)k]; }
};
template <class T> Bt<T> B(T v, Vec<T> b, int w = E_VAL) { return Bt<T>(v, b, w); }
struct HA : Arg {                     // an array of handles; one of them is spoiled
  Vec<ccs_object_t> v; ccs_object_t bad = nullptr; bool opt_, nullok; int want; HA(M &m, Vec<ccs_object_t> x, unsigned mask, bool nullarr_ok = false, bool elem_opt = false) : v(x), opt_(elem_opt), nullok(nullarr_ok), want(E_OBJ) { P w = m.pick(~mask); if (w) bad = w->h; nv = (nullok ? 0 : 1) + (opt_ ? 0 : 1) + (bad ? 1 : 0); }
  template <class A> A get(int k, M &m) {
    ccs_object_t *a = (ccs_object_t *)m.scratch((v.size() + 1) * sizeof(ccs_object_t)); for (size_t i = 0; i < v.size(); i++) a[i] = v[i];
    if (k < 0) return (A)a;
    if (!nullok && k-- == 0) { m.want = E_VAL; m.what += "no array"; return (A) nullptr; }
    size_t at = m.h() % v.size(); m.want = want; if (!opt_ && k-- == 0) { m.what += "an array with a missing object"; a[at] = nullptr; return (A)a; }
    m.what += "an array with an object of another type"; a[at] = bad; return (A)a;
  }
};
template <class F, class... D, size_t... X> void run_(M &m, const char *name, F fn, std::index_sequence<X...>, D &...d);
template <class... A, class... D, size_t... X> void run_(M &m, const char *name, ccs_result_t (*fn)(A...), std::index_sequence<X...>, D &...d) {
  static_assert(sizeof...(A) == sizeof...(D), "one description per argument");
  int nvs[] = {d.nv...}, tot = 0; for (int n : nvs) tot += n; if (!tot) { m.none = true; return; }
  int c = (int)(m.h() % (uint64_t)tot), which = 0; while (c >= nvs[which]) c -= nvs[which++];
  m.what = Str(name) + " with, for argument " + fmt("%d, ", which + 1); m.ran = true;
  std::tuple<A...> args{(d.template get<A>((int)X == which ? c : -1, m))...};
  m.res = m.call([&] { return std::apply(fn, args); });
}
template <class... A, class... D> void run(M &m, const char *name, ccs_result_t (*fn)(A...), D... d) { run_(m, name, fn, std::index_sequence_for<A...>(), d...); }
#define C(FN, ...) run(m, #FN, FN, __VA_ARGS__)
#define NEED(x) do { if (!(x)) { m.none = true; return; } } while (0)
// ---- list queries: (object, room, array, count) -----------------------------------------------
template <class H, class T, class F> void list_(M &m, const char *name, F fn, const P &o, unsigned mask, bool tail, bool typed = true) {
  size_t n = 0; if (fn((H)o->h, 0, nullptr, &n) < 0) { ccs_clear_thread_error(); m.none = true; return; }
  P w = typed ? m.pick(~mask) : nullptr; size_t ret = 77; T *a = (T *)m.scratch((n + 16) * sizeof(T)); int k = (int)(m.h() % 8); m.ran = true; m.want = E_VAL; m.what = Str(name) + " with ";
  H h = (H)o->h; size_t room = n; T *arr = a; size_t *pr = &ret;
  if (k == 1 && !w) k = 0;
  if (k == 2 && n < 2) k = 3;
  if (k == 7 && !n) k = 6;
  { Vec<T> t(n + 1); if (n && fn((H)o->h, n, t.data(), nullptr) < 0) { ccs_clear_thread_error(); m.ran = false; m.none = true; return; } }
  switch (k) {
  case 0: h = (H) nullptr; m.want = E_OBJ; m.what += "no object"; if (!n) { arr = nullptr; } break;
  case 1: h = (H)w->h; m.want = E_OBJ; m.what += "an object of another type"; if (!n) arr = nullptr; break;
  case 2: room = 1 + m.h() % (n - 1); m.what += fmt("room for %zu of %zu", room, n); break;
  case 3: arr = nullptr; room = n + 1; m.what += "room but no array"; break;
  case 7: room = 0; m.what += fmt("an array but room for 0 of %zu", n); break;
  case 4: arr = nullptr; pr = nullptr; room = 0; m.what += "neither array nor count"; break;
  default: m.good = true; room = n + 1 + m.h() % 10; if (k == 6) pr = nullptr; m.what += fmt("room for %zu of %zu", room, n); break; }
  m.res = m.call([&] { return fn(h, room, arr, pr); });
  if (!m.good && arr) { const unsigned char *x = (const unsigned char *)&a[std::min(room, n + 8)]; for (size_t i = 0; i < 8 * sizeof(T); i++) if (x[i] != 0xEE) { m.after = "wrote beyond the given room"; break; } }
  if (!m.good || m.res < 0) return;
  if (pr && ret != n) m.after = fmt("counts %zu", ret);
  Vec<T> b(n + 1); if (n && fn(h, n, b.data(), nullptr) < 0) { m.after = "the same query with exactly enough room fails"; return; }
  for (size_t i = 0; i < n; i++) if (memcmp(&a[i], &b[i], sizeof(T) == sizeof(ccs_datum_t) ? 16 : sizeof(T))) m.after = fmt("element %zu differs from the query with exactly enough room", i);
  if (tail) for (size_t i = n; i < room; i++) { bool z; if constexpr (std::is_same<T, ccs_datum_t>::value) z = a[i].type == CCS_DATA_TYPE_NONE; else { T zero; memset(&zero, 0, sizeof zero); z = !memcmp(&a[i], &zero, sizeof zero); } if (!z) m.after = fmt("element %zu beyond the list was left as it was", i); }
  const unsigned char *end = (const unsigned char *)&a[room]; for (size_t i = 0; i < 2 * sizeof(T); i++) if (end[i] != 0xEE) m.after = "wrote beyond the given room";
}
#define L(FN, H, T, K, TAIL) list_<H, T>(m, #FN, FN, K, bit(K->kind), TAIL)
typedef void (*Fn)(M &);
P any_param(M &m, const std::function<bool(const Obj &)> &f = nullptr) { return m.pick(bit(K_PARAM), f); }
size_t ctx_n(const P &c) { size_t n = 0; ccs_context_get_num_parameters((ccs_context_t)c->h, &n); return n; }
ccs_parameter_t ctx_p(const P &c, size_t i) { ccs_parameter_t p = nullptr; ccs_context_get_parameter((ccs_context_t)c->h, i, &p); return p; }
const char *pname(ccs_parameter_t p) { const char *n = ""; ccs_parameter_get_name(p, &n); return n; }
bool in_ctx(const P &c, ccs_object_t p) { for (size_t i = 0; i < ctx_n(c); i++) if ((ccs_object_t)ctx_p(c, i) == p) return true; return false; }
bool named_in(const P &c, ccs_object_t p) { for (size_t i = 0; i < ctx_n(c); i++) if (!strcmp(pname(ctx_p(c, i)), pname((ccs_parameter_t)p))) return true; return false; }
P foreign_param(M &m, const P &c) { return any_param(m, [&](const Obj &o) { return !in_ctx(c, o.h); }); }
P ctx_of(M &m, const P &b) { ccs_context_t c = nullptr; if (b->kind == K_TCONF || ccs_binding_get_context((ccs_binding_t)b->h, &c) < 0) { ccs_clear_thread_error(); return nullptr; } for (auto &s : m.vm.slots) if (s.second->h == (ccs_object_t)c) return s.second; return nullptr; }
size_t bind_n(const P &b) { size_t n = 0; ccs_binding_get_values((ccs_binding_t)b->h, 0, nullptr, &n); return n; }
ccs_parameter_t bind_p(const P &b, size_t i) { ccs_context_t c = nullptr; ccs_parameter_t p = nullptr; ccs_binding_get_context((ccs_binding_t)b->h, &c); ccs_context_get_parameter(c, i, &p); return p; }
ccs_datum_t bval(const P &b, size_t i) { ccs_datum_t d = ccs_none; ccs_binding_get_value((ccs_binding_t)b->h, i, &d); return d; }
template <class T> T *buf(M &m, size_t n) { T *a = (T *)m.scratch((n + 4) * sizeof(T)); return a; }
ccs_datum_t *dbuf(M &m, size_t n) { ccs_datum_t *a = buf<ccs_datum_t>(m, n); for (size_t i = 0; i < n + 4; i++) a[i] = ccs_int((ccs_int_t)i); return a; }
#define U(k) P o = m.pick(bit(k)); NEED(o)
#define OO O(m, o, bit(o->kind))
#define RR R(m.scratch())
// one handle, one result
#define G(FN, K) {#FN, [](M &m) { U(K); C(FN, OO, RR); }}
#define GV(FN, K) {#FN, [](M &m) { U(K); C(FN, OO, V((ccs_bool_t *)m.scratch())); }}
#define GB(FN, MASK, TY) {#FN, [](M &m) { P o = m.pick(MASK); NEED(o); C(FN, O(m, o, MASK, false, TY), RR); }}
struct Ent { const char *name; Fn fn; };

// the functions shared by the three kinds of spaces and by contexts
template <class H> void sp_index(M &m, const char *nm, ccs_result_t (*f)(H, ccs_parameter_t, size_t *), const P &o, bool typed) {
  size_t n = ctx_n(o); P x = foreign_param(m, o);
  if (x && m.h() % 2) { m.ran = true; m.want = E_PAR; m.what = Str(nm) + " with a parameter of another space"; size_t r; m.res = m.call([&] { return f((H)o->h, (ccs_parameter_t)x->h, &r); }); return; }
  NEED(n); run(m, nm, f, O(m, o, bit(o->kind), false, typed), V((ccs_parameter_t)ctx_p(o, m.h() % n)), RR);
}
template <class H> void sp_indexes(M &m, const char *nm, ccs_result_t (*f)(H, size_t, ccs_parameter_t *, size_t *), const P &o, bool typed) {
  size_t n = ctx_n(o); NEED(n); ccs_parameter_t *a = buf<ccs_parameter_t>(m, n); for (size_t i = 0; i < n; i++) a[i] = ctx_p(o, i);
  P x = foreign_param(m, o);
  if (x && m.h() % 3 == 0) { a[m.h() % n] = (ccs_parameter_t)x->h; m.ran = true; m.want = E_PAR; m.what = Str(nm) + " with a parameter of another space among them"; size_t *r = buf<size_t>(m, n); m.res = m.call([&] { return f((H)o->h, n, a, r); }); return; }
  run(m, nm, f, O(m, o, bit(o->kind), false, typed), V(n), R(a), R(buf<size_t>(m, n)));
}
#define SPACE(PFX, K, HT, MASKTY) \
  {#PFX "_get_name", [](M &m) { P o = m.pick(K); NEED(o); C(PFX##_get_name, O(m, o, K, false, MASKTY), RR); }}, \
  {#PFX "_get_num_parameters", [](M &m) { P o = m.pick(K); NEED(o); C(PFX##_get_num_parameters, O(m, o, K, false, MASKTY), RR); }}, \
  {#PFX "_get_parameter", [](M &m) { P o = m.pick(K); NEED(o && ctx_n(o)); C(PFX##_get_parameter, O(m, o, K, false, MASKTY), I(m.h() % ctx_n(o), ctx_n(o)), RR); }}, \
  {#PFX "_get_parameter_by_name", [](M &m) { P o = m.pick(K); NEED(o && ctx_n(o)); C(PFX##_get_parameter_by_name, O(m, o, K, false, MASKTY), S(pname(ctx_p(o, m.h() % ctx_n(o))), E_NAME), RR); }}, \
  {#PFX "_get_parameter_index_by_name", [](M &m) { P o = m.pick(K); NEED(o && ctx_n(o)); C(PFX##_get_parameter_index_by_name, O(m, o, K, false, MASKTY), S(pname(ctx_p(o, m.h() % ctx_n(o))), E_NAME), RR); }}, \
  {#PFX "_get_parameter_index", [](M &m) { P o = m.pick(K); NEED(o); sp_index<HT>(m, #PFX "_get_parameter_index", PFX##_get_parameter_index, o, MASKTY); }}, \
  {#PFX "_get_parameter_indexes", [](M &m) { P o = m.pick(K); NEED(o); sp_indexes<HT>(m, #PFX "_get_parameter_indexes", PFX##_get_parameter_indexes, o, MASKTY); }}, \
  {#PFX "_get_parameters", [](M &m) { P o = m.pick(K); NEED(o); list_<HT, ccs_parameter_t>(m, #PFX "_get_parameters", PFX##_get_parameters, o, K, true, MASKTY); }}, \
  {#PFX "_validate_value", [](M &m) { P o = m.pick(K); NEED(o && ctx_n(o)); size_t i = m.h() % ctx_n(o); ccs_datum_t d; NEED(ccs_parameter_get_default_value(ctx_p(o, i), &d) >= 0); C(PFX##_validate_value, O(m, o, K, false, MASKTY), I(i, ctx_n(o)), V(d), RR); }}
// the functions shared by bindings
#define BINDING(PFX, K, TY) \
  {#PFX "_get_value", [](M &m) { P o = m.pick(K); NEED(o && bind_n(o)); C(PFX##_get_value, O(m, o, K, false, TY), I(m.h() % bind_n(o), bind_n(o)), RR); }}, \
  {#PFX "_set_value", [](M &m) { P o = m.pick(K); NEED(o && bind_n(o)); size_t i = m.h() % bind_n(o); C(PFX##_set_value, O(m, o, K, false, TY), I(i, bind_n(o)), V(bval(o, i))); }}, \
  {#PFX "_get_value_by_name", [](M &m) { P o = m.pick(K); NEED(o && bind_n(o)); C(PFX##_get_value_by_name, O(m, o, K, false, TY), S(pname(bind_p(o, m.h() % bind_n(o))), E_NAME), RR); }}, \
  {#PFX "_hash", [](M &m) { P o = m.pick(K); NEED(o); C(PFX##_hash, O(m, o, K, false, TY), RR); }}, \
  {#PFX "_cmp", [](M &m) { P o = m.pick(K); NEED(o); P q = m.pick(bit(o->kind)); C(PFX##_cmp, O(m, o, K, false, TY), O(m, q, K, false, TY), RR); }}
#define BLIST(PFX, K, HT, TY) {#PFX "_get_values", [](M &m) { P o = m.pick(K); NEED(o); list_<HT, ccs_datum_t>(m, #PFX "_get_values", PFX##_get_values, o, K, true, TY); }}
#define EVAL(PFX, K, HT) \
  G(PFX##_get_objective_space, K), G(PFX##_get_configuration, K), G(PFX##_get_result, K), GV(PFX##_check, K), \
  {#PFX "_set_result", [](M &m) { U(K); C(PFX##_set_result, OO, V(CCS_RESULT_SUCCESS)); }}, \
  {#PFX "_get_objective_value", [](M &m) { U(K); ccs_objective_space_t s; size_t n = 0; NEED(PFX##_get_objective_space((HT)o->h, &s) >= 0 && ccs_objective_space_get_objectives(s, 0, nullptr, nullptr, &n) >= 0 && n); C(PFX##_get_objective_value, OO, I(m.h() % n, n), RR); }}, \
  {#PFX "_get_objective_values", [](M &m) { U(K); ccs_objective_space_t s; size_t n = 0; NEED(PFX##_get_objective_space((HT)o->h, &s) >= 0 && ccs_objective_space_get_objectives(s, 0, nullptr, nullptr, &n) >= 0 && n); Vec<ccs_datum_t> t(n); if (PFX##_get_objective_values((HT)o->h, n, t.data(), nullptr) < 0) { ccs_clear_thread_error(); m.none = true; return; } L(PFX##_get_objective_values, HT, ccs_datum_t, o, true); }}, \
  {#PFX "_compare", [](M &m) { U(K); ccs_comparison_t r; if (PFX##_compare((HT)o->h, (HT)o->h, &r) < 0) { ccs_clear_thread_error(); m.none = true; return; } C(PFX##_compare, OO, OO, RR); }}
#define TUNER(PFX, K) G(PFX##_get_type, K), G(PFX##_get_name, K), G(PFX##_get_objective_space, K)
bool builtin_t(const Obj &o) { return !o.ut && !o.foreign; }
#define UB(k) P o = m.pick(bit(k), builtin_t); NEED(o)
bool isdist(const Obj &o, int t) { ccs_distribution_type_t x; return ccs_distribution_get_type((ccs_distribution_t)o.h, &x) >= 0 && (int)x == t; }
bool ispar(const Obj &o, int t) { ccs_parameter_type_t x; return ccs_parameter_get_type((ccs_parameter_t)o.h, &x) >= 0 && (int)x == t; }
bool isexp(const Obj &o, int t) { ccs_expression_type_t x; return ccs_expression_get_type((ccs_expression_t)o.h, &x) >= 0 && (int)x == t; }
size_t ddim(const P &o) { size_t n = 0; ccs_distribution_get_dimension((ccs_distribution_t)o->h, &n); return n; }
// a call on an object of the right type but the wrong sub-type
template <class F> void wrongsub(M &m, const char *nm, const P &o, int want, F f) { m.ran = true; m.want = want; m.what = Str(nm) + " on an object of another kind"; m.res = m.call([&] { return f(o->h); }); }
#define SUB(FN, HT, KK, TEST, T_, WANT, ...) {#FN, [](M &m) { bool wrong = m.h() % 3 == 0; P o = m.pick(bit(KK), [&](const Obj &q) { return TEST(q, T_) != wrong; }); NEED(o); \
    if (wrong) { wrongsub(m, #FN, o, WANT, [&](ccs_object_t h) { return FN((HT)h, __VA_ARGS__); }); return; } C(FN, OO, __VA_ARGS__); }}
#define SUBL(FN, HT, T, KK, TEST, T_, WANT) {#FN, [](M &m) { bool wrong = m.h() % 3 == 0; P o = m.pick(bit(KK), [&](const Obj &q) { return TEST(q, T_) != wrong; }); NEED(o); \
    if (wrong) { wrongsub(m, #FN, o, WANT, [&](ccs_object_t h) { size_t n; return FN((HT)h, 0, nullptr, &n); }); return; } L(FN, HT, T, o, true); }}
ccs_numeric_t ni(ccs_int_t i) { ccs_numeric_t n; n.i = i; return n; }
ccs_numeric_t nf(ccs_float_t f) { ccs_numeric_t n; n.f = f; return n; }
const double NaN = NAN;
struct Root { size_t n = 0; Vec<size_t> pos; };
Root place(M &m, ccs_tree_t t) {      // an existing position in a tree
  Root r; ccs_tree_t c = t; for (;;) { size_t a = 0; ccs_tree_get_arity(c, &a); if (!a || m.h() % 3 == 0) break; size_t i = m.h() % a; ccs_tree_t k = nullptr; if (ccs_tree_get_child(c, i, &k) < 0 || !k) { ccs_clear_thread_error(); break; } r.pos.push_back(i); c = k; }
  return r;
}
size_t *pbuf(M &m, const Root &r) { size_t *a = buf<size_t>(m, r.pos.size()); for (size_t i = 0; i < r.pos.size(); i++) a[i] = r.pos[i]; return a; }
P tconf_ts(M &m, const P &c) { ccs_tree_space_t t = nullptr; ccs_tree_configuration_get_tree_space((ccs_tree_configuration_t)c->h, &t); for (auto &s : m.vm.slots) if (s.second->h == (ccs_object_t)t) return s.second; return nullptr; }

const Ent entries[] = {
  // base
  {"ccs_get_result_name", [](M &m) { C(ccs_get_result_name, En(CCS_RESULT_SUCCESS, {12345, -12345}, E_VAL), RR); }},
  {"ccs_retain_object", [](M &m) { P o = m.pick(ALLK); NEED(o); C(ccs_retain_object, O(m, o, ALLK, false, false)); }},
  {"ccs_release_object", [](M &m) { P o = m.pick(ALLK); NEED(o); C(ccs_release_object, O(m, o, ALLK, false, false)); }},
  GB(ccs_object_get_type, ALLK, false), GB(ccs_object_get_refcount, ALLK, false), GB(ccs_object_get_user_data, ALLK, false),
  {"ccs_object_set_destroy_callback", [](M &m) { P o = m.pick(ALLK); NEED(o); C(ccs_object_set_destroy_callback, O(m, o, ALLK, false, false), R((void *)vm_destroy_cb), V((void *)nullptr)); }},
  {"ccs_object_serialize", [](M &m) { P o = m.pick(bit(K_PARAM) | bit(K_DIST) | bit(K_RNG) | bit(K_TREE) | bit(K_CSPACE), [](const Obj &q) { return !q.udata && !q.sercb; }); NEED(o); const auto F = CCS_SERIALIZE_FORMAT_BINARY; ccs_object_t h = o->h; size_t sz = 0, z2 = 0; const int END = CCS_SERIALIZE_OPTION_END;
    NEED(ccs_object_serialize(h, F, CCS_SERIALIZE_OPERATION_SIZE, &sz, END) >= 0); char *b = (char *)m.scratch(sz + 64); int k = (int)(m.h() % 12); const auto BF = (ccs_serialize_format_t)(m.h() % 2 ? CCS_SERIALIZE_FORMAT_MAX : 77); const auto BO = (ccs_serialize_operation_t)(m.h() % 2 ? CCS_SERIALIZE_OPERATION_MAX : 77); size_t less = m.h() % sz; void *st = nullptr; m.ran = true; m.want = E_VAL; m.what = fmt("ccs_object_serialize misuse %d", k);
    const auto MEM = CCS_SERIALIZE_OPERATION_MEMORY, SIZ = CCS_SERIALIZE_OPERATION_SIZE, FIL = CCS_SERIALIZE_OPERATION_FILE, FDE = CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR; if (k == 0) m.want = E_OBJ; if (k == 5) m.want = CCS_RESULT_ERROR_NOT_ENOUGH_DATA;
    m.res = m.call([&] { switch (k) { case 0: return ccs_object_serialize(nullptr, F, MEM, sz, b, END); case 1: return ccs_object_serialize(h, BF, MEM, sz, b, END); case 2: return ccs_object_serialize(h, F, BO, sz, b, END); case 3: return ccs_object_serialize(h, F, SIZ, (size_t *)nullptr, END);
      case 4: return ccs_object_serialize(h, F, MEM, sz, (char *)nullptr, END); case 5: return ccs_object_serialize(h, F, MEM, less, b, END); case 6: return ccs_object_serialize(h, F, MEM, sz, b, (int)CCS_SERIALIZE_OPTION_NON_BLOCKING, &st, END); case 7: return ccs_object_serialize(h, F, MEM, sz, b, 77, END);
      case 8: return ccs_object_serialize(h, F, MEM, sz, b, (int)CCS_SERIALIZE_OPTION_CALLBACK, (void *)nullptr, (void *)nullptr, END); case 9: return ccs_object_serialize(h, F, FIL, (char *)nullptr, END); case 10: return ccs_object_serialize(h, F, FDE, 3, (int)CCS_SERIALIZE_OPTION_NON_BLOCKING, (void *)nullptr, END); default: return ccs_object_serialize(h, BF, SIZ, &z2, END); } });
    size_t lim = k == 5 ? less : sz; for (size_t i = lim; i < lim + 32; i++) if ((unsigned char)b[i] != 0xEE) m.after = "wrote beyond the given room"; }},
  {"ccs_object_deserialize", [](M &m) { P o = m.pick(bit(K_PARAM) | bit(K_DIST) | bit(K_RNG) | bit(K_TREE) | bit(K_CSPACE), [](const Obj &q) { return !q.udata && !q.sercb; }); NEED(o); const auto F = CCS_SERIALIZE_FORMAT_BINARY; size_t sz = 0; const int END = CCS_DESERIALIZE_OPTION_END; P w = m.pick(~bit(K_MAP));
    NEED(ccs_object_serialize(o->h, F, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END) >= 0); char *b = (char *)m.scratch(sz + 64); NEED(ccs_object_serialize(o->h, F, CCS_SERIALIZE_OPERATION_MEMORY, sz, b, CCS_SERIALIZE_OPTION_END) >= 0);
    int k = (int)(m.h() % 13); const auto BF = (ccs_serialize_format_t)(m.h() % 2 ? CCS_SERIALIZE_FORMAT_MAX : 77); const auto BO = (ccs_serialize_operation_t)(m.h() % 3 == 0 ? CCS_SERIALIZE_OPERATION_MAX : m.h() % 2 ? CCS_SERIALIZE_OPERATION_SIZE : 77); void *st = nullptr; ccs_object_t x = nullptr; m.ran = true; m.want = E_VAL; m.what = fmt("ccs_object_deserialize misuse %d", k);
    const auto MEM = CCS_SERIALIZE_OPERATION_MEMORY, FIL = CCS_SERIALIZE_OPERATION_FILE, FDE = CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR; if (k == 4 || k == 5) m.want = E_OBJ; if (k == 12) m.want = ANY; size_t less = m.h() % sz;
    m.res = m.call([&] { switch (k) { case 0: return ccs_object_deserialize(nullptr, F, MEM, sz, b, END); case 1: return ccs_object_deserialize(&x, BF, MEM, sz, b, END); case 2: return ccs_object_deserialize(&x, F, BO, sz, b, END); case 3: return ccs_object_deserialize(&x, F, MEM, sz, (char *)nullptr, END);
      case 4: return ccs_object_deserialize(&x, F, MEM, sz, b, (int)CCS_DESERIALIZE_OPTION_HANDLE_MAP, (void *)nullptr, END); case 5: return ccs_object_deserialize(&x, F, MEM, sz, b, (int)CCS_DESERIALIZE_OPTION_HANDLE_MAP, w->h, END); case 6: return ccs_object_deserialize(&x, F, MEM, sz, b, (int)CCS_DESERIALIZE_OPTION_VECTOR, (void *)nullptr, END);
      case 7: return ccs_object_deserialize(&x, F, MEM, sz, b, (int)CCS_DESERIALIZE_OPTION_NON_BLOCKING, &st, END); case 8: return ccs_object_deserialize(&x, F, MEM, sz, b, 77, END); case 9: return ccs_object_deserialize(&x, F, MEM, sz, b, (int)CCS_DESERIALIZE_OPTION_CALLBACK, (void *)nullptr, (void *)nullptr, END);
      case 10: return ccs_object_deserialize(&x, F, FIL, (char *)nullptr, END); case 11: return ccs_object_deserialize(&x, F, FDE, 3, (int)CCS_DESERIALIZE_OPTION_NON_BLOCKING, (void *)nullptr, END); default: return ccs_object_deserialize(&x, F, MEM, less, b, END); } });
    if (x) m.after = "an object came back"; }},
  {"ccs_object_serialize", [](M &m) { P o = m.pick(bit(K_PARAM) | bit(K_DIST) | bit(K_RNG) | bit(K_TREE) | bit(K_CSPACE), [](const Obj &q) { return !q.udata && !q.sercb; }); NEED(o); auto *cx = m.vm.ctx; const auto F = CCS_SERIALIZE_FORMAT_BINARY; const auto FDE = CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR; size_t sz = 0; void *st = nullptr; bool des = m.h() % 2; ccs_object_t x = nullptr;
    NEED(ccs_object_serialize(o->h, F, CCS_SERIALIZE_OPERATION_SIZE, &sz, CCS_SERIALIZE_OPTION_END) >= 0); char *b = (char *)m.scratch(sz + 64); NEED(ccs_object_serialize(o->h, F, CCS_SERIALIZE_OPERATION_MEMORY, sz, b, CCS_SERIALIZE_OPTION_END) >= 0);
    int fd = sim::open_stream(*cx), fd2 = sim::open_stream(*cx); if (des) { cx->streams[fd].assign(b, b + sz); cx->streams[fd2].assign(b, b + sz); }
    auto go = [&](int f) { return des ? ccs_object_deserialize(&x, F, FDE, f, (int)CCS_DESERIALIZE_OPTION_NON_BLOCKING, &st, (int)CCS_DESERIALIZE_OPTION_END) : ccs_object_serialize(o->h, F, FDE, f, (int)CCS_SERIALIZE_OPTION_NON_BLOCKING, &st, (int)CCS_SERIALIZE_OPTION_END); };
    cx->nonblock = true; cx->plan.clear(); if (m.h() % 2) { cx->plan.push_back({sim::IA_SHORT, (int64_t)(1 + m.h() % 30)}); } cx->plan.push_back({sim::IA_EAGAIN, 0}); ccs_result_t r = go(fd); cx->plan.clear();
    if (r == CCS_RESULT_AGAIN && st) { m.ran = true; m.want = E_VAL; m.what = fmt("resuming a suspended %s on another descriptor", des ? "deserialization" : "serialization"); m.res = m.call([&] { return go(fd2); });
      if (m.res < 0) { ccs_clear_thread_error(); if ((des ? sz : 0) != cx->streams[fd2].size()) m.after = "bytes moved on the other descriptor"; r = go(fd); if (r != CCS_RESULT_SUCCESS || st) m.after = fmt("the transfer no longer finishes on its own descriptor (%d)", (int)r); else if (des ? cx->streams[fd].size() != 0 : Str(cx->streams[fd].begin(), cx->streams[fd].end()) != Str(b, sz)) m.after = "the finished transfer moved other bytes"; } }
    cx->nonblock = false; if (x) ccs_release_object(x); for (int f : {fd2, fd}) { cx->fds[f].open = false; cx->streams.erase(f); } }},
  {"ccs_object_set_serialize_callback", [](M &m) { P o = m.pick(ALLK); NEED(o); C(ccs_object_set_serialize_callback, O(m, o, ALLK, false, false), V((ccs_object_serialize_callback_t) nullptr), V((void *)77)); }},
  {"ccs_object_set_user_data", [](M &m) { P o = m.pick(ALLK); NEED(o); C(ccs_object_set_user_data, O(m, o, ALLK, false, false), V((void *)77)); }},
  // bindings
  GB(ccs_binding_get_context, BIND, false), BINDING(ccs_binding, BIND, false), BLIST(ccs_binding, BIND, ccs_binding_t, false),
  {"ccs_binding_set_values", [](M &m) { P o = m.pick(BIND); NEED(o && bind_n(o)); size_t n = bind_n(o); ccs_datum_t *a = dbuf(m, n); for (size_t i = 0; i < n; i++) a[i] = bval(o, i); C(ccs_binding_set_values, O(m, o, BIND, false, false), N(n), R(a)); }},
  {"ccs_binding_set_value_by_name", [](M &m) { P o = m.pick(BIND); NEED(o && bind_n(o)); size_t i = m.h() % bind_n(o); C(ccs_binding_set_value_by_name, O(m, o, BIND, false, false), S(pname(bind_p(o, i)), E_NAME), V(bval(o, i))); }},
  {"ccs_binding_get_value_by_parameter", [](M &m) { P o = m.pick(BIND); NEED(o && bind_n(o)); P c = ctx_of(m, o), x = c ? foreign_param(m, c) : nullptr; if (x && m.h() % 2) { m.ran = true; m.want = E_PAR; m.what = "ccs_binding_get_value_by_parameter with a parameter of another space"; ccs_datum_t d; m.res = m.call([&] { return ccs_binding_get_value_by_parameter((ccs_binding_t)o->h, (ccs_parameter_t)x->h, &d); }); return; }
    C(ccs_binding_get_value_by_parameter, O(m, o, BIND, false, false), O(m, (ccs_object_t)bind_p(o, 0), bit(K_PARAM)), RR); if (m.want == E_OBJ) m.want = ANY; }},
  {"ccs_binding_set_value_by_parameter", [](M &m) { P o = m.pick(BIND); NEED(o && bind_n(o)); P c = ctx_of(m, o), x = c ? foreign_param(m, c) : nullptr; if (x && m.h() % 2) { m.ran = true; m.want = E_PAR; m.what = "ccs_binding_set_value_by_parameter with a parameter of another space"; m.res = m.call([&] { return ccs_binding_set_value_by_parameter((ccs_binding_t)o->h, (ccs_parameter_t)x->h, ccs_int(1)); }); return; }
    C(ccs_binding_set_value_by_parameter, O(m, o, BIND, false, false), O(m, (ccs_object_t)bind_p(o, 0), bit(K_PARAM)), V(bval(o, 0))); if (m.want == E_OBJ) m.want = ANY; }},
  // configurations, features
  {"ccs_create_configuration", [](M &m) { U(K_CSPACE); size_t n = ctx_n(o); NEED(n); ccs_datum_t *a = dbuf(m, n); for (size_t i = 0; i < n; i++) ccs_parameter_get_default_value(ctx_p(o, i), &a[i]); C(ccs_create_configuration, OO, N(n), R(a), RR); }},
  G(ccs_configuration_get_configuration_space, K_CONF), BINDING(ccs_configuration, bit(K_CONF), true), BLIST(ccs_configuration, bit(K_CONF), ccs_configuration_t, true), GV(ccs_configuration_check, K_CONF),
  {"ccs_create_features", [](M &m) { U(K_FSPACE); size_t n = ctx_n(o); NEED(n); ccs_datum_t *a = dbuf(m, n); for (size_t i = 0; i < n; i++) ccs_parameter_get_default_value(ctx_p(o, i), &a[i]); C(ccs_create_features, OO, N(n), R(a), RR); }},
  G(ccs_features_get_features_space, K_FEAT), BINDING(ccs_features, bit(K_FEAT), true), BLIST(ccs_features, bit(K_FEAT), ccs_features_t, true), GV(ccs_features_check, K_FEAT),
  // spaces
  SPACE(ccs_context, CTX, ccs_context_t, false), SPACE(ccs_configuration_space, bit(K_CSPACE), ccs_configuration_space_t, true), SPACE(ccs_features_space, bit(K_FSPACE), ccs_features_space_t, true), SPACE(ccs_objective_space, bit(K_OSPACE), ccs_objective_space_t, true),
  {"ccs_create_configuration_space", [](M &m) { C(ccs_create_configuration_space, S("x"), RR); }}, {"ccs_create_features_space", [](M &m) { C(ccs_create_features_space, S("x"), RR); }}, {"ccs_create_objective_space", [](M &m) { C(ccs_create_objective_space, S("x"), RR); }},
  {"ccs_configuration_space_set_rng", [](M &m) { U(K_CSPACE); P g = m.pick(bit(K_RNG)); NEED(g); C(ccs_configuration_space_set_rng, OO, O(m, g, bit(K_RNG))); }}, G(ccs_configuration_space_get_rng, K_CSPACE),
  {"ccs_configuration_space_add_parameter", [](M &m) { U(K_CSPACE); P x = foreign_param(m, o); NEED(x); C(ccs_configuration_space_add_parameter, OO, O(m, x, bit(K_PARAM)), V((ccs_distribution_t)nullptr)); m.want = m.want == E_OBJ ? E_OBJ : ANY; }},
  {"ccs_configuration_space_add_parameter (2)", [](M &m) { U(K_CSPACE); P x = foreign_param(m, o); NEED(x && !named_in(o, x->h) && !ispar(*x, CCS_PARAMETER_TYPE_STRING)); P d = m.pick(bit(K_DIST), [](const Obj &q) { return ddim(std::make_shared<Obj>(q)) == 1; }); NEED(d); O dd(m, d, bit(K_DIST), true); NEED(dd.nv); m.ran = true; m.what = "ccs_configuration_space_add_parameter with an object that is no distribution"; m.want = E_OBJ; m.res = m.call([&] { return ccs_configuration_space_add_parameter((ccs_configuration_space_t)o->h, (ccs_parameter_t)x->h, (ccs_distribution_t)dd.bad); }); }},
  {"ccs_configuration_space_add_parameter (3)", [](M &m) { U(K_CSPACE); P x = any_param(m, [](const Obj &q) { return ispar(q, CCS_PARAMETER_TYPE_STRING); }); NEED(x); m.ran = true; m.what = "ccs_configuration_space_add_parameter with a string parameter"; m.want = E_PAR; m.res = m.call([&] { return ccs_configuration_space_add_parameter((ccs_configuration_space_t)o->h, (ccs_parameter_t)x->h, nullptr); }); }},
  {"ccs_configuration_space_add_parameter (4)", [](M &m) { U(K_CSPACE); P x = foreign_param(m, o); P d = m.pick(bit(K_DIST), [](const Obj &q) { return ddim(std::make_shared<Obj>(q)) > 1; }); NEED(d && x && !ispar(*x, CCS_PARAMETER_TYPE_STRING)); m.ran = true; m.what = "ccs_configuration_space_add_parameter with a distribution of several dimensions"; m.want = ANY; m.res = m.call([&] { return ccs_configuration_space_add_parameter((ccs_configuration_space_t)o->h, (ccs_parameter_t)x->h, (ccs_distribution_t)d->h); }); }},
  {"ccs_configuration_space_add_parameters", [](M &m) { U(K_CSPACE); P x = foreign_param(m, o); NEED(x); C(ccs_configuration_space_add_parameters, OO, V((size_t)1), HA(m, {x->h}, bit(K_PARAM)), V((ccs_distribution_t *)nullptr)); }},
  {"ccs_configuration_space_set_distribution", [](M &m) { U(K_CSPACE); P d = m.pick(bit(K_DIST)); NEED(d && ctx_n(o)); size_t k = ddim(d); size_t *a = buf<size_t>(m, k); for (size_t i = 0; i < k; i++) a[i] = i; int v = (int)(m.h() % 3);
    if (v == 0) { a[m.h() % k] = m.h() % 2 ? ctx_n(o) + m.h() % 2 : (m.h() % 2 ? (size_t)-1 : ((size_t)1 << 32)); m.ran = true; m.want = ANY; m.what = "ccs_configuration_space_set_distribution with an index out of range"; m.res = m.call([&] { return ccs_configuration_space_set_distribution((ccs_configuration_space_t)o->h, (ccs_distribution_t)d->h, a); }); return; }
    if (v == 1 && k > 1) { size_t j = 1 + m.h() % (k - 1); a[j] = a[m.h() % j]; if (m.h() % 2) for (size_t i = 0; i < k; i++) a[i] %= ctx_n(o); m.ran = true; m.want = ANY; m.what = "ccs_configuration_space_set_distribution with an index twice"; m.res = m.call([&] { return ccs_configuration_space_set_distribution((ccs_configuration_space_t)o->h, (ccs_distribution_t)d->h, a); }); return; }
    C(ccs_configuration_space_set_distribution, OO, O(m, d, bit(K_DIST)), R(a)); }},
  {"ccs_configuration_space_get_parameter_distribution", [](M &m) { U(K_CSPACE); NEED(ctx_n(o)); C(ccs_configuration_space_get_parameter_distribution, OO, I(m.h() % ctx_n(o), ctx_n(o)), RR, RR); }},
  {"ccs_configuration_space_set_condition", [](M &m) { U(K_CSPACE); P e = m.pick(bit(K_EXPR)); NEED(e && ctx_n(o)); C(ccs_configuration_space_set_condition, OO, I(m.h() % ctx_n(o), ctx_n(o)), O(m, e, bit(K_EXPR))); if (m.want == E_OOB) m.want = ANY; }},
  {"ccs_configuration_space_get_condition", [](M &m) { U(K_CSPACE); NEED(ctx_n(o)); C(ccs_configuration_space_get_condition, OO, I(m.h() % ctx_n(o), ctx_n(o)), RR); }},
  {"ccs_configuration_space_get_conditions", [](M &m) { U(K_CSPACE); L(ccs_configuration_space_get_conditions, ccs_configuration_space_t, ccs_expression_t, o, true); }},
  {"ccs_configuration_space_add_forbidden_clause", [](M &m) { U(K_CSPACE); P e = m.pick(bit(K_EXPR)); NEED(e); C(ccs_configuration_space_add_forbidden_clause, OO, O(m, e, bit(K_EXPR))); }},
  {"ccs_configuration_space_add_forbidden_clauses", [](M &m) { U(K_CSPACE); P e = m.pick(bit(K_EXPR)); NEED(e); C(ccs_configuration_space_add_forbidden_clauses, OO, V((size_t)1), HA(m, {e->h}, bit(K_EXPR))); }},
  {"ccs_configuration_space_get_forbidden_clause", [](M &m) { U(K_CSPACE); size_t n = 0; NEED(ccs_configuration_space_get_forbidden_clauses((ccs_configuration_space_t)o->h, 0, nullptr, &n) >= 0); if (!n) { m.ran = true; m.want = E_OOB; m.what = "ccs_configuration_space_get_forbidden_clause without clauses"; ccs_expression_t e; m.res = m.call([&] { return ccs_configuration_space_get_forbidden_clause((ccs_configuration_space_t)o->h, m.h() % 2 ? 0 : (size_t)1 << 32, &e); }); return; } C(ccs_configuration_space_get_forbidden_clause, OO, I(m.h() % n, n), RR); }},
  {"ccs_configuration_space_get_forbidden_clauses", [](M &m) { U(K_CSPACE); L(ccs_configuration_space_get_forbidden_clauses, ccs_configuration_space_t, ccs_expression_t, o, true); }},
  {"ccs_configuration_space_check_configuration", [](M &m) { U(K_CONF); P s = ctx_of(m, o); NEED(s); P s2 = m.pick(bit(K_CSPACE), [&](const Obj &q) { return q.h != s->h; }); if (s2 && m.h() % 2) { m.ran = true; m.want = CCS_RESULT_ERROR_INVALID_CONFIGURATION; m.what = "ccs_configuration_space_check_configuration with a configuration of another space"; ccs_bool_t b; m.res = m.call([&] { return ccs_configuration_space_check_configuration((ccs_configuration_space_t)s2->h, (ccs_configuration_t)o->h, &b); }); return; }
    C(ccs_configuration_space_check_configuration, O(m, s, bit(K_CSPACE)), OO, V((ccs_bool_t *)m.scratch())); }},
  {"ccs_configuration_space_check_configuration_values", [](M &m) { U(K_CSPACE); size_t n = ctx_n(o); NEED(n); ccs_datum_t *a = dbuf(m, n); for (size_t i = 0; i < n; i++) ccs_parameter_get_default_value(ctx_p(o, i), &a[i]); C(ccs_configuration_space_check_configuration_values, OO, N(n, CCS_RESULT_ERROR_INVALID_CONFIGURATION), R(a), V((ccs_bool_t *)m.scratch())); }},
  G(ccs_configuration_space_get_default_configuration, K_CSPACE), G(ccs_configuration_space_sample, K_CSPACE),
  {"ccs_configuration_space_samples", [](M &m) { U(K_CSPACE); C(ccs_configuration_space_samples, OO, V((size_t)2), RR); }},
  {"ccs_features_space_add_parameter", [](M &m) { U(K_FSPACE); P x = foreign_param(m, o); NEED(x); C(ccs_features_space_add_parameter, OO, O(m, x, bit(K_PARAM))); }},
  {"ccs_features_space_add_parameters", [](M &m) { U(K_FSPACE); P x = foreign_param(m, o); NEED(x); C(ccs_features_space_add_parameters, OO, V((size_t)1), HA(m, {x->h}, bit(K_PARAM))); }},
  {"ccs_features_space_check_features", [](M &m) { U(K_FEAT); P s = ctx_of(m, o); NEED(s); P s2 = m.pick(bit(K_FSPACE), [&](const Obj &q) { return q.h != s->h; }); if (s2 && m.h() % 2) { m.ran = true; m.want = CCS_RESULT_ERROR_INVALID_FEATURES; m.what = "ccs_features_space_check_features with features of another space"; ccs_bool_t b; m.res = m.call([&] { return ccs_features_space_check_features((ccs_features_space_t)s2->h, (ccs_features_t)o->h, &b); }); return; }
    C(ccs_features_space_check_features, O(m, s, bit(K_FSPACE)), OO, V((ccs_bool_t *)m.scratch())); }},
  {"ccs_features_space_check_features_values", [](M &m) { U(K_FSPACE); size_t n = ctx_n(o); NEED(n); ccs_datum_t *a = dbuf(m, n); for (size_t i = 0; i < n; i++) ccs_parameter_get_default_value(ctx_p(o, i), &a[i]); C(ccs_features_space_check_features_values, OO, N(n, CCS_RESULT_ERROR_INVALID_FEATURES), R(a), V((ccs_bool_t *)m.scratch())); }},
  {"ccs_objective_space_add_parameter", [](M &m) { U(K_OSPACE); P x = foreign_param(m, o); NEED(x); C(ccs_objective_space_add_parameter, OO, O(m, x, bit(K_PARAM))); }},
  {"ccs_objective_space_add_parameters", [](M &m) { U(K_OSPACE); P x = foreign_param(m, o); NEED(x); C(ccs_objective_space_add_parameters, OO, V((size_t)1), HA(m, {x->h}, bit(K_PARAM))); }},
  {"ccs_objective_space_check_evaluation_values", [](M &m) { U(K_OSPACE); size_t n = ctx_n(o); NEED(n); ccs_datum_t *a = dbuf(m, n); for (size_t i = 0; i < n; i++) ccs_parameter_get_default_value(ctx_p(o, i), &a[i]); C(ccs_objective_space_check_evaluation_values, OO, N(n, CCS_RESULT_ERROR_INVALID_EVALUATION), R(a), V((ccs_bool_t *)m.scratch())); }},
  {"ccs_objective_space_add_objective", [](M &m) { U(K_OSPACE); P e = m.pick(bit(K_EXPR)); NEED(e); C(ccs_objective_space_add_objective, OO, O(m, e, bit(K_EXPR)), V(CCS_OBJECTIVE_TYPE_MINIMIZE)); }},
  {"ccs_objective_space_add_objectives", [](M &m) { U(K_OSPACE); P e = m.pick(bit(K_EXPR)); NEED(e); ccs_objective_type_t *t = buf<ccs_objective_type_t>(m, 1); t[0] = CCS_OBJECTIVE_TYPE_MAXIMIZE; C(ccs_objective_space_add_objectives, OO, V((size_t)1), HA(m, {e->h}, bit(K_EXPR)), R(t)); }},
  {"ccs_objective_space_get_objective", [](M &m) { U(K_OSPACE); size_t n = 0; NEED(ccs_objective_space_get_objectives((ccs_objective_space_t)o->h, 0, nullptr, nullptr, &n) >= 0 && n); C(ccs_objective_space_get_objective, OO, I(m.h() % n, n), RR, RR); }},
  {"ccs_objective_space_get_objectives", [](M &m) { U(K_OSPACE); size_t n = 0; NEED(ccs_objective_space_get_objectives((ccs_objective_space_t)o->h, 0, nullptr, nullptr, &n) >= 0 && n); if (n > 1 && m.h() % 2) { m.ran = true; m.want = E_VAL; m.what = "ccs_objective_space_get_objectives with too little room"; void *a = m.scratch(n * 8), *b = m.scratch(n * 8); m.res = m.call([&] { return ccs_objective_space_get_objectives((ccs_objective_space_t)o->h, n - 1, (ccs_expression_t *)a, (ccs_objective_type_t *)b, &n); }); return; }
    if (m.h() % 3 == 0) { size_t room = n + m.h() % 5, got = 0; ccs_expression_t *a = (ccs_expression_t *)m.scratch((room + 1) * 8); ccs_objective_type_t *b = (ccs_objective_type_t *)m.scratch((room + 1) * 8); for (size_t i = 0; i <= room; i++) a[i] = (ccs_expression_t)(uintptr_t)0x5a5a5a5a, b[i] = (ccs_objective_type_t)0x5a5a; m.ran = true; m.want = CCS_RESULT_SUCCESS; m.good = true; m.what = fmt("ccs_objective_space_get_objectives with room for %zu of %zu", room, n);
      m.res = m.call([&] { return ccs_objective_space_get_objectives((ccs_objective_space_t)o->h, room, a, b, &got); }); if (m.res < 0) return;
      if (got != n) m.after = fmt("counts %zu", got);
      for (size_t i = 0; i < n; i++) { ccs_expression_t e = nullptr; ccs_objective_type_t t; if (ccs_objective_space_get_objective((ccs_objective_space_t)o->h, i, &e, &t) < 0 || e != a[i] || t != b[i]) m.after = fmt("element %zu is not the one ccs_objective_space_get_objective gives", i); }
      for (size_t i = n; i < room; i++) if (a[i]) m.after = fmt("element %zu beyond the list was left as it was", i);
      if (a[room] != (ccs_expression_t)(uintptr_t)0x5a5a5a5a || b[room] != (ccs_objective_type_t)0x5a5a) m.after = "wrote beyond the given room";
      return; }
    C(ccs_objective_space_get_objectives, OO, V(n), R(m.scratch(n * 8 + 8)), R(m.scratch(n * 8 + 8)), V((size_t *)m.scratch())); }},
  // distributions
  {"ccs_create_normal_distribution", [](M &m) { bool f = m.h() % 2; C(ccs_create_normal_distribution, V(f ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT), V(0.0), V(1.0), En(CCS_SCALE_TYPE_LINEAR, {99, -3}, CCS_RESULT_ERROR_INVALID_SCALE), V(f ? nf(0) : ni(0)), RR); }},
  {"ccs_create_normal_distribution (2)", [](M &m) { C(ccs_create_normal_distribution, En(CCS_NUMERIC_TYPE_FLOAT, {CCS_DATA_TYPE_STRING, 99}, CCS_RESULT_ERROR_INVALID_TYPE), V(0.0), V(1.0), V(CCS_SCALE_TYPE_LINEAR), V(nf(0)), RR); }},
  {"ccs_create_normal_int_distribution", [](M &m) { C(ccs_create_normal_int_distribution, V(0.0), V(1.0), En(CCS_SCALE_TYPE_LINEAR, {99}, CCS_RESULT_ERROR_INVALID_SCALE), B<ccs_int_t>(0, {-1, -5}), RR); }},
  {"ccs_create_normal_float_distribution", [](M &m) { C(ccs_create_normal_float_distribution, V(0.0), V(1.0), En(CCS_SCALE_TYPE_LINEAR, {99}, CCS_RESULT_ERROR_INVALID_SCALE), B<ccs_float_t>(0, {-1.0}), RR); }},
  {"ccs_create_uniform_distribution", [](M &m) { C(ccs_create_uniform_distribution, En(CCS_NUMERIC_TYPE_INT, {CCS_DATA_TYPE_STRING, 99}, CCS_RESULT_ERROR_INVALID_TYPE), V(ni(1)), V(ni(9)), En(CCS_SCALE_TYPE_LINEAR, {99, -2}, CCS_RESULT_ERROR_INVALID_SCALE), V(ni(0)), RR); }},
  {"ccs_create_uniform_int_distribution", [](M &m) { C(ccs_create_uniform_int_distribution, B<ccs_int_t>(1, {9, 10, 100}), B<ccs_int_t>(9, {1, 0, -5}), En(CCS_SCALE_TYPE_LINEAR, {99}, CCS_RESULT_ERROR_INVALID_SCALE), B<ccs_int_t>(2, {-1, 9, 100}), RR); }},
  {"ccs_create_uniform_int_distribution (2)", [](M &m) { C(ccs_create_uniform_int_distribution, B<ccs_int_t>(1, {0, -1}), V((ccs_int_t)9), V(CCS_SCALE_TYPE_LOGARITHMIC), V((ccs_int_t)0), RR); }},
  {"ccs_create_uniform_float_distribution", [](M &m) { C(ccs_create_uniform_float_distribution, B<ccs_float_t>(1, {9, 10}), B<ccs_float_t>(9, {1, 0}), En(CCS_SCALE_TYPE_LINEAR, {99}, CCS_RESULT_ERROR_INVALID_SCALE), B<ccs_float_t>(2, {-1, 9, 100}), RR); }},
  {"ccs_create_uniform_float_distribution (2)", [](M &m) { C(ccs_create_uniform_float_distribution, B<ccs_float_t>(1, {0, -1}), V(9.0), V(CCS_SCALE_TYPE_LOGARITHMIC), V(0.0), RR); }},
  {"ccs_create_roulette_distribution", [](M &m) { double *a = buf<double>(m, 3); a[0] = 1; a[1] = 0; a[2] = 2; int k = (int)(m.h() % 4); if (k < 2) { if (k == 0) a[0] = a[2] = 0; else a[m.h() % 3] = -1; m.ran = true; m.want = E_VAL; m.what = "ccs_create_roulette_distribution with areas that cannot be normalised"; ccs_distribution_t d; m.res = m.call([&] { return ccs_create_roulette_distribution(3, a, &d); }); return; } C(ccs_create_roulette_distribution, B<size_t>(3, {0}), R(a), RR); }},
  {"ccs_create_mixture_distribution", [](M &m) { U(K_DIST); double *w = buf<double>(m, 2); w[0] = 1; w[1] = 2; int k = (int)(m.h() % 4); if (k == 0) { w[0] = w[1] = 0; m.ran = true; m.want = E_VAL; m.what = "ccs_create_mixture_distribution with weights that sum to 0"; ccs_distribution_t a[2] = {(ccs_distribution_t)o->h, (ccs_distribution_t)o->h}, d; m.res = m.call([&] { return ccs_create_mixture_distribution(2, a, w, &d); }); return; }
    if (k == 1) { P q = m.pick(bit(K_DIST), [&](const Obj &x) { return ddim(std::make_shared<Obj>(x)) != ddim(o); }); NEED(q); m.ran = true; m.want = E_DIST; m.what = "ccs_create_mixture_distribution of different dimensions"; ccs_distribution_t a[2] = {(ccs_distribution_t)o->h, (ccs_distribution_t)q->h}, d; m.res = m.call([&] { return ccs_create_mixture_distribution(2, a, w, &d); }); return; }
    C(ccs_create_mixture_distribution, B<size_t>(2, {0}), HA(m, {o->h, o->h}, bit(K_DIST)), R(w), RR); }},
  {"ccs_create_multivariate_distribution", [](M &m) { U(K_DIST); C(ccs_create_multivariate_distribution, B<size_t>(2, {0}), HA(m, {o->h, o->h}, bit(K_DIST)), RR); }},
  G(ccs_distribution_get_type, K_DIST), G(ccs_distribution_get_dimension, K_DIST), G(ccs_distribution_get_data_types, K_DIST),
  {"ccs_distribution_get_bounds", [](M &m) { U(K_DIST); C(ccs_distribution_get_bounds, OO, R(m.scratch(4096))); }},
  {"ccs_distribution_check_oversampling", [](M &m) { U(K_DIST); size_t n = ddim(o); ccs_interval_t *a = buf<ccs_interval_t>(m, n); NEED(ccs_distribution_get_bounds((ccs_distribution_t)o->h, a) >= 0); C(ccs_distribution_check_oversampling, OO, R(a), R(m.scratch(4096))); }},
  {"ccs_normal_distribution_get_properties", [](M &m) { bool wrong = m.h() % 3 == 0; P o = m.pick(bit(K_DIST), [&](const Obj &q) { return isdist(q, CCS_DISTRIBUTION_TYPE_NORMAL) != wrong; }); NEED(o); ccs_float_t a; if (wrong) { wrongsub(m, "ccs_normal_distribution_get_properties", o, E_DIST, [&](ccs_object_t h) { return ccs_normal_distribution_get_properties((ccs_distribution_t)h, &a, nullptr, nullptr, nullptr); }); return; } C(ccs_normal_distribution_get_properties, OO, R(m.scratch()), V((ccs_float_t *)nullptr), V((ccs_scale_type_t *)nullptr), V((ccs_numeric_t *)nullptr)); }},
  {"ccs_uniform_distribution_get_properties", [](M &m) { bool wrong = m.h() % 3 == 0; P o = m.pick(bit(K_DIST), [&](const Obj &q) { return isdist(q, CCS_DISTRIBUTION_TYPE_UNIFORM) != wrong; }); NEED(o); ccs_numeric_t a; if (wrong) { wrongsub(m, "ccs_uniform_distribution_get_properties", o, E_DIST, [&](ccs_object_t h) { return ccs_uniform_distribution_get_properties((ccs_distribution_t)h, &a, nullptr, nullptr, nullptr); }); return; } C(ccs_uniform_distribution_get_properties, OO, R(m.scratch()), V((ccs_numeric_t *)nullptr), V((ccs_scale_type_t *)nullptr), V((ccs_numeric_t *)nullptr)); }},
  {"ccs_roulette_distribution_get_num_areas", [](M &m) { bool wrong = m.h() % 3 == 0; P o = m.pick(bit(K_DIST), [&](const Obj &q) { return isdist(q, CCS_DISTRIBUTION_TYPE_ROULETTE) != wrong; }); NEED(o); size_t n; if (wrong) { wrongsub(m, "ccs_roulette_distribution_get_num_areas", o, E_DIST, [&](ccs_object_t h) { return ccs_roulette_distribution_get_num_areas((ccs_distribution_t)h, &n); }); return; } C(ccs_roulette_distribution_get_num_areas, OO, RR); }},
  {"ccs_mixture_distribution_get_num_distributions", [](M &m) { bool wrong = m.h() % 3 == 0; P o = m.pick(bit(K_DIST), [&](const Obj &q) { return isdist(q, CCS_DISTRIBUTION_TYPE_MIXTURE) != wrong; }); NEED(o); size_t n; if (wrong) { wrongsub(m, "ccs_mixture_distribution_get_num_distributions", o, E_DIST, [&](ccs_object_t h) { return ccs_mixture_distribution_get_num_distributions((ccs_distribution_t)h, &n); }); return; } C(ccs_mixture_distribution_get_num_distributions, OO, RR); }},
  {"ccs_multivariate_distribution_get_num_distributions", [](M &m) { bool wrong = m.h() % 3 == 0; P o = m.pick(bit(K_DIST), [&](const Obj &q) { return isdist(q, CCS_DISTRIBUTION_TYPE_MULTIVARIATE) != wrong; }); NEED(o); size_t n; if (wrong) { wrongsub(m, "ccs_multivariate_distribution_get_num_distributions", o, E_DIST, [&](ccs_object_t h) { return ccs_multivariate_distribution_get_num_distributions((ccs_distribution_t)h, &n); }); return; } C(ccs_multivariate_distribution_get_num_distributions, OO, RR); }},
  SUBL(ccs_roulette_distribution_get_areas, ccs_distribution_t, ccs_float_t, K_DIST, isdist, CCS_DISTRIBUTION_TYPE_ROULETTE, E_DIST),
  SUBL(ccs_mixture_distribution_get_distributions, ccs_distribution_t, ccs_distribution_t, K_DIST, isdist, CCS_DISTRIBUTION_TYPE_MIXTURE, E_DIST),
  SUBL(ccs_mixture_distribution_get_weights, ccs_distribution_t, ccs_float_t, K_DIST, isdist, CCS_DISTRIBUTION_TYPE_MIXTURE, E_DIST),
  SUBL(ccs_multivariate_distribution_get_distributions, ccs_distribution_t, ccs_distribution_t, K_DIST, isdist, CCS_DISTRIBUTION_TYPE_MULTIVARIATE, E_DIST),
  {"ccs_distribution_sample", [](M &m) { U(K_DIST); P g = m.pick(bit(K_RNG)); NEED(g); C(ccs_distribution_sample, OO, O(m, g, bit(K_RNG)), R(m.scratch(4096))); }},
  {"ccs_distribution_samples", [](M &m) { U(K_DIST); P g = m.pick(bit(K_RNG)); NEED(g); C(ccs_distribution_samples, OO, O(m, g, bit(K_RNG)), V((size_t)3), R(m.scratch(4096))); }},
  {"ccs_distribution_strided_samples", [](M &m) { P o = m.h() % 2 ? m.pick(bit(K_DIST), [](const Obj &q) { size_t n = 0; return ccs_distribution_get_dimension((ccs_distribution_t)q.h, &n) >= 0 && n > 1; }) : nullptr; if (!o) o = m.pick(bit(K_DIST)); NEED(o); P g = m.pick(bit(K_RNG)); NEED(g); size_t d = ddim(o); C(ccs_distribution_strided_samples, OO, O(m, g, bit(K_RNG)), V((size_t)3), B<size_t>(d, {d - 1}), R(m.scratch(4096))); }},
  {"ccs_distribution_soa_samples", [](M &m) { U(K_DIST); P g = m.pick(bit(K_RNG)); NEED(g); size_t d = ddim(o); ccs_numeric_t **a = buf<ccs_numeric_t *>(m, d); for (size_t i = 0; i < d; i++) a[i] = (ccs_numeric_t *)m.scratch(); C(ccs_distribution_soa_samples, OO, O(m, g, bit(K_RNG)), V((size_t)3), R(a)); }},
  {"ccs_distribution_parameters_samples", [](M &m) { U(K_DIST); P g = m.pick(bit(K_RNG)); P p = any_param(m, [](const Obj &q) { return !ispar(q, CCS_PARAMETER_TYPE_STRING); }); NEED(g && p); Vec<ccs_object_t> a(ddim(o), p->h); C(ccs_distribution_parameters_samples, OO, O(m, g, bit(K_RNG)), HA(m, a, bit(K_PARAM)), V((size_t)2), R(m.scratch(8192))); }},
  {"ccs_distribution_parameters_sample", [](M &m) { U(K_DIST); P g = m.pick(bit(K_RNG)); P p = any_param(m, [](const Obj &q) { return !ispar(q, CCS_PARAMETER_TYPE_STRING); }); NEED(g && p); Vec<ccs_object_t> a(ddim(o), p->h); C(ccs_distribution_parameters_sample, OO, O(m, g, bit(K_RNG)), HA(m, a, bit(K_PARAM)), R(m.scratch(8192))); }},
  // error stacks
  {"ccs_create_error_stack", [](M &m) { m.ran = true; m.want = E_VAL; m.what = "ccs_create_error_stack without result pointer"; m.res = m.call([&] { return ccs_create_error_stack(nullptr, CCS_RESULT_ERROR_INVALID_VALUE, "x"); }); }},
  G(ccs_error_stack_get_message, K_ESTACK), G(ccs_error_stack_get_code, K_ESTACK),
  {"ccs_error_stack_get_elems", [](M &m) { U(K_ESTACK); C(ccs_error_stack_get_elems, OO, RR, RR); }},
  {"ccs_error_stack_push", [](M &m) { P w = m.pick(~bit(K_ESTACK)); m.ran = true; m.want = E_OBJ; m.what = "ccs_error_stack_push without error stack"; m.res = m.call([&] { return ccs_error_stack_push(w && m.h() % 2 ? (ccs_error_stack_t)w->h : nullptr, "f", 1, "g"); }); }},
  {"ccs_set_thread_error", [](M &m) { P w = m.pick(~bit(K_ESTACK)); NEED(w); m.ran = true; m.want = E_OBJ; m.what = "ccs_set_thread_error with an object of another type"; m.res = m.call([&] { return ccs_set_thread_error((ccs_error_stack_t)w->h); }); }},
  // evaluations
  BINDING(ccs_evaluation, bit(K_EVAL), true), BINDING(ccs_features_evaluation, bit(K_FEVAL), true), BINDING(ccs_tree_evaluation, bit(K_TEVAL), true),
  BLIST(ccs_evaluation, bit(K_EVAL), ccs_evaluation_t, true), BLIST(ccs_features_evaluation, bit(K_FEVAL), ccs_features_evaluation_t, true), BLIST(ccs_tree_evaluation, bit(K_TEVAL), ccs_tree_evaluation_t, true),
  EVAL(ccs_evaluation, K_EVAL, ccs_evaluation_t), EVAL(ccs_features_evaluation, K_FEVAL, ccs_features_evaluation_t), EVAL(ccs_tree_evaluation, K_TEVAL, ccs_tree_evaluation_t), G(ccs_features_evaluation_get_features, K_FEVAL),
  {"ccs_create_evaluation", [](M &m) { U(K_OSPACE); P c = m.pick(bit(K_CONF)); size_t n = ctx_n(o); NEED(c && n); ccs_datum_t *a = dbuf(m, n); for (size_t i = 0; i < n; i++) ccs_parameter_get_default_value(ctx_p(o, i), &a[i]); C(ccs_create_evaluation, OO, O(m, c, bit(K_CONF)), V(CCS_RESULT_SUCCESS), N(n), R(a), RR); }},
  {"ccs_create_features_evaluation", [](M &m) { U(K_OSPACE); P c = m.pick(bit(K_CONF)), f = m.pick(bit(K_FEAT)); size_t n = ctx_n(o); NEED(c && f && n); ccs_datum_t *a = dbuf(m, n); for (size_t i = 0; i < n; i++) ccs_parameter_get_default_value(ctx_p(o, i), &a[i]); C(ccs_create_features_evaluation, OO, O(m, c, bit(K_CONF)), O(m, f, bit(K_FEAT)), V(CCS_RESULT_SUCCESS), N(n), R(a), RR); }},
  {"ccs_create_tree_evaluation", [](M &m) { U(K_OSPACE); P c = m.pick(bit(K_TCONF)); size_t n = ctx_n(o); NEED(c && n); ccs_datum_t *a = dbuf(m, n); for (size_t i = 0; i < n; i++) ccs_parameter_get_default_value(ctx_p(o, i), &a[i]); C(ccs_create_tree_evaluation, OO, O(m, c, bit(K_TCONF)), V(CCS_RESULT_SUCCESS), N(n), R(a), RR); }},
  // expressions
  {"ccs_create_expression", [](M &m) { ccs_datum_t *a = dbuf(m, 3); int k = (int)(m.h() % 4); ccs_expression_t e; if (k == 0) { P w = m.pick(~(bit(K_PARAM) | bit(K_EXPR))); NEED(w); a[0] = ccs_object(w->h); } else if (k == 1) { a[1] = ccs_object(nullptr); } if (k < 2) { m.ran = true; m.want = ANY; m.what = "ccs_create_expression with a node that is neither parameter nor expression"; m.res = m.call([&] { return ccs_create_expression(CCS_EXPRESSION_TYPE_ADD, 2, a, &e); }); return; }
    C(ccs_create_expression, En(CCS_EXPRESSION_TYPE_ADD, {99, -2, CCS_EXPRESSION_TYPE_LITERAL, CCS_EXPRESSION_TYPE_VARIABLE, CCS_EXPRESSION_TYPE_NOT}, ANY), N(2), R(a), RR); }},
  {"ccs_create_binary_expression", [](M &m) { C(ccs_create_binary_expression, En(CCS_EXPRESSION_TYPE_ADD, {99, -2, CCS_EXPRESSION_TYPE_NOT, CCS_EXPRESSION_TYPE_LITERAL}, ANY), V(ccs_int(1)), V(ccs_int(2)), RR); }},
  {"ccs_create_unary_expression", [](M &m) { C(ccs_create_unary_expression, En(CCS_EXPRESSION_TYPE_NOT, {99, -2, CCS_EXPRESSION_TYPE_ADD, CCS_EXPRESSION_TYPE_VARIABLE}, ANY), V(ccs_bool(CCS_TRUE)), RR); }},
  {"ccs_create_literal", [](M &m) { P w = m.pick(ALLK); if (w && m.h() % 2) { m.ran = true; m.want = E_VAL; m.what = "ccs_create_literal of an object"; ccs_expression_t e; m.res = m.call([&] { return ccs_create_literal(ccs_object(w->h), &e); }); return; } C(ccs_create_literal, V(ccs_int(1)), RR); }},
  {"ccs_create_variable", [](M &m) { U(K_PARAM); C(ccs_create_variable, OO, RR); }},
  G(ccs_expression_get_type, K_EXPR), G(ccs_expression_get_num_nodes, K_EXPR),
  {"ccs_expression_get_nodes", [](M &m) { U(K_EXPR); L(ccs_expression_get_nodes, ccs_expression_t, ccs_expression_t, o, true); }},
  {"ccs_expression_get_parameters", [](M &m) { U(K_EXPR); L(ccs_expression_get_parameters, ccs_expression_t, ccs_parameter_t, o, true); }},
  {"ccs_literal_get_value", [](M &m) { bool wrong = m.h() % 3 == 0; P o = m.pick(bit(K_EXPR), [&](const Obj &q) { return isexp(q, CCS_EXPRESSION_TYPE_LITERAL) != wrong; }); NEED(o); ccs_datum_t d; if (wrong) { wrongsub(m, "ccs_literal_get_value", o, E_EXPR, [&](ccs_object_t h) { return ccs_literal_get_value((ccs_expression_t)h, &d); }); return; } C(ccs_literal_get_value, OO, RR); }},
  {"ccs_variable_get_parameter", [](M &m) { bool wrong = m.h() % 3 == 0; P o = m.pick(bit(K_EXPR), [&](const Obj &q) { return isexp(q, CCS_EXPRESSION_TYPE_VARIABLE) != wrong; }); NEED(o); ccs_parameter_t d; if (wrong) { wrongsub(m, "ccs_variable_get_parameter", o, E_EXPR, [&](ccs_object_t h) { return ccs_variable_get_parameter((ccs_expression_t)h, &d); }); return; } C(ccs_variable_get_parameter, OO, RR); }},
  {"ccs_expression_eval", [](M &m) { U(K_EXPR); C(ccs_expression_eval, OO, V((ccs_context_t)nullptr), V((ccs_datum_t *)nullptr), RR); }},
  {"ccs_expression_eval (2)", [](M &m) { P o = m.pick(bit(K_EXPR), [](const Obj &q) { return isexp(q, CCS_EXPRESSION_TYPE_VARIABLE); }); NEED(o); m.ran = true; m.want = ANY; m.what = "ccs_expression_eval of a variable without context or values"; ccs_datum_t d; P c = m.pick(CTX); ccs_datum_t *a = dbuf(m, 64); int k = (int)(m.h() % 2); m.res = m.call([&] { return ccs_expression_eval((ccs_expression_t)o->h, k ? nullptr : c ? (ccs_context_t)c->h : nullptr, k ? a : nullptr, &d); }); }},
  {"ccs_expression_list_eval_node", [](M &m) { bool wrong = m.h() % 3 == 0; P o = m.pick(bit(K_EXPR), [&](const Obj &q) { return isexp(q, CCS_EXPRESSION_TYPE_LIST) != wrong; }); NEED(o); ccs_datum_t d; if (wrong) { wrongsub(m, "ccs_expression_list_eval_node", o, E_EXPR, [&](ccs_object_t h) { return ccs_expression_list_eval_node((ccs_expression_t)h, nullptr, nullptr, 0, &d); }); return; } size_t n = 0; NEED(ccs_expression_get_num_nodes((ccs_expression_t)o->h, &n) >= 0 && n); C(ccs_expression_list_eval_node, OO, V((ccs_context_t)nullptr), V((ccs_datum_t *)nullptr), I(m.h() % n, n), RR); if (m.want == E_OOB) m.want = ANY; }},
  {"ccs_expression_check_context", [](M &m) { P o = m.pick(bit(K_EXPR), [](const Obj &q) { size_t n = 0; return ccs_expression_get_parameters((ccs_expression_t)q.h, 0, nullptr, &n) >= 0 && n > 0; }); P c = m.pick(CTX); NEED(o && c); int k = (int)(m.h() % 3); m.ran = true; m.want = k == 0 ? E_OBJ : ANY; m.what = fmt("ccs_expression_check_context with %s", k == 0 ? "no expression" : k == 1 ? "no context" : "a context without its parameters"); if (k == 2) { size_t n = 0; ccs_expression_get_parameters((ccs_expression_t)o->h, 0, nullptr, &n); Vec<ccs_parameter_t> ps(n); ccs_expression_get_parameters((ccs_expression_t)o->h, n, ps.data(), nullptr); bool all = true; for (auto p : ps) all = all && in_ctx(c, (ccs_object_t)p); if (all) { m.ran = false; m.none = true; return; } m.want = E_PAR; }
    m.res = m.call([&] { return ccs_expression_check_context(k == 0 ? nullptr : (ccs_expression_t)o->h, k == 1 ? nullptr : (ccs_context_t)c->h); }); }},
  // intervals
  {"ccs_interval_empty", [](M &m) { static ccs_interval_t i1 = {CCS_NUMERIC_TYPE_INT, {0}, {5}, CCS_TRUE, CCS_FALSE}; C(ccs_interval_empty, R(&i1), RR); }},
  {"ccs_interval_intersect", [](M &m) { static ccs_interval_t i1, i2; i1.type = CCS_NUMERIC_TYPE_INT; i1.lower.i = 0; i1.upper.i = 5; i1.lower_included = i1.upper_included = CCS_TRUE; i2 = i1; if (m.h() % 4 == 0) { i2.type = CCS_NUMERIC_TYPE_FLOAT; i2.lower.f = 0; i2.upper.f = 1; m.ran = true; m.want = CCS_RESULT_ERROR_INVALID_TYPE; m.what = "an interval operation on different types"; int k = (int)(m.h() % 3); ccs_interval_t r; ccs_bool_t b; m.res = m.call([&] { return k == 0 ? ccs_interval_intersect(&i1, &i2, &r) : k == 1 ? ccs_interval_union(&i1, &i2, &r) : ccs_interval_equal(&i1, &i2, &b); }); return; }
    switch (m.h() % 3) { case 0: C(ccs_interval_intersect, R(&i1), R(&i2), RR); break; case 1: C(ccs_interval_union, R(&i1), R(&i2), RR); break; default: C(ccs_interval_equal, R(&i1), R(&i2), RR); } }},
  // maps
  {"ccs_create_map", [](M &m) { C(ccs_create_map, RR); }},
  {"ccs_map_set", [](M &m) { U(K_MAP); C(ccs_map_set, OO, V(ccs_int(1)), V(ccs_int(2))); }}, {"ccs_map_exist", [](M &m) { U(K_MAP); C(ccs_map_exist, OO, V(ccs_int(1)), RR); }}, {"ccs_map_get", [](M &m) { U(K_MAP); C(ccs_map_get, OO, V(ccs_int(1)), RR); }}, {"ccs_map_clear", [](M &m) { U(K_MAP); C(ccs_map_clear, OO); }},
  {"ccs_map_del", [](M &m) { U(K_MAP); if (m.h() % 2) { m.ran = true; m.want = E_VAL; m.what = "ccs_map_del of an absent key"; m.res = m.call([&] { return ccs_map_del((ccs_map_t)o->h, ccs_float(123456.5)); }); return; } C(ccs_map_del, OO, V(ccs_int(1))); }},
  {"ccs_map_get_keys", [](M &m) { U(K_MAP); L(ccs_map_get_keys, ccs_map_t, ccs_datum_t, o, true); }}, {"ccs_map_get_values", [](M &m) { U(K_MAP); L(ccs_map_get_values, ccs_map_t, ccs_datum_t, o, true); }},
  {"ccs_map_get_pairs", [](M &m) { U(K_MAP); size_t n = 0; NEED(ccs_map_get_pairs((ccs_map_t)o->h, 0, nullptr, nullptr, &n) >= 0 && n); if (n > 1 && m.h() % 3 == 0) { m.ran = true; m.want = E_VAL; m.what = "ccs_map_get_pairs with too little room"; ccs_datum_t *a = dbuf(m, n), *b = dbuf(m, n); size_t q = 1 + m.h() % (n - 1); m.res = m.call([&] { return ccs_map_get_pairs((ccs_map_t)o->h, q, a, b, &n); }); return; } if (m.h() % 3 == 0) { size_t q = n + 1 + m.h() % 4; ccs_datum_t *a = dbuf(m, q), *b = dbuf(m, q); memset((void *)a, 0xEE, q * sizeof *a); memset((void *)b, 0xEE, q * sizeof *b); m.ran = m.good = true; m.what = "ccs_map_get_pairs with more room than pairs"; m.res = m.call([&] { return ccs_map_get_pairs((ccs_map_t)o->h, q, a, b, &n); });
      if (m.res >= 0) for (size_t i = n; i < q; i++) if (a[i].type != CCS_DATA_TYPE_NONE || b[i].type != CCS_DATA_TYPE_NONE) m.after = fmt("pair %zu beyond the list was left as it was", i); return; }
    C(ccs_map_get_pairs, OO, V(n), R(dbuf(m, n)), R(dbuf(m, n)), V((size_t *)m.scratch())); }},
  // parameters
  {"ccs_create_numerical_parameter", [](M &m) { C(ccs_create_numerical_parameter, S("x"), En(CCS_NUMERIC_TYPE_INT, {CCS_DATA_TYPE_STRING, 99}, CCS_RESULT_ERROR_INVALID_TYPE), V(ni(0)), V(ni(9)), V(ni(0)), V(ni(4)), RR); }},
  {"ccs_create_int_numerical_parameter", [](M &m) { C(ccs_create_int_numerical_parameter, S("x"), B<ccs_int_t>(0, {9, 20}), B<ccs_int_t>(9, {0, -1}), B<ccs_int_t>(2, {-1, 10, 100}), B<ccs_int_t>(4, {-1, 9, 100}), RR); }},
  {"ccs_create_float_numerical_parameter", [](M &m) { C(ccs_create_float_numerical_parameter, S("x"), B<ccs_float_t>(0, {9, 20}), B<ccs_float_t>(9, {0, -1}), B<ccs_float_t>(2, {-1, 10, 100}), B<ccs_float_t>(4, {-1, 9, 100, NaN}), RR); }},
  {"ccs_numerical_parameter_get_properties", [](M &m) { bool wrong = m.h() % 3 == 0; P o = m.pick(bit(K_PARAM), [&](const Obj &q) { return ispar(q, CCS_PARAMETER_TYPE_NUMERICAL) != wrong; }); NEED(o); ccs_numeric_type_t t; if (wrong) { wrongsub(m, "ccs_numerical_parameter_get_properties", o, E_PAR, [&](ccs_object_t h) { return ccs_numerical_parameter_get_properties((ccs_parameter_t)h, &t, nullptr, nullptr, nullptr); }); return; } C(ccs_numerical_parameter_get_properties, OO, R(m.scratch()), V((ccs_numeric_t *)nullptr), V((ccs_numeric_t *)nullptr), V((ccs_numeric_t *)nullptr)); }},
  {"ccs_create_categorical_parameter", [](M &m) { ccs_datum_t *a = dbuf(m, 3); if (m.h() % 4 == 0) { a[2] = a[m.h() % 2]; m.ran = true; m.want = ANY; m.what = "ccs_create_categorical_parameter with a repeated value"; ccs_parameter_t p; m.res = m.call([&] { return ccs_create_categorical_parameter("x", 3, a, 0, &p); }); return; } C(ccs_create_categorical_parameter, S("x"), B<size_t>(3, {0}, ANY), R(a, ANY), I(1, 3, ANY), RR); }},
  {"ccs_create_ordinal_parameter", [](M &m) { ccs_datum_t *a = dbuf(m, 3); if (m.h() % 4 == 0) { a[2] = a[m.h() % 2]; m.ran = true; m.want = ANY; m.what = "ccs_create_ordinal_parameter with a repeated value"; ccs_parameter_t p; m.res = m.call([&] { return ccs_create_ordinal_parameter("x", 3, a, 0, &p); }); return; } C(ccs_create_ordinal_parameter, S("x"), B<size_t>(3, {0}, ANY), R(a, ANY), I(1, 3, ANY), RR); }},
  {"ccs_create_discrete_parameter", [](M &m) { ccs_datum_t *a = dbuf(m, 3); if (m.h() % 4 == 0) { a[2] = m.h() % 2 ? a[m.h() % 2] : ccs_string("s"); m.ran = true; m.want = ANY; m.what = "ccs_create_discrete_parameter with a repeated or non-numeric value"; ccs_parameter_t p; m.res = m.call([&] { return ccs_create_discrete_parameter("x", 3, a, 0, &p); }); return; } C(ccs_create_discrete_parameter, S("x"), B<size_t>(3, {0}, ANY), R(a, ANY), I(1, 3, ANY), RR); }},
  {"ccs_create_string_parameter", [](M &m) { C(ccs_create_string_parameter, S("x"), RR); }},
  SUBL(ccs_categorical_parameter_get_values, ccs_parameter_t, ccs_datum_t, K_PARAM, ispar, CCS_PARAMETER_TYPE_CATEGORICAL, E_PAR), SUBL(ccs_ordinal_parameter_get_values, ccs_parameter_t, ccs_datum_t, K_PARAM, ispar, CCS_PARAMETER_TYPE_ORDINAL, E_PAR), SUBL(ccs_discrete_parameter_get_values, ccs_parameter_t, ccs_datum_t, K_PARAM, ispar, CCS_PARAMETER_TYPE_DISCRETE, E_PAR),
  {"ccs_ordinal_parameter_compare_values", [](M &m) { bool wrong = m.h() % 3 == 0; P o = m.pick(bit(K_PARAM), [&](const Obj &q) { return ispar(q, CCS_PARAMETER_TYPE_ORDINAL) != wrong; }); NEED(o); ccs_int_t c; ccs_datum_t d; ccs_parameter_get_default_value((ccs_parameter_t)o->h, &d); if (wrong) { wrongsub(m, "ccs_ordinal_parameter_compare_values", o, E_PAR, [&](ccs_object_t h) { return ccs_ordinal_parameter_compare_values((ccs_parameter_t)h, d, d, &c); }); return; }
    if (m.h() % 2) { m.ran = true; m.want = E_VAL; m.what = "ccs_ordinal_parameter_compare_values with a value that is not possible"; bool f = m.h() % 2; ccs_datum_t x = ccs_float(98765.25); m.res = m.call([&] { return ccs_ordinal_parameter_compare_values((ccs_parameter_t)o->h, f ? x : d, f ? d : x, &c); }); return; } C(ccs_ordinal_parameter_compare_values, OO, V(d), V(d), RR); }},
  G(ccs_parameter_get_type, K_PARAM), G(ccs_parameter_get_default_value, K_PARAM), G(ccs_parameter_get_name, K_PARAM),
  {"ccs_parameter_get_default_distribution", [](M &m) { U(K_PARAM); C(ccs_parameter_get_default_distribution, OO, RR); if (m.want == E_VAL && ispar(*o, CCS_PARAMETER_TYPE_STRING)) m.want = ANY; }},
  {"ccs_parameter_sampling_interval", [](M &m) { U(K_PARAM); C(ccs_parameter_sampling_interval, OO, RR); if (m.want == E_VAL && ispar(*o, CCS_PARAMETER_TYPE_STRING)) m.want = ANY; }},
  {"ccs_parameter_check_value", [](M &m) { U(K_PARAM); C(ccs_parameter_check_value, OO, V(ccs_int(1)), RR); }},
  {"ccs_parameter_check_values", [](M &m) { U(K_PARAM); C(ccs_parameter_check_values, OO, V((size_t)2), R(dbuf(m, 2)), RR); }},
  {"ccs_parameter_validate_value", [](M &m) { U(K_PARAM); ccs_datum_t d; ccs_parameter_get_default_value((ccs_parameter_t)o->h, &d); C(ccs_parameter_validate_value, OO, V(d), RR, RR); }},
  {"ccs_parameter_validate_values", [](M &m) { U(K_PARAM); C(ccs_parameter_validate_values, OO, V((size_t)2), R(dbuf(m, 2)), R(dbuf(m, 2)), RR); }},
  {"ccs_parameter_convert_samples", [](M &m) { P o = any_param(m, [](const Obj &q) { return !ispar(q, CCS_PARAMETER_TYPE_STRING); }); NEED(o); ccs_interval_t iv; NEED(ccs_parameter_sampling_interval((ccs_parameter_t)o->h, &iv) >= 0); ccs_numeric_t *a = buf<ccs_numeric_t>(m, 2); a[0] = a[1] = iv.lower; C(ccs_parameter_convert_samples, OO, V(CCS_TRUE), V((size_t)2), R(a), RR); }},
  {"ccs_parameter_sample", [](M &m) { P o = any_param(m, [](const Obj &q) { return !ispar(q, CCS_PARAMETER_TYPE_STRING); }); P g = m.pick(bit(K_RNG)), d = m.pick(bit(K_DIST), [](const Obj &q) { return ddim(std::make_shared<Obj>(q)) == 1; }); NEED(o && g && d); C(ccs_parameter_sample, OO, O(m, d, bit(K_DIST)), O(m, g, bit(K_RNG)), RR); }},
  {"ccs_parameter_samples", [](M &m) { P o = any_param(m, [](const Obj &q) { return !ispar(q, CCS_PARAMETER_TYPE_STRING); }); P g = m.pick(bit(K_RNG)), d = m.pick(bit(K_DIST), [](const Obj &q) { return ddim(std::make_shared<Obj>(q)) == 1; }); NEED(o && g && d); C(ccs_parameter_samples, OO, O(m, d, bit(K_DIST)), O(m, g, bit(K_RNG)), V((size_t)2), RR); }},
  {"ccs_parameter_samples (2)", [](M &m) { P o = any_param(m, [](const Obj &q) { return ispar(q, CCS_PARAMETER_TYPE_STRING); }); P g = m.pick(bit(K_RNG)), d = m.pick(bit(K_DIST), [](const Obj &q) { return ddim(std::make_shared<Obj>(q)) == 1; }); NEED(o && g && d); m.ran = true; m.want = CCS_RESULT_ERROR_UNSUPPORTED_OPERATION; m.what = "sampling a string parameter"; ccs_datum_t x[2]; bool k = m.h() % 2; m.res = m.call([&] { return k ? ccs_parameter_samples((ccs_parameter_t)o->h, (ccs_distribution_t)d->h, (ccs_rng_t)g->h, 2, x) : ccs_parameter_sample((ccs_parameter_t)o->h, (ccs_distribution_t)d->h, (ccs_rng_t)g->h, x); }); }},
  // generators
  {"ccs_create_rng", [](M &m) { C(ccs_create_rng, RR); }}, {"ccs_create_rng_with_type", [](M &m) { C(ccs_create_rng_with_type, R((void *)gsl_rng_mt19937), RR); }},
  G(ccs_rng_get_type, K_RNG), G(ccs_rng_get, K_RNG), G(ccs_rng_uniform, K_RNG), G(ccs_rng_get_gsl_rng, K_RNG), G(ccs_rng_min, K_RNG), G(ccs_rng_max, K_RNG), {"ccs_rng_set_seed", [](M &m) { U(K_RNG); C(ccs_rng_set_seed, OO, V(5ul)); }},
  // trees
  {"ccs_create_tree", [](M &m) { C(ccs_create_tree, V((size_t)2), V(ccs_int(1)), RR); }},
  G(ccs_tree_get_value, K_TREE), G(ccs_tree_get_arity, K_TREE), G(ccs_tree_get_weight, K_TREE), G(ccs_tree_get_bias, K_TREE),
  {"ccs_tree_get_parent", [](M &m) { U(K_TREE); C(ccs_tree_get_parent, OO, RR, V((size_t *)nullptr)); }},
  {"ccs_tree_set_child", [](M &m) { U(K_TREE); size_t a = 0; ccs_tree_get_arity((ccs_tree_t)o->h, &a); NEED(a); size_t i = m.h() % a; ccs_tree_t k = nullptr; ccs_tree_get_child((ccs_tree_t)o->h, i, &k); P c = m.pick(bit(K_TREE), [&](const Obj &q) { return q.h != o->h; }); NEED(c); C(ccs_tree_set_child, OO, I(i, a, ANY), O(m, c, bit(K_TREE))); if (k && m.want != E_OBJ) m.want = ANY; }},
  {"ccs_tree_set_child (2)", [](M &m) { U(K_TREE); size_t a = 0; ccs_tree_get_arity((ccs_tree_t)o->h, &a); NEED(a); int v = (int)(m.h() % 2); size_t i = m.h() % a; ccs_tree_t k = nullptr; ccs_tree_get_child((ccs_tree_t)o->h, i, &k); P c = m.pick(bit(K_TREE), [&](const Obj &q) { ccs_tree_t par = nullptr; return q.h != o->h && ccs_tree_get_parent((ccs_tree_t)q.h, &par, nullptr) >= 0 && (par != nullptr) == (v == 1); }); NEED(c); if (v == 0) NEED(k); m.ran = true; m.want = k ? (v == 1 ? ANY : E_VAL) : E_TREE; m.what = v == 0 ? "ccs_tree_set_child where there is a child already" : "ccs_tree_set_child with a child of another node"; m.res = m.call([&] { return ccs_tree_set_child((ccs_tree_t)o->h, i, (ccs_tree_t)c->h); }); if (v == 0 && m.res < 0) m.want = ANY; }},
  {"ccs_tree_get_child", [](M &m) { U(K_TREE); size_t a = 0; ccs_tree_get_arity((ccs_tree_t)o->h, &a); NEED(a); C(ccs_tree_get_child, OO, I(m.h() % a, a), RR); }},
  {"ccs_tree_get_children", [](M &m) { U(K_TREE); L(ccs_tree_get_children, ccs_tree_t, ccs_tree_t, o, true); }},
  {"ccs_tree_get_position", [](M &m) { U(K_TREE); L(ccs_tree_get_position, ccs_tree_t, size_t, o, false); }},
  {"ccs_tree_get_values", [](M &m) { U(K_TREE); L(ccs_tree_get_values, ccs_tree_t, ccs_datum_t, o, true); }},
  {"ccs_tree_position_is_valid", [](M &m) { U(K_TREE); Root r = place(m, (ccs_tree_t)o->h); NEED(r.pos.size()); C(ccs_tree_position_is_valid, OO, V(r.pos.size()), R(pbuf(m, r)), RR); }},
  {"ccs_tree_get_values_at_position", [](M &m) { U(K_TREE); Root r = place(m, (ccs_tree_t)o->h); NEED(r.pos.size()); size_t n = r.pos.size() + 1; C(ccs_tree_get_values_at_position, OO, V(r.pos.size()), R(pbuf(m, r)), B<size_t>(n, {n - 1, 0}), R(dbuf(m, n))); }},
  {"ccs_tree_get_node_at_position", [](M &m) { U(K_TREE); Root r = place(m, (ccs_tree_t)o->h); NEED(r.pos.size()); C(ccs_tree_get_node_at_position, OO, V(r.pos.size()), R(pbuf(m, r)), RR); }},
  {"position outside the tree", [](M &m) { U(K_TREE); Root r = place(m, (ccs_tree_t)o->h); ccs_tree_t t = nullptr; if (ccs_tree_get_node_at_position((ccs_tree_t)o->h, r.pos.size(), r.pos.data(), &t) < 0) { ccs_clear_thread_error(); m.none = true; return; } size_t a = 0; ccs_tree_get_arity(t, &a); r.pos.push_back(a + (m.h() % 2 ? 0 : m.h() % 2 ? (size_t)1 << 32 : 3)); size_t *p = pbuf(m, r); int k = (int)(m.h() % 2); m.ran = true; m.want = ANY; m.what = k ? "ccs_tree_get_node_at_position outside the tree" : "ccs_tree_get_values_at_position outside the tree"; ccs_datum_t *d = dbuf(m, r.pos.size() + 1); m.res = m.call([&] { return k ? ccs_tree_get_node_at_position((ccs_tree_t)o->h, r.pos.size(), p, &t) : ccs_tree_get_values_at_position((ccs_tree_t)o->h, r.pos.size(), p, r.pos.size() + 1, d); }); }},
  {"ccs_tree_set_weight", [](M &m) { U(K_TREE); C(ccs_tree_set_weight, OO, B<ccs_float_t>(1.0, {-1.0, -HUGE_VAL}, ANY)); }},
  {"ccs_tree_set_bias", [](M &m) { U(K_TREE); C(ccs_tree_set_bias, OO, B<ccs_float_t>(1.0, {-1.0}, ANY)); }},
  {"ccs_tree_sample", [](M &m) { U(K_TREE); P g = m.pick(bit(K_RNG)); NEED(g); C(ccs_tree_sample, OO, O(m, g, bit(K_RNG)), RR); if (m.want == E_VAL) m.want = ANY; }},
  {"ccs_tree_samples", [](M &m) { U(K_TREE); P g = m.pick(bit(K_RNG)); NEED(g); C(ccs_tree_samples, OO, O(m, g, bit(K_RNG)), V((size_t)3), RR); if (m.want == E_VAL) m.want = ANY; }},
  // tree spaces and configurations
  {"ccs_create_static_tree_space", [](M &m) { P o = m.pick(bit(K_TREE), [](const Obj &q) { ccs_tree_t p = nullptr; return ccs_tree_get_parent((ccs_tree_t)q.h, &p, nullptr) >= 0 && !p; }); NEED(o); C(ccs_create_static_tree_space, S("x"), OO, RR); }},
  {"ccs_create_dynamic_tree_space", [](M &m) { P o = m.pick(bit(K_TREE), [](const Obj &q) { ccs_tree_t p = nullptr; return ccs_tree_get_parent((ccs_tree_t)q.h, &p, nullptr) >= 0 && !p; }); NEED(o); ccs_dynamic_tree_space_vector_t v = *(ccs_dynamic_tree_space_vector_t *)ut_vector(K_TSPACE); if (m.h() % 3 == 0) { bool d = m.h() % 2; if (d) v.del = nullptr; else v.get_child = nullptr; m.ran = true; m.want = E_VAL; m.what = "ccs_create_dynamic_tree_space without a required callback"; ccs_tree_space_t t; m.res = m.call([&] { return ccs_create_dynamic_tree_space("x", (ccs_tree_t)o->h, &v, nullptr, &t); }); return; } C(ccs_create_dynamic_tree_space, S("x"), OO, R(&v), V((void *)nullptr), RR); }},
  G(ccs_tree_space_get_type, K_TSPACE), G(ccs_tree_space_get_name, K_TSPACE), G(ccs_tree_space_get_rng, K_TSPACE), G(ccs_tree_space_get_tree, K_TSPACE), G(ccs_tree_space_sample, K_TSPACE),
  {"ccs_tree_space_set_rng", [](M &m) { U(K_TSPACE); P g = m.pick(bit(K_RNG)); NEED(g); C(ccs_tree_space_set_rng, OO, O(m, g, bit(K_RNG))); }},
  {"ccs_tree_space_samples", [](M &m) { U(K_TSPACE); C(ccs_tree_space_samples, OO, V((size_t)2), RR); }},
  {"ccs_tree_space_get_node_at_position", [](M &m) { U(K_TSPACE); ccs_tree_t t = nullptr; NEED(ccs_tree_space_get_tree((ccs_tree_space_t)o->h, &t) >= 0); Root r = place(m, t); NEED(r.pos.size()); C(ccs_tree_space_get_node_at_position, OO, V(r.pos.size()), R(pbuf(m, r)), RR); }},
  {"ccs_tree_space_get_values_at_position", [](M &m) { U(K_TSPACE); ccs_tree_t t = nullptr; NEED(ccs_tree_space_get_tree((ccs_tree_space_t)o->h, &t) >= 0); Root r = place(m, t); NEED(r.pos.size()); size_t n = r.pos.size() + 1; C(ccs_tree_space_get_values_at_position, OO, V(r.pos.size()), R(pbuf(m, r)), B<size_t>(n, {n - 1, 0}), R(dbuf(m, n))); }},
  {"ccs_tree_space_check_position", [](M &m) { U(K_TSPACE); ccs_tree_t t = nullptr; NEED(ccs_tree_space_get_tree((ccs_tree_space_t)o->h, &t) >= 0); Root r = place(m, t); NEED(r.pos.size()); C(ccs_tree_space_check_position, OO, V(r.pos.size()), R(pbuf(m, r)), RR); }},
  {"ccs_tree_space_check_configuration", [](M &m) { U(K_TCONF); P s = tconf_ts(m, o); NEED(s); P s2 = m.pick(bit(K_TSPACE), [&](const Obj &q) { return q.h != s->h; }); if (s2 && m.h() % 2) { m.ran = true; m.want = CCS_RESULT_ERROR_INVALID_CONFIGURATION; m.what = "ccs_tree_space_check_configuration with a configuration of another space"; ccs_bool_t b; m.res = m.call([&] { return ccs_tree_space_check_configuration((ccs_tree_space_t)s2->h, (ccs_tree_configuration_t)o->h, &b); }); return; } C(ccs_tree_space_check_configuration, O(m, s, bit(K_TSPACE)), OO, RR); }},
  {"ccs_dynamic_tree_space_get_tree_space_data", [](M &m) { U(K_TSPACE); ccs_tree_space_type_t t; NEED(ccs_tree_space_get_type((ccs_tree_space_t)o->h, &t) >= 0); void *d; if (t != CCS_TREE_SPACE_TYPE_DYNAMIC) { wrongsub(m, "ccs_dynamic_tree_space_get_tree_space_data", o, CCS_RESULT_ERROR_INVALID_TREE_SPACE, [&](ccs_object_t h) { return ccs_dynamic_tree_space_get_tree_space_data((ccs_tree_space_t)h, &d); }); return; } C(ccs_dynamic_tree_space_get_tree_space_data, OO, RR); }},
  {"ccs_create_tree_configuration", [](M &m) { U(K_TSPACE); ccs_tree_t t = nullptr; NEED(ccs_tree_space_get_tree((ccs_tree_space_t)o->h, &t) >= 0); Root r = place(m, t); NEED(r.pos.size()); C(ccs_create_tree_configuration, OO, V(r.pos.size()), R(pbuf(m, r)), RR); }},
  G(ccs_tree_configuration_get_tree_space, K_TCONF), G(ccs_tree_configuration_get_node, K_TCONF), G(ccs_tree_configuration_check, K_TCONF), G(ccs_tree_configuration_hash, K_TCONF),
  {"ccs_tree_configuration_cmp", [](M &m) { U(K_TCONF); C(ccs_tree_configuration_cmp, OO, OO, RR); }},
  {"ccs_tree_configuration_get_position", [](M &m) { U(K_TCONF); L(ccs_tree_configuration_get_position, ccs_tree_configuration_t, size_t, o, false); }},
  {"ccs_tree_configuration_get_values", [](M &m) { U(K_TCONF); L(ccs_tree_configuration_get_values, ccs_tree_configuration_t, ccs_datum_t, o, true); }},
  // tuners
  TUNER(ccs_tuner, K_TUNER), TUNER(ccs_features_tuner, K_FTUNER), TUNER(ccs_tree_tuner, K_TTUNER), G(ccs_tuner_get_configuration_space, K_TUNER), G(ccs_features_tuner_get_configuration_space, K_FTUNER), G(ccs_features_tuner_get_features_space, K_FTUNER), G(ccs_tree_tuner_get_tree_space, K_TTUNER),
  {"ccs_create_random_tuner", [](M &m) { U(K_CSPACE); P s = m.pick(bit(K_OSPACE)); NEED(s); C(ccs_create_random_tuner, S("x"), OO, O(m, s, bit(K_OSPACE)), RR); }},
  {"ccs_create_random_features_tuner", [](M &m) { U(K_CSPACE); P s = m.pick(bit(K_OSPACE)), f = m.pick(bit(K_FSPACE)); NEED(s && f); C(ccs_create_random_features_tuner, S("x"), OO, O(m, f, bit(K_FSPACE)), O(m, s, bit(K_OSPACE)), RR); }},
  {"ccs_create_random_tree_tuner", [](M &m) { U(K_TSPACE); P s = m.pick(bit(K_OSPACE)); NEED(s); C(ccs_create_random_tree_tuner, S("x"), OO, O(m, s, bit(K_OSPACE)), RR); }},
#define UTVEC(TY, K) TY v = *(TY *)ut_vector(K); int z = (int)(m.h() % 10); bool miss = z < 6; switch (z) { case 0: v.del = nullptr; break; case 1: v.ask = nullptr; break; case 2: v.tell = nullptr; break; case 3: v.get_optima = nullptr; break; case 4: v.get_history = nullptr; break; case 5: miss = false; break; default: break; }
  {"ccs_create_user_defined_tuner", [](M &m) { U(K_CSPACE); P s = m.pick(bit(K_OSPACE)); NEED(s); UTVEC(ccs_user_defined_tuner_vector_t, K_TUNER); if (miss) { m.ran = true; m.want = E_VAL; m.what = "ccs_create_user_defined_tuner without a required callback"; ccs_tuner_t t; m.res = m.call([&] { return ccs_create_user_defined_tuner("x", (ccs_configuration_space_t)o->h, (ccs_objective_space_t)s->h, &v, nullptr, &t); }); return; } C(ccs_create_user_defined_tuner, S("x"), OO, O(m, s, bit(K_OSPACE)), R(&v), V((void *)nullptr), RR); }},
  {"ccs_create_user_defined_features_tuner", [](M &m) { U(K_CSPACE); P s = m.pick(bit(K_OSPACE)), f = m.pick(bit(K_FSPACE)); NEED(s && f); UTVEC(ccs_user_defined_features_tuner_vector_t, K_FTUNER); if (miss) { m.ran = true; m.want = E_VAL; m.what = "ccs_create_user_defined_features_tuner without a required callback"; ccs_features_tuner_t t; m.res = m.call([&] { return ccs_create_user_defined_features_tuner("x", (ccs_configuration_space_t)o->h, (ccs_features_space_t)f->h, (ccs_objective_space_t)s->h, &v, nullptr, &t); }); return; } C(ccs_create_user_defined_features_tuner, S("x"), OO, O(m, f, bit(K_FSPACE)), O(m, s, bit(K_OSPACE)), R(&v), V((void *)nullptr), RR); }},
  {"ccs_create_user_defined_tree_tuner", [](M &m) { U(K_TSPACE); P s = m.pick(bit(K_OSPACE)); NEED(s); UTVEC(ccs_user_defined_tree_tuner_vector_t, K_TTUNER); if (miss) { m.ran = true; m.want = E_VAL; m.what = "ccs_create_user_defined_tree_tuner without a required callback"; ccs_tree_tuner_t t; m.res = m.call([&] { return ccs_create_user_defined_tree_tuner("x", (ccs_tree_space_t)o->h, (ccs_objective_space_t)s->h, &v, nullptr, &t); }); return; } C(ccs_create_user_defined_tree_tuner, S("x"), OO, O(m, s, bit(K_OSPACE)), R(&v), V((void *)nullptr), RR); }},
  {"ccs_tuner_ask", [](M &m) { U(K_TUNER); C(ccs_tuner_ask, OO, V((size_t)2), RR, V((size_t *)m.scratch())); }},
  {"ccs_tuner_ask (2)", [](M &m) { U(K_TUNER); m.ran = true; m.want = E_VAL; m.what = "ccs_tuner_ask with neither array nor count"; m.res = m.call([&] { return ccs_tuner_ask((ccs_tuner_t)o->h, 0, nullptr, nullptr); }); }},
  {"ccs_tree_tuner_ask", [](M &m) { U(K_TTUNER); C(ccs_tree_tuner_ask, OO, V((size_t)2), RR, V((size_t *)m.scratch())); }},
  {"ccs_tree_tuner_ask (2)", [](M &m) { U(K_TTUNER); m.ran = true; m.want = E_VAL; m.what = "ccs_tree_tuner_ask with neither array nor count"; m.res = m.call([&] { return ccs_tree_tuner_ask((ccs_tree_tuner_t)o->h, 0, nullptr, nullptr); }); }},
  {"ccs_features_tuner_ask", [](M &m) { U(K_FTUNER); ccs_features_space_t fs; NEED(ccs_features_tuner_get_features_space((ccs_features_tuner_t)o->h, &fs) >= 0); P f = m.pick(bit(K_FEAT), [&](const Obj &q) { ccs_features_space_t s; return ccs_features_get_features_space((ccs_features_t)q.h, &s) >= 0 && s == fs; }); NEED(f); C(ccs_features_tuner_ask, OO, O(m, f, bit(K_FEAT)), V((size_t)2), RR, V((size_t *)m.scratch())); }},
  {"ccs_tuner_tell", [](M &m) { UB(K_TUNER); P e = m.pick(bit(K_EVAL)); NEED(e); C(ccs_tuner_tell, OO, V((size_t)1), HA(m, {e->h}, bit(K_EVAL))); }},
  {"ccs_features_tuner_tell", [](M &m) { UB(K_FTUNER); P e = m.pick(bit(K_FEVAL)); NEED(e); C(ccs_features_tuner_tell, OO, V((size_t)1), HA(m, {e->h}, bit(K_FEVAL))); }},
  {"ccs_tree_tuner_tell", [](M &m) { UB(K_TTUNER); P e = m.pick(bit(K_TEVAL)); NEED(e); C(ccs_tree_tuner_tell, OO, V((size_t)1), HA(m, {e->h}, bit(K_TEVAL))); }},
  {"ccs_tuner_suggest", [](M &m) { U(K_TUNER); C(ccs_tuner_suggest, OO, RR); }}, {"ccs_tree_tuner_suggest", [](M &m) { U(K_TTUNER); C(ccs_tree_tuner_suggest, OO, RR); }},
  {"ccs_features_tuner_suggest", [](M &m) { U(K_FTUNER); ccs_features_space_t fs; NEED(ccs_features_tuner_get_features_space((ccs_features_tuner_t)o->h, &fs) >= 0); P f = m.pick(bit(K_FEAT), [&](const Obj &q) { ccs_features_space_t s; return ccs_features_get_features_space((ccs_features_t)q.h, &s) >= 0 && s == fs; }); NEED(f); C(ccs_features_tuner_suggest, OO, O(m, f, bit(K_FEAT)), RR); }},
  {"ccs_tuner_get_optima", [](M &m) { U(K_TUNER); L(ccs_tuner_get_optima, ccs_tuner_t, ccs_evaluation_t, o, true); }}, {"ccs_tuner_get_history", [](M &m) { U(K_TUNER); L(ccs_tuner_get_history, ccs_tuner_t, ccs_evaluation_t, o, true); }},
  {"ccs_tree_tuner_get_optima", [](M &m) { U(K_TTUNER); L(ccs_tree_tuner_get_optima, ccs_tree_tuner_t, ccs_tree_evaluation_t, o, true); }}, {"ccs_tree_tuner_get_history", [](M &m) { U(K_TTUNER); L(ccs_tree_tuner_get_history, ccs_tree_tuner_t, ccs_tree_evaluation_t, o, true); }},
#define FQ(FN) {#FN, [](M &m) { U(K_FTUNER); ccs_features_space_t fs; NEED(ccs_features_tuner_get_features_space((ccs_features_tuner_t)o->h, &fs) >= 0); P f = m.pick(bit(K_FEAT), [&](const Obj &q) { ccs_features_space_t s; return ccs_features_get_features_space((ccs_features_t)q.h, &s) >= 0 && s == fs; }); P w = m.pick(~bit(K_FEAT));  \
    ccs_features_t ff = f && m.h() % 4 ? (ccs_features_t)f->h : nullptr; int k = (int)(m.h() % 4); if (k == 0 && w) { size_t n; m.ran = true; m.want = E_OBJ; m.what = #FN " with an object that is no features"; m.res = m.call([&] { return FN((ccs_features_tuner_t)o->h, (ccs_features_t)w->h, 0, nullptr, &n); }); return; } \
    static thread_local ccs_features_t g_ff; g_ff = ff; list_<ccs_features_tuner_t, ccs_features_evaluation_t>(m, #FN, [](ccs_features_tuner_t t, size_t n, ccs_features_evaluation_t *a, size_t *r) { return FN(t, g_ff, n, a, r); }, o, bit(K_FTUNER), true); }}
  FQ(ccs_features_tuner_get_optima), FQ(ccs_features_tuner_get_history),
  {"features of another space", [](M &m) { UB(K_FTUNER); ccs_features_space_t fs; NEED(ccs_features_tuner_get_features_space((ccs_features_tuner_t)o->h, &fs) >= 0); P w = m.pick(bit(K_FEAT), [&](const Obj &q) { ccs_features_space_t s; return ccs_features_get_features_space((ccs_features_t)q.h, &s) >= 0 && s != fs; }); NEED(w); int k = (int)(m.h() % 2); m.ran = true; m.want = CCS_RESULT_ERROR_INVALID_FEATURES; m.what = k ? "ccs_features_tuner_ask with features of another space" : "ccs_features_tuner_suggest with features of another space"; ccs_configuration_t c[2]; size_t n; m.res = m.call([&] { return k ? ccs_features_tuner_ask((ccs_features_tuner_t)o->h, (ccs_features_t)w->h, 1, c, &n) : ccs_features_tuner_suggest((ccs_features_tuner_t)o->h, (ccs_features_t)w->h, c); }); }},
#define UD(FN, K, HT, TT, TYF, UDT, WANT) {#FN, [](M &m) { U(K); TT t; NEED(TYF((HT)o->h, &t) >= 0); void *d; if (t != UDT) { wrongsub(m, #FN, o, WANT, [&](ccs_object_t h) { return FN((HT)h, &d); }); return; } C(FN, OO, RR); }}
  UD(ccs_user_defined_tuner_get_tuner_data, K_TUNER, ccs_tuner_t, ccs_tuner_type_t, ccs_tuner_get_type, CCS_TUNER_TYPE_USER_DEFINED, CCS_RESULT_ERROR_INVALID_TUNER),
  UD(ccs_user_defined_features_tuner_get_tuner_data, K_FTUNER, ccs_features_tuner_t, ccs_features_tuner_type_t, ccs_features_tuner_get_type, CCS_FEATURES_TUNER_TYPE_USER_DEFINED, CCS_RESULT_ERROR_INVALID_FEATURES_TUNER),
  UD(ccs_user_defined_tree_tuner_get_tuner_data, K_TTUNER, ccs_tree_tuner_t, ccs_tree_tuner_type_t, ccs_tree_tuner_get_type, CCS_TREE_TUNER_TYPE_USER_DEFINED, ANY),
};
} // namespace
int misuse_count() { return (int)(sizeof entries / sizeof *entries); }

OP(misuse) { // function variant
  Rd r(op); uint64_t k = (uint64_t)r.n() % (uint64_t)misuse_count(); M m(vm, (uint64_t)r.n() * 1000003ULL + k); ccs_result_t err0 = CCS_RESULT_SUCCESS; (void)err0;
  vm.quiet = true; entries[k].fn(m); vm.quiet = false;
  ccs_clear_thread_error();
  if (m.none || !m.ran) SKIP;
  sim::g_cnt.bad_call++;
  vm.out(m.what + " " + vm.rname(m.res));
  if (m.good) { if (m.res < 0) vm.bad("misuse", m.what + " was refused with " + vm.rname(m.res)); if (!m.after.empty()) vm.bad("misuse", m.what + ": " + m.after); return; }
  if (m.res >= 0) vm.bad("misuse", m.what + " was accepted");
  if (!m.after.empty()) vm.bad("misuse", m.what + ": " + m.after);
  if (m.want && (int)m.res != m.want) vm.bad("misuse", m.what + " was refused with " + vm.rname(m.res) + " instead of " + vm.rname((ccs_result_t)m.want));
}
