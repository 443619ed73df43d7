#include "vm.h"
#include <gsl/gsl_rng.h>
#include <stdarg.h>
#include <algorithm>

const char *kind_name[] = {"rng", "distribution", "parameter", "expression", "configuration_space", "configuration", "objective_space", "evaluation", "tuner",
  "features_space", "features", "features_evaluation", "features_tuner", "map", "error_stack", "tree", "tree_space", "tree_configuration", "tree_evaluation", "tree_tuner"};

Str f10(double x) { x = round(x * 1e10) / 1e10; return fmt("%.10g", x == 0 ? 0.0 : x); }   // weights, up to rounding
Str fmt(const char *f, ...) {
  char b[512]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
  if (n < (int)sizeof b) return Str(b, n < 0 ? 0 : n);
  Str s((size_t)n + 1, 0); va_start(ap, f); vsnprintf(&s[0], s.size(), f, ap); va_end(ap); s.resize((size_t)n); return s;
}
uint64_t hash_str(const Str &s, uint64_t h) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }

static Str quote(const char *s) {
  if (!s) return "(null)";
  Str r = "\""; for (; *s; s++) { if (*s == '"' || *s == '\\' || (unsigned char)*s < 32) r += fmt("\\x%02x", (unsigned char)*s); else r += *s; } return r + "\"";
}
static Str flt(double f) { return f != f ? Str("nan") : fmt("%a", f); }

#define T(call) do { ccs_result_t _r = (call); if (_r < 0) { ccs_clear_thread_error(); throw DescribeError{_r, #call}; } } while (0)

Str dtext(const ccs_datum_t &d, int flags) {
  switch (d.type) {
  case CCS_DATA_TYPE_NONE: return "none";
  case CCS_DATA_TYPE_INT: return fmt("i%ld", (long)d.value.i);
  case CCS_DATA_TYPE_FLOAT: return "f" + flt(d.value.f);
  case CCS_DATA_TYPE_BOOL: return d.value.i ? "true" : "false";
  case CCS_DATA_TYPE_STRING: return "s" + quote(d.value.s);
  case CCS_DATA_TYPE_INACTIVE: return "inactive";
  case CCS_DATA_TYPE_OBJECT:
    if (d.flags & CCS_DATUM_FLAG_ID) return "id";
    return "<" + atext(d.value.o, flags) + ">";
  default: return fmt("?type%d", (int)d.type);
  }
}
static Str ntext(ccs_numeric_type_t t, ccs_numeric_t v) { return t == CCS_NUMERIC_TYPE_FLOAT ? "f" + flt(v.f) : fmt("i%ld", (long)v.i); }

static Str ud(ccs_object_t h, int flags) { if (!(flags & D_USERDATA)) return ""; void *u = nullptr; T(ccs_object_get_user_data(h, &u)); return u ? fmt("{u=%ld}", (long)(intptr_t)u) : Str(); }
static Str t_rng_(ccs_rng_t h, int flags);
static Str t_rng(ccs_rng_t h, int flags) { return t_rng_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_dist_(ccs_distribution_t h, int flags);
static Str t_dist(ccs_distribution_t h, int flags) { return t_dist_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_param_(ccs_parameter_t h, int flags);
static Str t_param(ccs_parameter_t h, int flags) { return t_param_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_expr_(ccs_expression_t h, int flags);
static Str t_expr(ccs_expression_t h, int flags) { return t_expr_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_conf_(ccs_configuration_t h, int flags);
static Str t_conf(ccs_configuration_t h, int flags) { return t_conf_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_feat_(ccs_features_t h, int flags);
static Str t_feat(ccs_features_t h, int flags) { return t_feat_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_cspace_(ccs_configuration_space_t h, int flags);
static Str t_cspace(ccs_configuration_space_t h, int flags) { return t_cspace_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_fspace_(ccs_features_space_t h, int flags);
static Str t_fspace(ccs_features_space_t h, int flags) { return t_fspace_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_ospace_(ccs_objective_space_t h, int flags);
static Str t_ospace(ccs_objective_space_t h, int flags) { return t_ospace_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_tconf_(ccs_tree_configuration_t h, int flags);
static Str t_tconf(ccs_tree_configuration_t h, int flags) { return t_tconf_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_eval_(ccs_evaluation_t h, int flags);
static Str t_eval(ccs_evaluation_t h, int flags) { return t_eval_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_feval_(ccs_features_evaluation_t h, int flags);
static Str t_feval(ccs_features_evaluation_t h, int flags) { return t_feval_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_teval_(ccs_tree_evaluation_t h, int flags);
static Str t_teval(ccs_tree_evaluation_t h, int flags) { return t_teval_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_tree_(ccs_tree_t h, int flags, int depth);
static Str t_tree(ccs_tree_t h, int flags, int depth = 0) { return t_tree_(h, flags, depth) + ud((ccs_object_t)h, flags); }
static Str t_tspace_(ccs_tree_space_t h, int flags);
static Str t_tspace(ccs_tree_space_t h, int flags) { return t_tspace_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_map_(ccs_map_t h, int flags);
static Str t_map(ccs_map_t h, int flags) { return t_map_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_tuner_(ccs_tuner_t h, int flags);
static Str t_tuner(ccs_tuner_t h, int flags) { return t_tuner_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_ftuner_(ccs_features_tuner_t h, int flags);
static Str t_ftuner(ccs_features_tuner_t h, int flags) { return t_ftuner_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_ttuner_(ccs_tree_tuner_t h, int flags);
static Str t_ttuner(ccs_tree_tuner_t h, int flags) { return t_ttuner_(h, flags) + ud((ccs_object_t)h, flags); }
static Str t_rng_(ccs_rng_t r, int flags) {
  const gsl_rng_type *t; T(ccs_rng_get_type(r, &t));
  Str s = Str("rng(") + t->name;
  unsigned long mi, ma; T(ccs_rng_min(r, &mi)); T(ccs_rng_max(r, &ma)); s += fmt(",%lu..%lu", mi, ma);
  if (flags & D_RNGSTATE) { gsl_rng *g; T(ccs_rng_get_gsl_rng(r, &g)); s += fmt(",%016lx", (unsigned long)hash_str(Str((char *)gsl_rng_state(g), gsl_rng_size(g)))); }
  return s + ")";
}
static Str t_dist_(ccs_distribution_t d, int flags) {
  ccs_distribution_type_t t; size_t dim; T(ccs_distribution_get_type(d, &t)); T(ccs_distribution_get_dimension(d, &dim));
  Vec<ccs_numeric_type_t> dt(dim); T(ccs_distribution_get_data_types(d, dt.data()));
  Str s;
  switch (t) {
  case CCS_DISTRIBUTION_TYPE_UNIFORM: { ccs_numeric_t lo, hi, q; ccs_scale_type_t sc; T(ccs_uniform_distribution_get_properties(d, &lo, &hi, &sc, &q));
    s = "uniform(" + ntext(dt[0], lo) + "," + ntext(dt[0], hi) + fmt(",%d,", (int)sc) + ntext(dt[0], q) + ")"; break; }
  case CCS_DISTRIBUTION_TYPE_NORMAL: { ccs_float_t mu, sg; ccs_scale_type_t sc; ccs_numeric_t q; T(ccs_normal_distribution_get_properties(d, &mu, &sg, &sc, &q));
    s = fmt("normal(%d,", (int)dt[0]) + flt(mu) + "," + flt(sg) + fmt(",%d,", (int)sc) + ntext(dt[0], q) + ")"; break; }
  case CCS_DISTRIBUTION_TYPE_ROULETTE: { size_t n; T(ccs_roulette_distribution_get_num_areas(d, &n)); Vec<double> a(n); T(ccs_roulette_distribution_get_areas(d, n, a.data(), nullptr));
    s = "roulette("; for (double x : a) s += f10(x)+","; s += ")"; break; }
  case CCS_DISTRIBUTION_TYPE_MIXTURE: { size_t n; T(ccs_mixture_distribution_get_num_distributions(d, &n)); Vec<ccs_distribution_t> ds(n); Vec<double> w(n);
    T(ccs_mixture_distribution_get_distributions(d, n, ds.data(), nullptr)); T(ccs_mixture_distribution_get_weights(d, n, w.data(), nullptr));
    s = "mixture("; for (size_t i = 0; i < n; i++) s += t_dist(ds[i], flags) + "*"+f10(w[i])+","; s += ")"; break; }
  case CCS_DISTRIBUTION_TYPE_MULTIVARIATE: { size_t n; T(ccs_multivariate_distribution_get_num_distributions(d, &n)); Vec<ccs_distribution_t> ds(n);
    T(ccs_multivariate_distribution_get_distributions(d, n, ds.data(), nullptr));
    s = "multi("; for (auto x : ds) s += t_dist(x, flags) + ","; s += ")"; break; }
  default: s = fmt("dist?%d", (int)t);
  }
  return s;
}
static Str t_param_(ccs_parameter_t p, int flags) {
  ccs_parameter_type_t t; const char *n; ccs_datum_t def; T(ccs_parameter_get_type(p, &t)); T(ccs_parameter_get_name(p, &n)); T(ccs_parameter_get_default_value(p, &def));
  Str s;
  Vec<ccs_datum_t> v; size_t k = 0;
  switch (t) {
  case CCS_PARAMETER_TYPE_NUMERICAL: { ccs_numeric_type_t dt; ccs_numeric_t lo, hi, q; T(ccs_numerical_parameter_get_properties(p, &dt, &lo, &hi, &q));
    s = "num(" + quote(n) + "," + ntext(dt, lo) + "," + ntext(dt, hi) + "," + ntext(dt, q) + ","; break; }
  case CCS_PARAMETER_TYPE_CATEGORICAL: s = "cat(" + quote(n) + ",["; T(ccs_categorical_parameter_get_values(p, 0, nullptr, &k)); v.resize(k); T(ccs_categorical_parameter_get_values(p, k, v.data(), nullptr)); break;
  case CCS_PARAMETER_TYPE_ORDINAL: s = "ord(" + quote(n) + ",["; T(ccs_ordinal_parameter_get_values(p, 0, nullptr, &k)); v.resize(k); T(ccs_ordinal_parameter_get_values(p, k, v.data(), nullptr)); break;
  case CCS_PARAMETER_TYPE_DISCRETE: s = "dis(" + quote(n) + ",["; T(ccs_discrete_parameter_get_values(p, 0, nullptr, &k)); v.resize(k); T(ccs_discrete_parameter_get_values(p, k, v.data(), nullptr)); break;
  case CCS_PARAMETER_TYPE_STRING: s = "str(" + quote(n) + ","; break;
  default: s = fmt("param?%d(", (int)t);
  }
  for (auto &x : v) s += dtext(x, flags) + " ";
  if (t != CCS_PARAMETER_TYPE_NUMERICAL && t != CCS_PARAMETER_TYPE_STRING) s += "],";
  return s + dtext(def, flags) + ")";
}
static Str t_expr_(ccs_expression_t e, int flags) {
  ccs_expression_type_t t; T(ccs_expression_get_type(e, &t));
  if (t == CCS_EXPRESSION_TYPE_LITERAL) { ccs_datum_t d; T(ccs_literal_get_value(e, &d)); return "lit(" + dtext(d, flags) + ")"; }
  if (t == CCS_EXPRESSION_TYPE_VARIABLE) { ccs_parameter_t p; const char *n; T(ccs_variable_get_parameter(e, &p)); T(ccs_parameter_get_name(p, &n)); return "var(" + quote(n) + ")"; }
  size_t n; T(ccs_expression_get_num_nodes(e, &n)); Vec<ccs_expression_t> ns(n); if (n) T(ccs_expression_get_nodes(e, n, ns.data(), nullptr));
  Str s = fmt("e%d(", (int)t); for (auto x : ns) s += t_expr(x, flags) + ","; return s + ")";
}
static Str t_vals(const Vec<ccs_datum_t> &v, int flags) { Str s = "["; for (auto &x : v) s += dtext(x, flags) + " "; return s + "]"; }
static Str t_conf_(ccs_configuration_t c, int flags) {
  size_t n = 0; T(ccs_configuration_get_values(c, 0, nullptr, &n)); Vec<ccs_datum_t> v(n); if (n) T(ccs_configuration_get_values(c, n, v.data(), nullptr));
  Str s = "conf" + t_vals(v, flags);
  if (flags & D_HASH) { ccs_hash_t h; T(ccs_configuration_hash(c, &h)); s += fmt("#%lx", (unsigned long)h); }
  return s;
}
static Str t_feat_(ccs_features_t c, int flags) {
  size_t n = 0; T(ccs_features_get_values(c, 0, nullptr, &n)); Vec<ccs_datum_t> v(n); if (n) T(ccs_features_get_values(c, n, v.data(), nullptr));
  Str s = "feat" + t_vals(v, flags);
  if (flags & D_HASH) { ccs_hash_t h; T(ccs_features_hash(c, &h)); s += fmt("#%lx", (unsigned long)h); }
  return s;
}
static Str t_cspace_(ccs_configuration_space_t c, int flags) {
  const char *n; T(ccs_configuration_space_get_name(c, &n)); size_t k; T(ccs_configuration_space_get_num_parameters(c, &k));
  Str s = "cspace(" + quote(n) + ",";
  if (flags & D_SHALLOW) return s + ")";
  Vec<ccs_parameter_t> ps(k); if (k) T(ccs_configuration_space_get_parameters(c, k, ps.data(), nullptr));
  Vec<ccs_expression_t> cs(k); size_t k2 = 0; if (k) T(ccs_configuration_space_get_conditions(c, k, cs.data(), &k2));
  for (size_t i = 0; i < k; i++) {
    ccs_parameter_t p; T(ccs_configuration_space_get_parameter(c, i, &p));
    s += "\n  " + t_param(p, flags); if (p != ps[i]) s += "!LISTDIFF";
    ccs_distribution_t d; size_t di; T(ccs_configuration_space_get_parameter_distribution(c, i, &d, &di)); s += " ~ " + t_dist(d, flags) + fmt("@%zu", di);
    ccs_expression_t e; T(ccs_configuration_space_get_condition(c, i, &e)); if (e) s += " if " + t_expr(e, flags); if (e != cs[i]) s += "!CONDDIFF";
    const char *pn; T(ccs_parameter_get_name(p, &pn)); size_t ix = 9999; ccs_parameter_t p2;
    T(ccs_configuration_space_get_parameter_index_by_name(c, pn, &ix)); T(ccs_configuration_space_get_parameter_by_name(c, pn, &p2)); if (ix != i || p2 != p) s += "!NAMEDIFF";
    T(ccs_configuration_space_get_parameter_index(c, p, &ix)); if (ix != i) s += "!INDEXDIFF";
  }
  size_t nf; T(ccs_configuration_space_get_forbidden_clauses(c, 0, nullptr, &nf)); Vec<ccs_expression_t> fs(nf); if (nf) T(ccs_configuration_space_get_forbidden_clauses(c, nf, fs.data(), nullptr));
  for (auto e : fs) s += "\n  forbid " + t_expr(e, flags);
  ccs_configuration_t def = nullptr;
  ccs_result_t r = ccs_configuration_space_get_default_configuration(c, &def);
  if (r < 0) { ccs_clear_thread_error(); s += fmt("\n  default error"); }
  else { s += "\n  default " + t_conf(def, flags & ~D_HASH); ccs_release_object(def); }
  ccs_rng_t rg; T(ccs_configuration_space_get_rng(c, &rg)); s += "\n  " + t_rng(rg, flags);
  return s + ")";
}
static Str t_fspace_(ccs_features_space_t c, int flags) {
  const char *n; T(ccs_features_space_get_name(c, &n)); size_t k; T(ccs_features_space_get_num_parameters(c, &k));
  Str s = "fspace(" + quote(n) + ",";
  if (flags & D_SHALLOW) return s + ")";
  for (size_t i = 0; i < k; i++) { ccs_parameter_t p, p2; T(ccs_features_space_get_parameter(c, i, &p)); s += "\n  " + t_param(p, flags);
    const char *pn; size_t ix; T(ccs_parameter_get_name(p, &pn)); T(ccs_features_space_get_parameter_index_by_name(c, pn, &ix)); T(ccs_features_space_get_parameter_by_name(c, pn, &p2)); if (ix != i || p != p2) s += "!NAMEDIFF";
    T(ccs_features_space_get_parameter_index(c, p, &ix)); if (ix != i) s += "!INDEXDIFF"; }
  return s + ")";
}
static Str t_ospace_(ccs_objective_space_t c, int flags) {
  const char *n; T(ccs_objective_space_get_name(c, &n)); size_t k; T(ccs_objective_space_get_num_parameters(c, &k));
  Str s = "ospace(" + quote(n) + ",";
  if (flags & D_SHALLOW) return s + ")";
  for (size_t i = 0; i < k; i++) { ccs_parameter_t p, p2; T(ccs_objective_space_get_parameter(c, i, &p)); s += "\n  " + t_param(p, flags);
    const char *pn; size_t ix; T(ccs_parameter_get_name(p, &pn)); T(ccs_objective_space_get_parameter_index_by_name(c, pn, &ix)); T(ccs_objective_space_get_parameter_by_name(c, pn, &p2)); if (ix != i || p != p2) s += "!NAMEDIFF";
    T(ccs_objective_space_get_parameter_index(c, p, &ix)); if (ix != i) s += "!INDEXDIFF"; }
  size_t no; T(ccs_objective_space_get_objectives(c, 0, nullptr, nullptr, &no)); Vec<ccs_expression_t> es(no); Vec<ccs_objective_type_t> ts(no);
  if (no) T(ccs_objective_space_get_objectives(c, no, es.data(), ts.data(), nullptr));
  for (size_t i = 0; i < no; i++) { ccs_expression_t e; ccs_objective_type_t t; T(ccs_objective_space_get_objective(c, i, &e, &t)); s += fmt("\n  objective %d ", (int)t) + t_expr(e, flags); if (e != es[i] || t != ts[i]) s += "!LISTDIFF"; }
  return s + ")";
}
static Str t_tconf_(ccs_tree_configuration_t c, int flags) {
  size_t n = 0; T(ccs_tree_configuration_get_position(c, 0, nullptr, &n)); Vec<size_t> pos(n + 1); if (n) T(ccs_tree_configuration_get_position(c, n, pos.data(), nullptr));
  Str s = "tconf("; for (size_t i = 0; i < n; i++) s += fmt("%zu/", pos[i]);
  size_t m = 0; Vec<ccs_datum_t> v; ccs_result_t r = ccs_tree_configuration_get_values(c, 0, nullptr, &m);
  if (r >= 0) { v.resize(m); r = m ? ccs_tree_configuration_get_values(c, m, v.data(), nullptr) : CCS_RESULT_SUCCESS; }
  if (r < 0) { ccs_clear_thread_error(); s += "novalues)"; } else s += t_vals(v, flags) + ")";
  if (flags & D_HASH) { ccs_hash_t h; T(ccs_tree_configuration_hash(c, &h)); s += fmt("#%lx", (unsigned long)h); }
  return s;
}
template <class E, class FV, class FR, class FO, class FH>
static Str t_evalbody(E e, int flags, FV gv, FR gr, FO go, FH gh) {
  size_t n = 0; T(gv(e, 0, nullptr, &n)); Vec<ccs_datum_t> v(n); if (n) T(gv(e, n, v.data(), nullptr));
  ccs_evaluation_result_t r; T(gr(e, &r));
  Str s = fmt("result=%d ", (int)r) + t_vals(v, flags);
  size_t m = 0; ccs_result_t rr = go(e, 0, nullptr, &m);
  if (rr < 0) { ccs_clear_thread_error(); s += " obj error"; }
  else { Vec<ccs_datum_t> o(m); rr = m ? go(e, m, o.data(), nullptr) : CCS_RESULT_SUCCESS; if (rr < 0) { ccs_clear_thread_error(); s += " obj error"; } else s += " obj " + t_vals(o, flags); }
  if (flags & D_HASH) { ccs_hash_t h; T(gh(e, &h)); s += fmt("#%lx", (unsigned long)h); }
  return s;
}
static Str t_eval_(ccs_evaluation_t e, int flags) {
  ccs_configuration_t c; T(ccs_evaluation_get_configuration(e, &c));
  return "eval(" + t_conf(c, flags) + " " + t_evalbody(e, flags, ccs_evaluation_get_values, ccs_evaluation_get_result, ccs_evaluation_get_objective_values, ccs_evaluation_hash) + ")";
}
static Str t_feval_(ccs_features_evaluation_t e, int flags) {
  ccs_configuration_t c; ccs_features_t f; T(ccs_features_evaluation_get_configuration(e, &c)); T(ccs_features_evaluation_get_features(e, &f));
  return "feval(" + t_conf(c, flags) + " " + t_feat(f, flags) + " " + t_evalbody(e, flags, ccs_features_evaluation_get_values, ccs_features_evaluation_get_result, ccs_features_evaluation_get_objective_values, ccs_features_evaluation_hash) + ")";
}
static Str t_teval_(ccs_tree_evaluation_t e, int flags) {
  ccs_tree_configuration_t c; T(ccs_tree_evaluation_get_configuration(e, &c));
  return "teval(" + t_tconf(c, flags) + " " + t_evalbody(e, flags, ccs_tree_evaluation_get_values, ccs_tree_evaluation_get_result, ccs_tree_evaluation_get_objective_values, ccs_tree_evaluation_hash) + ")";
}
static Str t_tree_(ccs_tree_t t, int flags, int depth) {
  ccs_datum_t v; size_t ar; ccs_float_t w, b; T(ccs_tree_get_value(t, &v)); T(ccs_tree_get_arity(t, &ar)); T(ccs_tree_get_weight(t, &w)); T(ccs_tree_get_bias(t, &b));
  Str s = "node(" + dtext(v, flags) + fmt(",%zu,", ar) + flt(w) + "," + flt(b);
  Vec<ccs_tree_t> ks(ar); size_t n = 0; if (ar) { T(ccs_tree_get_children(t, ar, ks.data(), &n)); }
  if (depth > 40) return s + "...)";
  for (size_t i = 0; i < ar; i++) {
    ccs_tree_t k; T(ccs_tree_get_child(t, i, &k)); if (k != ks[i]) s += "!LISTDIFF";
    if (k) { s += fmt(" %zu:", i) + t_tree(k, flags, depth + 1); ccs_tree_t par; size_t ix; T(ccs_tree_get_parent(k, &par, &ix)); if (par != t || ix != i) s += "!PARENTDIFF"; }
  }
  return s + ")";
}
static Str t_tspace_(ccs_tree_space_t t, int flags) {
  const char *n; ccs_tree_space_type_t ty; ccs_tree_t tr; T(ccs_tree_space_get_name(t, &n)); T(ccs_tree_space_get_type(t, &ty)); T(ccs_tree_space_get_tree(t, &tr));
  Str s = "tspace(" + quote(n) + fmt(",%d,", (int)ty);
  if (flags & D_SHALLOW) return s + ")";
  ccs_rng_t rg; T(ccs_tree_space_get_rng(t, &rg));
  return s + t_tree(tr, flags) + "," + t_rng(rg, flags) + ")";
}
static Str t_map_(ccs_map_t m, int flags) {
  size_t n = 0; T(ccs_map_get_pairs(m, 0, nullptr, nullptr, &n)); Vec<ccs_datum_t> k(n), v(n); if (n) T(ccs_map_get_pairs(m, n, k.data(), v.data(), nullptr));
  Vec<Str> l; for (size_t i = 0; i < n; i++) l.push_back(dtext(k[i], flags) + "=>" + dtext(v[i], flags));
  std::sort(l.begin(), l.end()); Str s = "map{"; for (auto &x : l) s += x + ","; return s + "}";
}
static Str t_estack(ccs_error_stack_t e, int) {
  const char *m; ccs_result_t c; size_t n; ccs_error_stack_elem_t *el; T(ccs_error_stack_get_message(e, &m)); T(ccs_error_stack_get_code(e, &c)); T(ccs_error_stack_get_elems(e, &n, &el));
  Str s = fmt("error(%d,", (int)c) + quote(m); for (size_t i = 0; i < n; i++) s += fmt(" %s:%d", el[i].func, el[i].line); return s + ")";
}
template <class X, class G> static Vec<X> t_list(G get) { size_t n = 0; T(get(0, (X *)nullptr, &n)); Vec<X> v(n); if (n) T(get(n, v.data(), (size_t *)nullptr)); return v; }
static Str t_tuner_(ccs_tuner_t t, int flags) {
  const char *n; ccs_tuner_type_t ty; ccs_configuration_space_t cs; ccs_objective_space_t os;
  T(ccs_tuner_get_name(t, &n)); T(ccs_tuner_get_type(t, &ty)); T(ccs_tuner_get_configuration_space(t, &cs)); T(ccs_tuner_get_objective_space(t, &os));
  Str s = "tuner(" + quote(n) + fmt(",%d,", (int)ty) + t_cspace(cs, flags & ~D_HASH) + "," + t_ospace(os, flags);
  auto h = t_list<ccs_evaluation_t>([&](size_t k, ccs_evaluation_t *p, size_t *r) { return ccs_tuner_get_history(t, k, p, r); });
  auto o = t_list<ccs_evaluation_t>([&](size_t k, ccs_evaluation_t *p, size_t *r) { return ccs_tuner_get_optima(t, k, p, r); });
  s += "\n history"; for (auto e : h) s += "\n  " + t_eval(e, flags);
  s += "\n optima"; for (auto e : o) { s += "\n  "; size_t i = 0; while (i < h.size() && h[i] != e) i++; s += i < h.size() ? fmt("history[%zu]", i) : "!NOT-IN-HISTORY " + t_eval(e, flags); }
  return s + ")";
}
static Str t_ftuner_(ccs_features_tuner_t t, int flags) {
  const char *n; ccs_features_tuner_type_t ty; ccs_configuration_space_t cs; ccs_objective_space_t os; ccs_features_space_t fs;
  T(ccs_features_tuner_get_name(t, &n)); T(ccs_features_tuner_get_type(t, &ty)); T(ccs_features_tuner_get_configuration_space(t, &cs)); T(ccs_features_tuner_get_objective_space(t, &os)); T(ccs_features_tuner_get_features_space(t, &fs));
  Str s = "ftuner(" + quote(n) + fmt(",%d,", (int)ty) + t_cspace(cs, flags & ~D_HASH) + "," + t_ospace(os, flags) + "," + t_fspace(fs, flags);
  auto h = t_list<ccs_features_evaluation_t>([&](size_t k, ccs_features_evaluation_t *p, size_t *r) { return ccs_features_tuner_get_history(t, nullptr, k, p, r); });
  auto o = t_list<ccs_features_evaluation_t>([&](size_t k, ccs_features_evaluation_t *p, size_t *r) { return ccs_features_tuner_get_optima(t, nullptr, k, p, r); });
  s += "\n history"; for (auto e : h) s += "\n  " + t_feval(e, flags);
  s += "\n optima"; for (auto e : o) { s += "\n  "; size_t i = 0; while (i < h.size() && h[i] != e) i++; s += i < h.size() ? fmt("history[%zu]", i) : "!NOT-IN-HISTORY " + t_feval(e, flags); }
  return s + ")";
}
static Str t_ttuner_(ccs_tree_tuner_t t, int flags) {
  const char *n; ccs_tree_tuner_type_t ty; ccs_tree_space_t ts; ccs_objective_space_t os;
  T(ccs_tree_tuner_get_name(t, &n)); T(ccs_tree_tuner_get_type(t, &ty)); T(ccs_tree_tuner_get_tree_space(t, &ts)); T(ccs_tree_tuner_get_objective_space(t, &os));
  Str s = "ttuner(" + quote(n) + fmt(",%d,", (int)ty) + t_tspace(ts, flags) + "," + t_ospace(os, flags);
  auto h = t_list<ccs_tree_evaluation_t>([&](size_t k, ccs_tree_evaluation_t *p, size_t *r) { return ccs_tree_tuner_get_history(t, k, p, r); });
  auto o = t_list<ccs_tree_evaluation_t>([&](size_t k, ccs_tree_evaluation_t *p, size_t *r) { return ccs_tree_tuner_get_optima(t, k, p, r); });
  s += "\n history"; for (auto e : h) s += "\n  " + t_teval(e, flags);
  s += "\n optima"; for (auto e : o) { s += "\n  "; size_t i = 0; while (i < h.size() && h[i] != e) i++; s += i < h.size() ? fmt("history[%zu]", i) : "!NOT-IN-HISTORY " + t_teval(e, flags); }
  return s + ")";
}
Str atext(ccs_object_t h, int flags) {
  if (!h) return "NULL";
  ccs_object_type_t t; T(ccs_object_get_type(h, &t));
  Str s;
  switch (t) {
  case CCS_OBJECT_TYPE_RNG: s = t_rng((ccs_rng_t)h, flags); break;
  case CCS_OBJECT_TYPE_DISTRIBUTION: s = t_dist((ccs_distribution_t)h, flags); break;
  case CCS_OBJECT_TYPE_PARAMETER: s = t_param((ccs_parameter_t)h, flags); break;
  case CCS_OBJECT_TYPE_EXPRESSION: s = t_expr((ccs_expression_t)h, flags); break;
  case CCS_OBJECT_TYPE_CONFIGURATION_SPACE: s = t_cspace((ccs_configuration_space_t)h, flags); break;
  case CCS_OBJECT_TYPE_CONFIGURATION: s = t_conf((ccs_configuration_t)h, flags); break;
  case CCS_OBJECT_TYPE_OBJECTIVE_SPACE: s = t_ospace((ccs_objective_space_t)h, flags); break;
  case CCS_OBJECT_TYPE_EVALUATION: s = t_eval((ccs_evaluation_t)h, flags); break;
  case CCS_OBJECT_TYPE_TUNER: s = t_tuner((ccs_tuner_t)h, flags); break;
  case CCS_OBJECT_TYPE_FEATURES_SPACE: s = t_fspace((ccs_features_space_t)h, flags); break;
  case CCS_OBJECT_TYPE_FEATURES: s = t_feat((ccs_features_t)h, flags); break;
  case CCS_OBJECT_TYPE_FEATURES_EVALUATION: s = t_feval((ccs_features_evaluation_t)h, flags); break;
  case CCS_OBJECT_TYPE_FEATURES_TUNER: s = t_ftuner((ccs_features_tuner_t)h, flags); break;
  case CCS_OBJECT_TYPE_MAP: s = t_map((ccs_map_t)h, flags); break;
  case CCS_OBJECT_TYPE_ERROR_STACK: s = t_estack((ccs_error_stack_t)h, flags); break;
  case CCS_OBJECT_TYPE_TREE: s = t_tree((ccs_tree_t)h, flags); break;
  case CCS_OBJECT_TYPE_TREE_SPACE: s = t_tspace((ccs_tree_space_t)h, flags); break;
  case CCS_OBJECT_TYPE_TREE_CONFIGURATION: s = t_tconf((ccs_tree_configuration_t)h, flags); break;
  case CCS_OBJECT_TYPE_TREE_EVALUATION: s = t_teval((ccs_tree_evaluation_t)h, flags); break;
  case CCS_OBJECT_TYPE_TREE_TUNER: s = t_ttuner((ccs_tree_tuner_t)h, flags); break;
  default: return fmt("object?%d", (int)t);
  }
  return s;
}
