// Access paths: whatever can be read in several ways (by index, by name, by handle, as a
// list, through the generic or the specific interface) reads the same in all of them, and
// whatever can be written in several ways is written the same by all of them.
#include "vm.h"

namespace {
struct A {
  VM &vm; Str who; bool fail = false;
  // a read that has to succeed
  void ok(ccs_result_t e, const Str &what) { if (e < 0) { ccs_clear_thread_error(); vm.bad("paths", who + ": " + what + " failed with " + vm.rname(e)); } }
  void eq(bool same, const Str &what) { if (!same) vm.bad("paths", who + ": " + what); }
};
bool same_datum(const ccs_datum_t &a, const ccs_datum_t &b) { return dtext(a) == dtext(b); }

#define BY3(K, F) (K == K_CSPACE ? ccs_configuration_space_##F : K == K_FSPACE ? ccs_features_space_##F : ccs_objective_space_##F)
#define SPC(NAME, ...) (s->kind == K_CSPACE ? ccs_configuration_space_##NAME((ccs_configuration_space_t)s->h, __VA_ARGS__) : s->kind == K_FSPACE ? ccs_features_space_##NAME((ccs_features_space_t)s->h, __VA_ARGS__) : ccs_objective_space_##NAME((ccs_objective_space_t)s->h, __VA_ARGS__))
void space_paths(A &a, const P &s, uint64_t sel) {
  ccs_context_t c = (ccs_context_t)s->h; size_t n = 999, n2 = 999, n3 = 999, n4 = 999; const char *nm = nullptr, *nm2 = nullptr;
  a.ok(ccs_context_get_num_parameters(c, &n), "counting the parameters"); a.ok(SPC(get_num_parameters, &n2), "counting the parameters"); a.ok(ccs_context_get_parameters(c, 0, nullptr, &n3), "counting the parameters"); a.ok(SPC(get_parameters, 0, nullptr, &n4), "counting the parameters");
  a.eq(n == n2 && n == n3 && n == n4 && (s->foreign || n == s->params.size()), fmt("the number of parameters is %zu, %zu, %zu or %zu, it has %zu", n, n2, n3, n4, s->params.size()));
  a.ok(ccs_context_get_name(c, &nm), "reading the name"); a.ok(SPC(get_name, &nm2), "reading the name"); a.eq(Str(nm) == nm2, "two names");
  if (!n) return;
  Vec<ccs_parameter_t> l(n), l2(n); a.ok(ccs_context_get_parameters(c, n, l.data(), nullptr), "listing the parameters"); a.ok(SPC(get_parameters, n, l2.data(), nullptr), "listing the parameters"); a.eq(l == l2, "the generic and the specific list of parameters differ");
  for (size_t i = 0; i < n; i++) {
    ccs_parameter_t p[4] = {nullptr, nullptr, nullptr, nullptr}; size_t ix[4] = {99, 99, 99, 99}; const char *pn = nullptr; Str at = fmt("parameter %zu ", i);
    a.ok(ccs_parameter_get_name(l[i], &pn), at + "name"); Str copy(pn); pn = copy.c_str();
    a.ok(ccs_context_get_parameter(c, i, &p[0]), at + "by index"); a.ok(SPC(get_parameter, i, &p[1]), at + "by index"); a.ok(ccs_context_get_parameter_by_name(c, pn, &p[2]), at + "by name"); a.ok(SPC(get_parameter_by_name, pn, &p[3]), at + "by name");
    for (auto x : p) a.eq(x == l[i], at + "is not the same by index, by name and in the list");
    a.ok(ccs_context_get_parameter_index(c, l[i], &ix[0]), at + "index"); a.ok(SPC(get_parameter_index, l[i], &ix[1]), at + "index"); a.ok(ccs_context_get_parameter_index_by_name(c, pn, &ix[2]), at + "index by name"); a.ok(SPC(get_parameter_index_by_name, pn, &ix[3]), at + "index by name");
    for (auto x : ix) a.eq(x == i, at + fmt("has index %zu", x));
    if (!s->foreign) a.eq(l[i] == (ccs_parameter_t)s->params[i]->h, at + "is another one than was added there");
    ccs_datum_t d, v, v2; a.ok(ccs_parameter_get_default_value(l[i], &d), at + "default value"); ccs_parameter_type_t pt; if (ccs_parameter_get_type(l[i], &pt) >= 0 && pt == CCS_PARAMETER_TYPE_STRING) d = ccs_string(i % 2 ? "alpha" : "omega");   // these have no default
    a.ok(ccs_context_validate_value(c, i, d, &v), at + "validation of its default value"); a.ok(SPC(validate_value, i, d, &v2), at + "validation of its default value"); a.eq(same_datum(v, v2) && same_datum(v, d), at + "its default value is validated to something else");
  }
  // several at once, in any order and repeated
  Rng64 g(sel); size_t m = 1 + (size_t)g.below((int64_t)n + 2); Vec<ccs_parameter_t> q(m); Vec<size_t> w(m), r(m, 99), r2(m, 99); for (size_t i = 0; i < m; i++) { w[i] = (size_t)g.below((int64_t)n); q[i] = l[w[i]]; }
  a.ok(ccs_context_get_parameter_indexes(c, m, q.data(), r.data()), "looking up several indexes"); a.ok(SPC(get_parameter_indexes, m, q.data(), r2.data()), "looking up several indexes"); a.eq(r == w && r2 == w, "looking up several indexes gives other ones than looking up each");
  if (s->kind == K_CSPACE) {
    ccs_configuration_space_t cs = (ccs_configuration_space_t)s->h; size_t nc = 0, nf = 0; a.ok(ccs_configuration_space_get_conditions(cs, 0, nullptr, &nc), "counting the conditions"); a.eq(nc == n, "the number of conditions is not the number of parameters"); Vec<ccs_expression_t> e(nc + 1); if (nc) a.ok(ccs_configuration_space_get_conditions(cs, nc, e.data(), nullptr), "listing the conditions");
    for (size_t i = 0; i < nc; i++) { ccs_expression_t x = (ccs_expression_t)1; a.ok(ccs_configuration_space_get_condition(cs, i, &x), "reading a condition"); a.eq(x == e[i], fmt("condition %zu differs from the one in the list", i)); if (!s->foreign) a.eq(x == (s->conds[i] ? (ccs_expression_t)s->conds[i]->h : nullptr), fmt("condition %zu is another one than was set", i)); }
    a.ok(ccs_configuration_space_get_forbidden_clauses(cs, 0, nullptr, &nf), "counting the clauses"); e.assign(nf + 1, nullptr); if (nf) a.ok(ccs_configuration_space_get_forbidden_clauses(cs, nf, e.data(), nullptr), "listing the clauses"); a.eq(s->foreign || nf == s->forb.size(), "the number of clauses");
    for (size_t i = 0; i < nf; i++) { ccs_expression_t x = nullptr; a.ok(ccs_configuration_space_get_forbidden_clause(cs, i, &x), "reading a clause"); a.eq(x == e[i], fmt("clause %zu differs from the one in the list", i)); if (!s->foreign) a.eq(x == (ccs_expression_t)s->forb[i]->h, fmt("clause %zu is another one than was added", i)); }
  }
  if (s->kind == K_OSPACE) {
    ccs_objective_space_t os = (ccs_objective_space_t)s->h; size_t k = 0; a.ok(ccs_objective_space_get_objectives(os, 0, nullptr, nullptr, &k), "counting the objectives"); Vec<ccs_expression_t> e(k + 1); Vec<ccs_objective_type_t> t(k + 1); if (k) a.ok(ccs_objective_space_get_objectives(os, k, e.data(), t.data(), nullptr), "listing the objectives"); a.eq(s->foreign || k == s->objs.size(), "the number of objectives");
    for (size_t i = 0; i < k; i++) { ccs_expression_t x = nullptr; ccs_objective_type_t y; a.ok(ccs_objective_space_get_objective(os, i, &x, &y), "reading an objective"); a.eq(x == e[i] && y == t[i], fmt("objective %zu differs from the one in the list", i)); }
  }
}
#define BND(NAME, ...) (o->kind == K_CONF ? ccs_configuration_##NAME((ccs_configuration_t)o->h, __VA_ARGS__) : o->kind == K_FEAT ? ccs_features_##NAME((ccs_features_t)o->h, __VA_ARGS__) : o->kind == K_EVAL ? ccs_evaluation_##NAME((ccs_evaluation_t)o->h, __VA_ARGS__) : o->kind == K_FEVAL ? ccs_features_evaluation_##NAME((ccs_features_evaluation_t)o->h, __VA_ARGS__) : ccs_tree_evaluation_##NAME((ccs_tree_evaluation_t)o->h, __VA_ARGS__))
#define EVL(NAME, ...) (o->kind == K_EVAL ? ccs_evaluation_##NAME((ccs_evaluation_t)o->h, __VA_ARGS__) : o->kind == K_FEVAL ? ccs_features_evaluation_##NAME((ccs_features_evaluation_t)o->h, __VA_ARGS__) : ccs_tree_evaluation_##NAME((ccs_tree_evaluation_t)o->h, __VA_ARGS__))
bool is_bind(const Obj &o) { return o.kind == K_CONF || o.kind == K_FEAT || o.kind == K_EVAL || o.kind == K_FEVAL || o.kind == K_TEVAL; }
bool is_eval(const Obj &o) { return o.kind == K_EVAL || o.kind == K_FEVAL || o.kind == K_TEVAL; }
const P &space_of(const P &o) { return is_eval(*o) ? o->ospace : o->space; }
void bind_paths(A &a, const P &o, const P &other) {
  VM &vm = a.vm; ccs_binding_t b = (ccs_binding_t)o->h; size_t n = 999, n2 = 999; ccs_context_t c = nullptr; a.ok(ccs_binding_get_context(b, &c), "reading its space"); const P &sp = space_of(o); if (sp) a.eq(c == (ccs_context_t)sp->h, "it belongs to another space");
  a.ok(ccs_binding_get_values(b, 0, nullptr, &n), "counting its values"); a.ok(BND(get_values, 0, nullptr, &n2), "counting its values"); a.eq(n == n2, "it has two numbers of values");
  size_t np = 0; a.ok(ccs_context_get_num_parameters(c, &np), "counting the parameters of its space");
  Vec<ccs_datum_t> l(n + 1), l2(n + 1); if (n) { a.ok(ccs_binding_get_values(b, n, l.data(), nullptr), "listing its values"); a.ok(BND(get_values, n, l2.data(), nullptr), "listing its values"); }
  for (size_t i = 0; i < n; i++) {
    Str at = fmt("value %zu ", i); a.eq(same_datum(l[i], l2[i]), at + "differs between the two lists"); if (!o->foreign) a.eq(same_datum(l[i], l2[i]) && i < o->values.size() && dtext(l[i]) == vtext(o->values[i]), at + "is " + dtext(l[i]) + " and not the one it was given");
    ccs_datum_t d[5]; for (auto &x : d) x = ccs_none; a.ok(ccs_binding_get_value(b, i, &d[0]), at + "by index"); a.ok(BND(get_value, i, &d[1]), at + "by index"); size_t m = 2;
    if (i < np) { ccs_parameter_t p; const char *nm; a.ok(ccs_context_get_parameter(c, i, &p), at + "parameter"); a.ok(ccs_parameter_get_name(p, &nm), at + "name"); Str cp(nm); a.ok(ccs_binding_get_value_by_name(b, cp.c_str(), &d[2]), at + "by name"); a.ok(BND(get_value_by_name, cp.c_str(), &d[3]), at + "by name"); a.ok(ccs_binding_get_value_by_parameter(b, p, &d[4]), at + "by parameter"); m = 5; }
    for (size_t k = 0; k < m; k++) a.eq(same_datum(d[k], l[i]), at + "reads " + dtext(d[k]) + " in one way and " + dtext(l[i]) + " in another");
  }
  ccs_hash_t h = 0, h2 = 1; ccs_result_t e = ccs_binding_hash(b, &h), e2 = BND(hash, &h2); if (e < 0 || e2 < 0) ccs_clear_thread_error(); a.eq(e == e2 && (e < 0 || h == h2), "it has two hashes");
  if (other && other->kind == o->kind) { int x = 7, y = 7; e = ccs_binding_cmp(b, (ccs_binding_t)other->h, &x); e2 = o->kind == K_CONF ? ccs_configuration_cmp((ccs_configuration_t)o->h, (ccs_configuration_t)other->h, &y) : o->kind == K_FEAT ? ccs_features_cmp((ccs_features_t)o->h, (ccs_features_t)other->h, &y) : o->kind == K_EVAL ? ccs_evaluation_cmp((ccs_evaluation_t)o->h, (ccs_evaluation_t)other->h, &y) : o->kind == K_FEVAL ? ccs_features_evaluation_cmp((ccs_features_evaluation_t)o->h, (ccs_features_evaluation_t)other->h, &y) : ccs_tree_evaluation_cmp((ccs_tree_evaluation_t)o->h, (ccs_tree_evaluation_t)other->h, &y); if (e < 0 || e2 < 0) ccs_clear_thread_error(); a.eq(e == e2 && (e < 0 || x == y), fmt("compared to another in two ways gives %d and %d", x, y)); }
  // validity: of the object, of the object in its space, of its values in its space
  ccs_bool_t v[3] = {(ccs_bool_t)7, (ccs_bool_t)7, (ccs_bool_t)7}; ccs_result_t r[3]; int k = 0; r[k] = BND(check, &v[k]); k++;
  if (o->kind == K_CONF) { r[k] = ccs_configuration_space_check_configuration((ccs_configuration_space_t)c, (ccs_configuration_t)o->h, &v[k]); k++; r[k] = ccs_configuration_space_check_configuration_values((ccs_configuration_space_t)c, n, n ? l.data() : nullptr, &v[k]); k++; }
  else if (o->kind == K_FEAT) { r[k] = ccs_features_space_check_features((ccs_features_space_t)c, (ccs_features_t)o->h, &v[k]); k++; r[k] = ccs_features_space_check_features_values((ccs_features_space_t)c, n, n ? l.data() : nullptr, &v[k]); k++; }
  else { r[k] = ccs_objective_space_check_evaluation_values((ccs_objective_space_t)c, n, n ? l.data() : nullptr, &v[k]); k++; }
  ccs_clear_thread_error(); for (int i = 1; i < k; i++) a.eq((r[i] < 0) == (r[0] < 0) && (r[0] < 0 || !v[i] == !v[0]), fmt("checking it answers %s/%d in one way and %s/%d in another", vm.rname(r[0]).c_str(), (int)v[0], vm.rname(r[i]).c_str(), (int)v[i]));
  if (is_eval(*o)) {
    ccs_objective_space_t os = nullptr; a.ok(EVL(get_objective_space, &os), "reading its objective space"); a.eq((ccs_context_t)os == c, "its objective space is not its space"); size_t m = 0; a.ok(ccs_objective_space_get_objectives(os, 0, nullptr, nullptr, &m), "counting the objectives");
    Vec<ccs_datum_t> ov(m + 1); ccs_result_t el = m ? EVL(get_objective_values, m, ov.data(), nullptr) : CCS_RESULT_SUCCESS; bool one = true; ccs_clear_thread_error();
    for (size_t i = 0; i < m; i++) { ccs_datum_t d = ccs_none; ccs_result_t x = EVL(get_objective_value, i, &d); ccs_clear_thread_error(); if (x < 0) one = false; else if (el >= 0) a.eq(same_datum(d, ov[i]), fmt("objective %zu reads %s in one way and %s in another", i, dtext(d).c_str(), dtext(ov[i]).c_str())); }
    a.eq(one == (el >= 0), "the objectives can be read in one way only");
  }
}
} // namespace

OP(paths) { // slot other variant: compare all the ways to read an object
  Rd r(op); P o = vm.get(r.n(), -1), q = vm.get(r.n(), -1); uint64_t sel = (uint64_t)r.n(); if (!o || !vm.cfg.models) SKIP; A a{vm, fmt("%s %d", kind_name[o->kind], o->id)};
  switch (o->kind) {
  case K_CSPACE: case K_FSPACE: case K_OSPACE: space_paths(a, o, sel); break;
  case K_CONF: case K_FEAT: case K_EVAL: case K_FEVAL: case K_TEVAL: bind_paths(a, o, q); break;
  case K_EXPR: {
    if (o->foreign) SKIP; Vec<P> w = m_params_of(o); std::set<ccs_object_t> want, got; for (auto &p : w) want.insert(p->h); size_t n = 999; a.ok(ccs_expression_get_parameters((ccs_expression_t)o->h, 0, nullptr, &n), "counting its parameters"); Vec<ccs_parameter_t> l(n + 1); if (n) a.ok(ccs_expression_get_parameters((ccs_expression_t)o->h, n, l.data(), nullptr), "listing its parameters"); for (size_t i = 0; i < n; i++) got.insert((ccs_object_t)l[i]);
    a.eq(want == got && got.size() == n, fmt("lists %zu parameters, %zu different ones, and depends on %zu", n, got.size(), want.size()));
    if (q && (q->kind == K_CSPACE || q->kind == K_FSPACE || q->kind == K_OSPACE) && !q->foreign) { bool in = true; for (auto &p : w) if (std::find(q->params.begin(), q->params.end(), p) == q->params.end()) in = false; ccs_result_t e = ccs_expression_check_context((ccs_expression_t)o->h, (ccs_context_t)q->h); ccs_clear_thread_error(); a.eq((e >= 0) == in, "checked against a space answers " + vm.rname(e)); }
    break; }
  case K_PARAM: {
    if (o->foreign) SKIP; ccs_parameter_type_t t; a.ok(ccs_parameter_get_type((ccs_parameter_t)o->h, &t), "reading its type"); if (t != CCS_PARAMETER_TYPE_ORDINAL) SKIP; size_t n = o->vals.size(); if (!n) SKIP; Vec<std::unique_ptr<char[]>> keep;
    Vec<ccs_datum_t> l(n); size_t k = 0; a.ok(ccs_ordinal_parameter_get_values((ccs_parameter_t)o->h, n, l.data(), &k), "listing its values"); a.eq(k == n, "the number of its values");
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { ccs_int_t c = 7; a.ok(ccs_ordinal_parameter_compare_values((ccs_parameter_t)o->h, datum_of(o->vals[i], &keep), l[j], &c), "comparing two of its values"); a.eq((c < 0) == (i < j) && (c > 0) == (i > j), fmt("values %zu and %zu compare as %d", i, j, (int)c)); }
    break; }
  default: SKIP;
  }
  vm.out("paths");
}
OP(bind_via) { // slot way idx (t v): write one value, by name, by parameter or by index through the generic interface
  Rd r(op); P o = vm.get(r.n(), -1); int way = (int)r.n(); size_t ix = (size_t)r.n(); if (!o || !is_bind(*o) || o->foreign || o->told) SKIP; const P &sp = space_of(o); if (!sp || sp->foreign) SKIP;
  P p = ix < sp->params.size() ? sp->params[ix] : nullptr; if (!p) SKIP; ccs_result_t e; Dat x; ccs_binding_t b = (ccs_binding_t)o->h; Str nm = p->name; bool ok = ix < o->values.size();
  { Data d; x = rd_dat(vm, r, p.get()); if (!x.ok || x.v.t == T_OBJECT) SKIP; d.add(x); ok = ok && (!x.tr || m_in_domain(*p, x.v));
    e = vm.call([&] { switch (way % 3) { case 0: return ccs_binding_set_value(b, ix, d.d[0]); case 1: return ccs_binding_set_value_by_name(b, nm.c_str(), d.d[0]); default: return ccs_binding_set_value_by_parameter(b, (ccs_parameter_t)p->h, d.d[0]); } }); }
  vm.out("bind_via " + vm.rname(e)); vm.judge("paths", e, ok, "setting a value"); if (e >= 0 && ix < o->values.size()) o->values[ix] = x.v;
  if (vm.cfg.models) vm.check_content("paths", [&](const Obj &y) { return &y == o.get(); });
}
OP(bind_all) { // slot (t v)*: write all the values
  Rd r(op); P o = vm.get(r.n(), -1); if (!o || !is_bind(*o) || o->foreign || o->told) SKIP; const P &sp = space_of(o); if (!sp || sp->foreign) SKIP; ccs_result_t e; Vec<Val> vs; bool ok = true, stop = false; size_t k = 0;
  { Data d; while (r.more()) { const Obj *p = vs.size() < sp->params.size() ? sp->params[vs.size()].get() : nullptr; Dat x = rd_dat(vm, r, p); if (!x.ok || x.v.t == T_OBJECT || !p) SKIP; if (x.tr && !m_in_domain(*p, x.v) && !stop) { stop = true; k = vs.size(); } vs.push_back(x.v); d.add(x); }
    if (vs.empty()) SKIP; ok = vs.size() == o->values.size() && !stop; e = vm.call([&] { return ccs_binding_set_values((ccs_binding_t)o->h, d.d.size(), d.d.data()); }); }
  vm.out("bind_all " + vm.rname(e)); vm.judge("paths", e, ok, "setting all values"); if (e >= 0) o->values = vs;
  else if (stop && vs.size() == o->values.size()) { Vec<ccs_datum_t> v(vs.size(), ccs_none); Vec<Val> w = o->values; for (size_t i = 0; i < k; i++) w[i] = vs[i]; if (ccs_binding_get_values((ccs_binding_t)o->h, v.size(), v.data(), nullptr) >= 0) { bool pre = true; for (size_t i = 0; i < v.size(); i++) pre = pre && val_of(vm, v[i]) == w[i]; if (pre) o->values = w; } }   // the values before the refused one may have been taken
  if (vm.cfg.models) vm.check_content("paths", [&](const Obj &y) { return &y == o.get(); });
}
OP(dist_psample) { // dist rng n param*: sample parameters together
  Rd r(op); P d = vm.get(r.n(), K_DIST), g = vm.get(r.n(), K_RNG); size_t n = (size_t)r.n(1); if (!d || !g || d->foreign) SKIP; Vec<P> ps; Vec<ccs_parameter_t> ph; while (r.more()) { P p = vm.get(r.n(), K_PARAM); if (!p || p->foreign) SKIP; ps.push_back(p); ph.push_back((ccs_parameter_t)p->h); }
  size_t dim = 0; if (ccs_distribution_get_dimension((ccs_distribution_t)d->h, &dim) < 0) SKIP; if (!dim || ps.empty()) SKIP; while (ps.size() < dim) { ps.push_back(ps[0]); ph.push_back(ph[0]); } ps.resize(dim); ph.resize(dim);
  Vec<ccs_datum_t> v(n * dim, ccs_none);
  ccs_result_t e = vm.call([&] { return n == 1 ? ccs_distribution_parameters_sample((ccs_distribution_t)d->h, (ccs_rng_t)g->h, ph.data(), v.data()) : ccs_distribution_parameters_samples((ccs_distribution_t)d->h, (ccs_rng_t)g->h, ph.data(), n, v.data()); });
  Str s = "dpsample " + vm.rname(e);
  if (e >= 0) for (size_t i = 0; i < n * dim; i++) { s += " " + dtext(v[i]); if (vm.cfg.models && !m_in_domain(*ps[i % dim], val_of(vm, v[i]))) vm.bad("sample", "sampled " + dtext(v[i]) + " outside the domain of " + mtext(vm, ps[i % dim])); }
  vm.out(s);
}
