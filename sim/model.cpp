// Executable reference models, written from the documented semantics and
// independent of the library's code paths.
#include "vm.h"
#include <algorithm>

bool Val::operator==(const Val &b) const {
  if (t != b.t) return false;
  switch (t) { case T_INT: case T_BOOL: return i == b.i; case T_FLOAT: return !memcmp(&f, &b.f, sizeof f); case T_STRING: return s == b.s; case T_OBJECT: return (o ? o->id : i) == (b.o ? b.o->id : b.i); default: return true; }
}
static Str quote(const Str &x) { Str r = "\""; for (char c : x) { if (c == '"' || c == '\\' || (unsigned char)c < 32) r += fmt("\\x%02x", (unsigned char)c); else r += c; } return r + "\""; }
static Str flt(double f) { return f != f ? Str("nan") : fmt("%a", f); }
Str vtext(const Val &v) {
  switch (v.t) {
  case T_NONE: return "none"; case T_INT: return fmt("i%ld", (long)v.i); case T_FLOAT: return "f" + flt(v.f); case T_BOOL: return v.i ? "true" : "false";
  case T_STRING: return is_nul(v) ? Str("s(null)") : "s" + quote(v.s); case T_INACTIVE: return "inactive";
  case T_OBJECT: return v.id ? "id" : fmt("<#%d>", v.o ? v.o->id : 0);
  }
  return "?";
}
Str mkname(const char *p, int64_t n) {
  Str s = fmt("%s%ld", p, (long)n); if (n % 7 == 5) s += "_" + Str(n % 14 == 5 ? 126 - std::min<size_t>(s.size() + 1, 126) + (size_t)(n / 14 % 4) : (size_t)(20 + n % 60), 'n'); if (n % 90 == 77) s += Str(16384 - s.size() - (size_t)(n & 1), 'L'); return s;
}
const Vec<Str> &str_pool() {
  static const Vec<Str> p = {"alpha", "beta", "gamma", "delta", "", "a rather long string value used as a categorical choice", "x", "alpha2", "quote\"d", "omega", Str(126, 'y'), Str(127, 'z'), Str(128, 'w') + Str(172, 'v')};
  return p;
}
Val val_of(VM &vm, const ccs_datum_t &d) {
  Val v;
  switch (d.type) {
  case CCS_DATA_TYPE_INT: v.t = T_INT; v.i = d.value.i; break;
  case CCS_DATA_TYPE_FLOAT: v.t = T_FLOAT; v.f = d.value.f; break;
  case CCS_DATA_TYPE_BOOL: v.t = T_BOOL; v.i = d.value.i ? 1 : 0; break;
  case CCS_DATA_TYPE_STRING: v.t = T_STRING; v.s = d.value.s ? d.value.s : "(null)"; break;
  case CCS_DATA_TYPE_INACTIVE: v.t = T_INACTIVE; break;
  case CCS_DATA_TYPE_OBJECT: v.t = T_OBJECT; v.o = vm.find_handle(d.value.o); v.id = d.flags & CCS_DATUM_FLAG_ID; break;
  default: v.t = T_NONE;
  }
  return v;
}
ccs_datum_t datum_of(const Val &v, Vec<std::unique_ptr<char[]>> *keep) {
  ccs_datum_t d; memset((void *)&d, 0, sizeof d);
  switch (v.t) {
  case T_INT: d = ccs_int(v.i); break;
  case T_FLOAT: d = ccs_float(v.f); break;
  case T_BOOL: d = ccs_bool(v.i ? CCS_TRUE : CCS_FALSE); break;
  case T_STRING:
    if (is_nul(v)) { d = ccs_string(nullptr); break; }
    if (keep) { char *c = new char[v.s.size() + 1]; memcpy(c, v.s.c_str(), v.s.size() + 1); keep->emplace_back(c); d = ccs_string(c); }
    else d = ccs_string(intern(v.s));
    break;
  case T_INACTIVE: d = ccs_inactive; break;
  case T_OBJECT: d = ccs_object(v.o->h); if (v.id) d.flags |= CCS_DATUM_FLAG_ID; break;
  default: d = ccs_none;
  }
  return d;
}

bool m_in_domain(const Obj &p, const Val &v) {
  if (p.sub == CCS_PARAMETER_TYPE_NUMERICAL) {
    if (p.isf) return v.t == T_FLOAT && v.f >= p.lo.f && v.f < p.hi.f;
    return v.t == T_INT && v.i >= p.lo.i && v.i < p.hi.i;
  }
  if (p.sub == CCS_PARAMETER_TYPE_STRING) return v.t == T_STRING;
  for (auto &x : p.vals) if (x == v) return true;
  return false;
}
static int ord_pos(const Obj &p, const Val &v) { for (size_t i = 0; i < p.vals.size(); i++) if (p.vals[i] == v) return (int)i; return -1; }
static bool num(const Val &v) { return v.t == T_INT || v.t == T_FLOAT; }
static double asd(const Val &v) { return v.t == T_INT ? (double)v.i : v.f; }
static int cmp_num(const Val &a, const Val &b) {
  if (a.t == T_INT && b.t == T_INT) return a.i < b.i ? -1 : a.i > b.i;
  double x = asd(a), y = asd(b); return x < y ? -1 : x > y;
}
static Val mkb(bool b) { Val v; v.t = T_BOOL; v.i = b; return v; }
static bool veq(const Val &a, const Val &b) { if (a.t == T_FLOAT && b.t == T_FLOAT) return a.f == b.f; if (a.t == b.t) return a == b; if (num(a) && num(b)) return cmp_num(a, b) == 0; return false; }
static bool param_ok(const P &node, const Val &other) {       // operand admissible against a variable node
  if (node->et != CCS_EXPRESSION_TYPE_VARIABLE) return true;
  const Obj &p = *node->param;
  if (p.sub == CCS_PARAMETER_TYPE_ORDINAL || p.sub == CCS_PARAMETER_TYPE_CATEGORICAL) return m_in_domain(p, other);
  if (p.sub == CCS_PARAMETER_TYPE_NUMERICAL || p.sub == CCS_PARAMETER_TYPE_DISCRETE) return num(other);
  return true;
}
bool m_eval(const P &e, const Obj &space, const Vec<Val> &values, Val &res) {
  const int et = e->et;
  if (et == CCS_EXPRESSION_TYPE_LITERAL) { res = e->lit; return true; }
  if (et == CCS_EXPRESSION_TYPE_VARIABLE) {
    for (size_t i = 0; i < space.params.size() && i < values.size(); i++) if (space.params[i] == e->param) { res = values[i]; return true; }
    return false;
  }
  if (et == CCS_EXPRESSION_TYPE_LIST) return false;
  Val l, r;
  if (et == CCS_EXPRESSION_TYPE_IN) {
    if (!m_eval(e->nodes[0], space, values, l)) return false;
    if (e->nodes[1]->et != CCS_EXPRESSION_TYPE_LIST) return false;
    if (l.t == T_INACTIVE) { res = l; return true; }
    bool inact = false, hit = false;
    for (auto &n : e->nodes[1]->nodes) {
      Val x; if (!m_eval(n, space, values, x)) return false;
      if (x.t == T_INACTIVE) { inact = true; continue; }
      if (!param_ok(e->nodes[0], x)) return false;
      if (veq(l, x)) { hit = true; break; }
    }
    if (hit) res = mkb(true); else if (inact) { res = Val(); res.t = T_INACTIVE; } else res = mkb(false);
    return true;
  }
  if (!m_eval(e->nodes[0], space, values, l)) return false;
  bool un = et == CCS_EXPRESSION_TYPE_POSITIVE || et == CCS_EXPRESSION_TYPE_NEGATIVE || et == CCS_EXPRESSION_TYPE_NOT;
  if (!un && !m_eval(e->nodes[1], space, values, r)) return false;
  if (et == CCS_EXPRESSION_TYPE_OR) {
    if ((l.t == T_BOOL && l.i) || (r.t == T_BOOL && r.i)) { res = mkb(true); return true; }
    if (l.t == T_INACTIVE || r.t == T_INACTIVE) { res = Val(); res.t = T_INACTIVE; return true; }
    if (l.t != T_BOOL || r.t != T_BOOL) return false;
    res = mkb(false); return true;
  }
  if (et == CCS_EXPRESSION_TYPE_LESS || et == CCS_EXPRESSION_TYPE_GREATER || et == CCS_EXPRESSION_TYPE_LESS_OR_EQUAL || et == CCS_EXPRESSION_TYPE_GREATER_OR_EQUAL)
    for (int k = 0; k < 2; k++) if (e->nodes[k]->et == CCS_EXPRESSION_TYPE_VARIABLE && e->nodes[k]->param->sub == CCS_PARAMETER_TYPE_CATEGORICAL) return false;   // has no order
  if (l.t == T_INACTIVE || (!un && r.t == T_INACTIVE)) { res = Val(); res.t = T_INACTIVE; return true; }
  switch (et) {
  case CCS_EXPRESSION_TYPE_AND: if (l.t != T_BOOL || r.t != T_BOOL) return false; res = mkb(l.i && r.i); return true;
  case CCS_EXPRESSION_TYPE_NOT: if (l.t != T_BOOL) return false; res = mkb(!l.i); return true;
  case CCS_EXPRESSION_TYPE_POSITIVE: if (!num(l)) return false; res = l; return true;
  case CCS_EXPRESSION_TYPE_NEGATIVE: if (!num(l)) return false; res = l; res.i = -l.i; res.f = -l.f; return true;
  case CCS_EXPRESSION_TYPE_EQUAL: case CCS_EXPRESSION_TYPE_NOT_EQUAL:
    if (!param_ok(e->nodes[0], r) || !param_ok(e->nodes[1], l)) return false;
    if (e->nodes[0]->et != CCS_EXPRESSION_TYPE_VARIABLE && e->nodes[1]->et != CCS_EXPRESSION_TYPE_VARIABLE && l.t != r.t && !(num(l) && num(r))) return false;
    res = mkb(veq(l, r) == (et == CCS_EXPRESSION_TYPE_EQUAL)); return true;
  case CCS_EXPRESSION_TYPE_LESS: case CCS_EXPRESSION_TYPE_GREATER: case CCS_EXPRESSION_TYPE_LESS_OR_EQUAL: case CCS_EXPRESSION_TYPE_GREATER_OR_EQUAL: {
    if (!param_ok(e->nodes[0], r) || !param_ok(e->nodes[1], l)) return false;
    int c; const Obj *op = nullptr;
    for (int k = 0; k < 2; k++) { const P &n = e->nodes[k]; if (n->et == CCS_EXPRESSION_TYPE_VARIABLE) { if (n->param->sub == CCS_PARAMETER_TYPE_CATEGORICAL) return false; if (!op && n->param->sub == CCS_PARAMETER_TYPE_ORDINAL) op = n->param.get(); } }
    if (op) { int a = ord_pos(*op, l), b = ord_pos(*op, r); if (a < 0 || b < 0) return false; c = a < b ? -1 : a > b; }
    else if (num(l) && num(r)) c = cmp_num(l, r);
    else if (l.t == T_STRING && r.t == T_STRING) { int k = is_nul(l) || is_nul(r) ? (int)is_nul(r) - (int)is_nul(l) : l.s.compare(r.s); c = k < 0 ? -1 : k > 0; }
    else return false;
    res = mkb(et == CCS_EXPRESSION_TYPE_LESS ? c < 0 : et == CCS_EXPRESSION_TYPE_GREATER ? c > 0 : et == CCS_EXPRESSION_TYPE_LESS_OR_EQUAL ? c <= 0 : c >= 0); return true; }
  case CCS_EXPRESSION_TYPE_ADD: case CCS_EXPRESSION_TYPE_SUBSTRACT: case CCS_EXPRESSION_TYPE_MULTIPLY: {
    if (!num(l) || !num(r)) return false;
    res = Val();
    if (l.t == T_INT && r.t == T_INT) { res.t = T_INT; res.i = et == CCS_EXPRESSION_TYPE_ADD ? l.i + r.i : et == CCS_EXPRESSION_TYPE_SUBSTRACT ? l.i - r.i : l.i * r.i; }
    else { res.t = T_FLOAT; double a = asd(l), b = asd(r); res.f = et == CCS_EXPRESSION_TYPE_ADD ? a + b : et == CCS_EXPRESSION_TYPE_SUBSTRACT ? a - b : a * b; }
    return true; }
  case CCS_EXPRESSION_TYPE_DIVIDE: case CCS_EXPRESSION_TYPE_MODULO: {
    if (!num(l) || !num(r) || asd(r) == 0) return false;
    if (l.t == T_INT && r.t == T_INT && r.i == -1) { if (et == CCS_EXPRESSION_TYPE_DIVIDE && l.i == INT64_MIN) return false; res = Val(); res.t = T_INT; res.i = et == CCS_EXPRESSION_TYPE_DIVIDE ? -l.i : 0; return true; }
    res = Val();
    if (l.t == T_INT && r.t == T_INT) { res.t = T_INT; res.i = et == CCS_EXPRESSION_TYPE_DIVIDE ? l.i / r.i : l.i % r.i; }
    else { res.t = T_FLOAT; res.f = et == CCS_EXPRESSION_TYPE_DIVIDE ? asd(l) / asd(r) : fmod(asd(l), asd(r)); }
    return true; }
  }
  return false;
}
static void params_rec(const P &e, Vec<P> &out) {
  if (e->et == CCS_EXPRESSION_TYPE_VARIABLE) { if (std::find(out.begin(), out.end(), e->param) == out.end()) out.push_back(e->param); return; }
  for (auto &n : e->nodes) params_rec(n, out);
}
Vec<P> m_params_of(const P &e) { Vec<P> r; params_rec(e, r); return r; }

bool m_topo(const Obj &cs, Vec<int> &order) {
  size_t n = cs.params.size(); Vec<std::set<int>> dep(n); Vec<bool> done(n, false);
  for (size_t i = 0; i < n; i++) if (cs.conds[i]) for (auto &p : m_params_of(cs.conds[i])) { auto it = std::find(cs.params.begin(), cs.params.end(), p); if (it == cs.params.end()) return false; dep[i].insert((int)(it - cs.params.begin())); }
  order.clear(); bool prog = true;
  while (prog && order.size() < n) { prog = false; for (size_t i = 0; i < n; i++) if (!done[i]) { bool ok = true; for (int d : dep[i]) ok = ok && done[d]; if (ok) { done[i] = true; order.push_back((int)i); prog = true; } } }
  return order.size() == n;
}
static int actives(const Obj &cs, Vec<Val> &values) {
  Vec<int> ord; if (!m_topo(cs, ord)) return -1;
  for (int i : ord) if (cs.conds[i]) { Val r; if (!m_eval(cs.conds[i], cs, values, r)) return -1; if (!(r.t == T_BOOL && r.i)) { values[i] = Val(); values[i].t = T_INACTIVE; } }
  return 0;
}
bool m_default(const Obj &cs, Vec<Val> &values) { values.clear(); for (auto &p : cs.params) values.push_back(p->def); return actives(cs, values) == 0; }
int m_check(const Obj &cs, const Vec<Val> &values, Str *why) {
  if (values.size() != cs.params.size()) return -1;
  Vec<int> ord; if (!m_topo(cs, ord)) return -1;
  for (int i : ord) {
    bool act = true;
    if (cs.conds[i]) { Val r; if (!m_eval(cs.conds[i], cs, values, r)) return -1; act = r.t == T_BOOL && r.i; }
    if (act != (values[i].t != T_INACTIVE)) { if (why) *why = fmt("parameter %d (%s) is %s although its condition %s", i, cs.params[i]->name.c_str(), act ? "inactive" : "active", act ? "holds" : "does not hold"); return 0; }
    if (act && !m_in_domain(*cs.params[i], values[i])) { if (why) *why = fmt("parameter %d (%s) has value %s outside its domain", i, cs.params[i]->name.c_str(), vtext(values[i]).c_str()); return 0; }
  }
  for (size_t k = 0; k < cs.forb.size(); k++) { Val r; if (!m_eval(cs.forb[k], cs, values, r)) return -1; if (r.t == T_BOOL && r.i) { if (why) *why = fmt("forbidden clause %zu holds", k); return 0; } }
  return 1;
}
// values for which some condition has no value: whether a check fails or answers "not valid" depends on the order of independent parameters
bool m_undecided(const Obj &cs, const Vec<Val> &values) { if (values.size() != cs.params.size()) return false; for (auto &c : cs.conds) { Val r; if (c && !m_eval(c, cs, values, r)) return true; } return false; }
bool m_obj_values(const Obj &ev, Vec<Val> &res) {
  res.clear(); const Obj &os = *ev.ospace;
  for (auto &o : os.objs) { Val v; if (!m_eval(o.first, os, ev.values, v)) return false; res.push_back(v); }
  return true;
}
int m_compare(const Obj &a, const Obj &b) {
  if (&a == &b) return 0;
  if (a.result || b.result || a.ospace != b.ospace) return 3;
  if (a.kind == K_FEVAL) { if (a.feat != b.feat && !(a.feat->space == b.feat->space && a.feat->values == b.feat->values)) return 2; }
  Vec<Val> x, y; if (!m_obj_values(a, x) || !m_obj_values(b, y)) return 3;
  int res = 0;
  for (size_t i = 0; i < x.size(); i++) {
    if (!num(x[i]) || x[i].t != y[i].t) return 2;
    int c = cmp_num(x[i], y[i]); if (a.ospace->objs[i].second == CCS_OBJECTIVE_TYPE_MAXIMIZE) c = -c;
    if (c) { if (!res) res = c; else if (res != c) return 2; }
  }
  return res;
}
// non-dominated evaluations of a history; among equivalent ones the first told
Vec<P> m_optima(const Vec<P> &h) {
  Vec<P> r; Vec<char> can; for (auto &e : h) { Vec<Val> o; can.push_back(m_obj_values(*e, o)); }
  for (size_t i = 0; i < h.size(); i++) {
    bool keep = can[i];
    for (size_t j = 0; j < h.size() && keep; j++) if (j != i && can[j]) { int c = m_compare(*h[j], *h[i]); if (c == -1 || (c == 0 && j < i)) keep = false; }
    if (keep) r.push_back(h[i]);
  }
  return r;
}
double m_tree_sum(const Obj &t) {
  double s = t.weight; for (auto &k : t.kids) s += k ? m_tree_sum(*k) * k->bias : 1.0; return s;
}
// ---- model texts: must equal atext() of the same object --------------------
static Str mt_vals(const Vec<Val> &v) { Str s = "["; for (auto &x : v) s += vtext(x) + " "; return s + "]"; }
static Str mt_param(const Obj &p) {
  if (p.fixed.size()) return p.fixed;
  Str s;
  switch (p.sub) {
  case CCS_PARAMETER_TYPE_NUMERICAL: s = "num(" + quote(p.name) + "," + vtext(p.lo) + "," + vtext(p.hi) + "," + vtext(p.q) + ","; break;
  case CCS_PARAMETER_TYPE_CATEGORICAL: s = "cat(" + quote(p.name) + ",["; break;
  case CCS_PARAMETER_TYPE_ORDINAL: s = "ord(" + quote(p.name) + ",["; break;
  case CCS_PARAMETER_TYPE_DISCRETE: s = "dis(" + quote(p.name) + ",["; break;
  default: s = "str(" + quote(p.name) + ",";
  }
  if (p.sub != CCS_PARAMETER_TYPE_NUMERICAL && p.sub != CCS_PARAMETER_TYPE_STRING) { for (auto &x : p.vals) s += vtext(x) + " "; s += "],"; }
  return s + vtext(p.def) + ")";
}
static Str mt_dist(const Obj &d) {
  switch (d.sub) {
  case CCS_DISTRIBUTION_TYPE_UNIFORM: return "uniform(" + vtext(d.lo) + "," + vtext(d.hi) + fmt(",%d,", d.scale) + vtext(d.q) + ")";
  case CCS_DISTRIBUTION_TYPE_NORMAL: return fmt("normal(%d,", d.isf ? (int)CCS_NUMERIC_TYPE_FLOAT : (int)CCS_NUMERIC_TYPE_INT) + flt(d.d0) + "," + flt(d.d1) + fmt(",%d,", d.scale) + vtext(d.q) + ")";
  case CCS_DISTRIBUTION_TYPE_ROULETTE: { double t = 0; for (double x : d.ws) t += x; Str s = "roulette("; for (double x : d.ws) s += f10(x / t)+","; return s + ")"; }
  case CCS_DISTRIBUTION_TYPE_MIXTURE: { double t = 0; for (double x : d.ws) t += x; Str s = "mixture("; for (size_t i = 0; i < d.subs.size(); i++) s += mt_dist(*d.subs[i]) + "*"+f10(d.ws[i] / t)+","; return s + ")"; }
  default: { Str s = "multi("; for (auto &x : d.subs) s += mt_dist(*x) + ","; return s + ")"; }
  }
}
static Str mt_expr(const Obj &e) {
  if (e.et == CCS_EXPRESSION_TYPE_LITERAL) return "lit(" + vtext(e.lit) + ")";
  if (e.et == CCS_EXPRESSION_TYPE_VARIABLE) return "var(" + quote(e.param->name) + ")";
  Str s = fmt("e%d(", e.et); for (auto &n : e.nodes) s += mt_expr(*n) + ","; return s + ")";
}
static Str mt_tree(VM &vm, const Obj &t) {
  Str s = "node(" + vtext(t.tval) + fmt(",%d,", t.arity) + flt(t.weight) + "," + flt(t.bias);
  for (size_t i = 0; i < t.kids.size(); i++) if (t.kids[i]) s += fmt(" %zu:", i) + mt_tree(vm, *t.kids[i]);
  return s + ")";
}
static Str mt_evalbody(const Obj &e) {
  Str s = fmt("result=%d ", e.result) + mt_vals(e.values); Vec<Val> o;
  if (m_obj_values(e, o)) s += " obj " + mt_vals(o); else s += " obj error";
  return s;
}
static Str api_default_dist(const Obj &p) {
  ccs_distribution_t d = nullptr; if (ccs_parameter_get_default_distribution((ccs_parameter_t)p.h, &d) < 0) { ccs_clear_thread_error(); return "?"; }
  Str s = atext(d, 0); ccs_release_object(d); return s;
}
static Str mt_tconf(const Obj &c) { Str s = "tconf("; for (size_t x : c.pos) s += fmt("%zu/", x); return s + mt_vals(c.pvals) + ")"; }
Str mtext(VM &vm, const P &o) {
  const Obj &x = *o;
  switch (x.kind) {
  case K_RNG: return "";
  case K_PARAM: return mt_param(x);
  case K_DIST: return mt_dist(x);
  case K_EXPR: return mt_expr(x);
  case K_CSPACE: {
    Str s = "cspace(" + quote(x.name) + ",";
    for (size_t i = 0; i < x.params.size(); i++) {
      s += "\n  " + mt_param(*x.params[i]) + " ~ " + (x.dists[i] ? mt_dist(*x.dists[i]) : api_default_dist(*x.params[i])) + fmt("@%d", x.dix[i]);
      if (x.conds[i]) s += " if " + mt_expr(*x.conds[i]);
    }
    for (auto &f : x.forb) s += "\n  forbid " + mt_expr(*f);
    Vec<Val> d; s += m_default(x, d) ? "\n  default conf" + mt_vals(d) : Str("\n  default error");
    return s + "\n  " + (x.rng ? atext(x.rng->h, 0) : Str("rng(mt19937,0..4294967295)")) + ")"; }
  case K_FSPACE: { Str s = "fspace(" + quote(x.name) + ","; for (auto &p : x.params) s += "\n  " + mt_param(*p); return s + ")"; }
  case K_OSPACE: { Str s = "ospace(" + quote(x.name) + ","; for (auto &p : x.params) s += "\n  " + mt_param(*p); for (auto &p : x.objs) s += fmt("\n  objective %d ", p.second) + mt_expr(*p.first); return s + ")"; }
  case K_CONF: return "conf" + mt_vals(x.values);
  case K_FEAT: return "feat" + mt_vals(x.values);
  case K_EVAL: return "eval(conf" + mt_vals(x.conf->values) + " " + mt_evalbody(x) + ")";
  case K_FEVAL: return "feval(conf" + mt_vals(x.conf->values) + " feat" + mt_vals(x.feat->values) + " " + mt_evalbody(x) + ")";
  case K_TEVAL: return "teval(" + mt_tconf(*x.conf) + " " + mt_evalbody(x) + ")";
  case K_TCONF: return mt_tconf(x);
  case K_TREE: return mt_tree(vm, x);
  default: return "";
  }
}
