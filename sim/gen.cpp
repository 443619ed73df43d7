// Program generators, one profile per property.
#include <unistd.h>
#include "gen.h"

void Gen::emit(const char *name, int out, Vec<int64_t> a, Vec<sim::IoDecision> io) {
  Op o; o.code = op_code(name); if (o.code < 0) { fprintf(stderr, "generator: no op %s\n", name); _exit(98); } o.out = out; o.a = std::move(a); o.io = std::move(io);
  c.ops.push_back(o); vm.exec((int)c.ops.size() - 1, c.ops.back());
}
int Gen::pick(int kind, bool own) {
  Vec<int> v; for (auto &kv : vm.slots) if ((kind < 0 || kv.second->kind == kind) && (!own || !kv.second->foreign)) v.push_back(kv.first);
  if (v.empty()) return -1;
  if (v.size() > 4 && r.chance(50)) return v[v.size() - 1 - (size_t)r.below(4)];      // favour recent ones
  return v[(size_t)r.below((int64_t)v.size())];
}
Vec<sim::IoDecision> Gen::plan(int n) {
  Vec<sim::IoDecision> p; if (!io_rate) return p;
  for (int i = 0; i < n; i++) {
    if (!r.chance(io_rate)) { p.push_back({sim::IA_NORMAL, 0}); continue; }
    int64_t k = r.below(10);
    if (k < 5) p.push_back({sim::IA_SHORT, r.chance(50) ? r.below(4) : r.below(300)}); else if (k < 7) p.push_back({sim::IA_EINTR, 0}); else p.push_back({sim::IA_EAGAIN, 0});
  }
  return p;
}
void Gen::enc(Vec<int64_t> &a, const Val &v) {
  switch (v.t) {
  case T_INT: a.push_back(1); a.push_back(v.i); break; case T_FLOAT: if (v.f * 4 == std::floor(v.f * 4)) { a.push_back(2); a.push_back((int64_t)(v.f * 4)); } else { a.push_back(20); a.push_back((int64_t)std::ldexp(v.f, 40)); } break; case T_BOOL: a.push_back(3); a.push_back(v.i); break;
  case T_STRING: { int64_t k = 0; for (size_t i = 0; i < str_pool().size(); i++) if (str_pool()[i] == v.s) k = (int64_t)i; if (is_nul(v)) { a.push_back(21); a.push_back(0); break; } a.push_back(4); a.push_back(k); break; }
  case T_INACTIVE: a.push_back(5); a.push_back(0); break; default: a.push_back(0); a.push_back(0); }
}
int64_t Gen::big() { int64_t x = ((int64_t)1 << r.range(6, 62)) + r.range(-2, 2); return r.chance(50) ? -x : x; }
int Gen::rng() {
  int s = slot(); int64_t k = weird && r.chance(70) ? 99 : r.chance(50) ? -1 : r.below(10);
  emit("rng", s, {k}); if (!obj(s)) return -1; emit("rng_seed", -1, {s, r.below(1000)}); return s;
}
int Gen::dist(int ps, int want) {     // one-dimensional, of the type the parameter needs
  P p = ps >= 0 ? obj(ps) : nullptr; if (p && p->sub == CCS_PARAMETER_TYPE_STRING) p = nullptr; bool isf = p ? p->isf && p->sub == CCS_PARAMETER_TYPE_NUMERICAL : want >= 0 ? want : r.chance(50); bool cat = p && p->sub != CCS_PARAMETER_TYPE_NUMERICAL; int s = slot();
  int64_t k = r.below((p && !cat) || want > 0 ? 7 : 9); int nv = cat ? (int)p->vals.size() : (int)r.range(1, 6);
  if (cat && k >= 3 && k < 5) k = 8;
  Str key; if (p) { char b[160]; if (cat) snprintf(b, sizeof b, "c%d", nv); else snprintf(b, sizeof b, "n%d %a %a %lld %lld", (int)isf, p->lo.f, p->hi.f, (long long)p->lo.i, (long long)p->hi.i); key = b;
    if (r.chance(25)) for (auto &e : dpool) if (e.key == key && vm.slots.count(e.slot) && obj(e.slot)->id == e.id && r.chance(60)) return e.slot; }
  int64_t lo = cat ? 0 : p ? (isf ? (int64_t)(p->lo.f * 4) : p->lo.i) : r.range(-8, 8), hi = cat ? nv : p ? (isf ? (int64_t)(p->hi.f * 4) : p->hi.i) : lo + r.range(1, 20);
  if (k < 3) {                          // uniform, sometimes shifted
    if (cat && r.chance(12)) { lo -= r.below(3); hi += r.below(4); }   // some of the weight outside of the values
    if (!cat && r.chance(40)) { int64_t d = std::max<int64_t>(1, (hi - lo) / 2); lo += r.range(-d, d / 2); hi = std::max(lo + 1, hi + r.range(-d / 2, d)); }
    int64_t sc = 0; if (!cat && r.chance(35) && hi > 1) { sc = 1; if (lo <= 0) lo = isf ? 1 : 1; if (hi <= lo) hi = lo + r.range(1, 12); }
    int64_t q = r.chance(30) ? r.range(0, std::max<int64_t>(0, hi - lo)) : 0;
    emit("dist_uni", s, {isf, lo, hi, sc, q});
  } else if (k < 5 && !p && r.chance(15)) emit("dist_norm", s, {isf, r.range(-4, 4), r.range(1, 12), 1, isf ? r.range(8, 40) : r.range(2, 10)});   // most of the weight below the first step
  else if (k < 5) emit("dist_norm", s, {isf, (lo + hi) / 2 * (isf ? 1 : 4), r.range(1, 24), r.chance(20) && lo > 0 && hi < 40 ? 1 : 0, r.chance(25) ? r.range(0, 3) : 0});
  else if (k < 7 && !cat) {
    int a = dist(ps, isf), b = dist(ps, isf); if (a < 0 || b < 0) return -1;
    emit("dist_mix", s, {a, r.range(0, 8), b, r.range(1, 8)});
    if (r.chance(60)) { emit("release", -1, {a}); if (a != b) emit("release", -1, {b}); }
  } else { Vec<int64_t> ws; for (int i = 0; i < nv; i++) ws.push_back(r.chance(15) ? 0 : r.range(1, 12)); ws[(size_t)r.below(nv)] = 4; if (cat && r.chance(12)) for (int64_t i = r.range(1, 2); i > 0; i--) ws.push_back(r.range(1, 6)); emit("dist_roul", s, ws); }
  if (p && obj(s)) { if (dpool.size() > 12) dpool.erase(dpool.begin()); dpool.push_back({key, s, obj(s)->id}); }
  return obj(s) ? s : -1;
}
int Gen::mdist() {                    // several components, possibly a mixture of such
  int dim = (int)r.range(2, 5), nm = (int)r.range(1, 3); Vec<int> ty; for (int i = 0; i < dim; i++) ty.push_back((int)r.below(2)); Vec<int64_t> mix;
  for (int m = 0; m < nm; m++) {
    Vec<int64_t> ds; int at = 0; while (at < dim) { int d = at && ty[(size_t)at] == ty[(size_t)at - 1] && r.chance(10) ? (int)ds.back() : dist(-1, ty[(size_t)at]); if (d < 0) return -1; ds.push_back(d); at++; }
    int s = slot(); emit("dist_multi", s, ds); if (!obj(s)) return -1; mix.push_back(s); mix.push_back(r.range(1, 8));
    if (r.chance(50)) for (auto d : ds) if (vm.slots.count((int)d)) emit("release", -1, {d});
  }
  if (nm == 1 && r.chance(50)) return (int)mix[0];
  int s = slot(); emit("dist_mix", s, mix); if (obj(s) && r.chance(50)) for (size_t i = 0; i < mix.size(); i += 2) emit("release", -1, {mix[i]}); return obj(s) ? s : -1;
}
int Gen::param_num(bool isf, int64_t lo, int64_t hi) { int s = slot(); emit("param", s, {nname++, CCS_PARAMETER_TYPE_NUMERICAL, isf, lo, hi, 0, lo}); return obj(s) ? s : -1; }
int Gen::param(int str_pct) {
  int s = slot(); int64_t nm = dupnames ? r.below(8) : nname++; int64_t k = r.below(10); Vec<int64_t> a;
  if (r.chance(str_pct)) a = {nm, CCS_PARAMETER_TYPE_STRING, 0, 0, 0, 0, 0};
  else if (k < 4) {
    bool isf = r.chance(50); int64_t lo = r.range(-12, 12) + (wide && r.chance(8) ? big() >> (isf ? 12 : 2) : 0), hi = lo + r.range(1, 24) * (wide && r.chance(8) ? (int64_t)1 << r.below(r.chance(70) ? 24 : 40) : 1), q = r.chance(20) ? r.range(1, hi - lo) : 0, df = r.range(lo, hi - 1);
    if (badargs && r.chance(10)) { int64_t x = r.below(4); if (x == 0) hi = lo; else if (x == 1) q = hi - lo + 1; else if (x == 2) df = hi; else df = lo - 1; }
    a = {nm, CCS_PARAMETER_TYPE_NUMERICAL, isf, lo, hi, q, df};
  } else {
    int sub = k < 6 ? CCS_PARAMETER_TYPE_CATEGORICAL : k < 8 ? CCS_PARAMETER_TYPE_ORDINAL : CCS_PARAMETER_TYPE_DISCRETE; int n = (int)r.range(1, 6);
    a = {nm, sub, 0, 0, 0, 0, r.below(n)}; std::set<Str> seen; int kind = (int)r.below(4);
    for (int i = 0; i < n; ) {
      Val v; int64_t t = sub == CCS_PARAMETER_TYPE_DISCRETE ? r.below(2) : kind == 3 ? r.below(4) : kind; 
      if (t == 0) { v.t = T_INT; v.i = wide && r.chance(5) ? big() : r.range(-9, 30); } else if (t == 1) { v.t = T_FLOAT; v.f = (double)r.range(-30, 30) / 4; if (r.chance(15)) v.f = (double)r.range(1, 2) + std::ldexp((double)r.below(4), -40); } else if (t == 2 && strs) { v.t = T_STRING; v.s = str_pool()[(size_t)r.below(r.chance(15) ? (int64_t)str_pool().size() : 10)]; } else { v.t = T_BOOL; v.i = r.below(2); if (kind != 3 && n > 2) v = Val(), v.t = T_INT, v.i = 40 + i; }
      if (!seen.insert(vtext(v)).second && !(badargs && r.chance(25))) continue;
      Vec<int64_t> e; enc(e, v); if (v.t == T_STRING && r.chance(40)) e[0] = 7; a.insert(a.end(), e.begin(), e.end()); i++;
    }
    if (badargs && r.chance(5)) a[6] = n;
  }
  if (a[1] != CCS_PARAMETER_TYPE_STRING && (!badargs || !r.chance(50))) { if (parg.size() && r.chance(12)) { a = parg[(size_t)r.below((int64_t)parg.size())]; a[0] = nm; } else { if (parg.size() > 5) parg.erase(parg.begin()); parg.push_back(a); } }
  emit("param", s, a); return obj(s) ? s : -1;
}
void Gen::val_for(Vec<int64_t> &a, const Obj &p, int valid_pct) {
  if (r.chance(valid_pct)) { a.push_back(r.chance(p.sub == CCS_PARAMETER_TYPE_STRING ? 50 : 85) ? 9 : 19); a.push_back(r.below(64)); if (a[a.size() - 2] == 19 && p.sub == CCS_PARAMETER_TYPE_NUMERICAL) a[a.size() - 2] = 9; return; }
  static const int ts[] = {13, 14, 15, 16, 1, 2, 3, 4, 5, 0, 17, 10, 7, 7, 21}; a.push_back(ts[r.below(15)]); a.push_back(r.range(-20, 40));
}
// boolean expression over the parameters of a space (or of `space` = a parameter list holder)
int Gen::expr_bool(int sp, int depth, Vec<int> *tmp) {
  P s = obj(sp); if (!s || s->params.empty()) return -1;
  if (r.chance(8)) { Vec<P> ex; for (auto &e : s->conds) if (e) ex.push_back(e); for (auto &e : s->forb) ex.push_back(e); if (ex.size()) { P e = ex[(size_t)r.below((int64_t)ex.size())]; for (auto &kv : vm.slots) if (kv.second == e) return kv.first; } }   // one the space already uses
  int out = slot(); int64_t k = r.below(depth > 0 ? 8 : 5);
  if (r.chance(2)) { emit("expr", out, {r.chance(70) ? CCS_EXPRESSION_TYPE_EQUAL : CCS_EXPRESSION_TYPE_NOT_EQUAL, 1, r.below(2), 1, r.below(2)}); return obj(out) ? out : -1; }   // about no parameter at all
  auto pslot = [&](const P &p) { for (auto &kv : vm.slots) if (kv.second == p) return kv.first; return -1; };
  P p = s->params[(size_t)r.below((int64_t)s->params.size())]; int ps = pslot(p); if (ps < 0) return -1;
  if (k < 3) {                          // variable against a literal
    Vec<int64_t> l = {8, ps}, v; Val lit; bool ord = p->sub == CCS_PARAMETER_TYPE_NUMERICAL || p->sub == CCS_PARAMETER_TYPE_ORDINAL || p->sub == CCS_PARAMETER_TYPE_DISCRETE || (p->sub == CCS_PARAMETER_TYPE_STRING && r.chance(30));
    if (p->sub == CCS_PARAMETER_TYPE_NUMERICAL) { lit.t = p->isf ? T_FLOAT : T_INT; int64_t lo = p->isf ? (int64_t)(p->lo.f * 4) : p->lo.i, hi = p->isf ? (int64_t)(p->hi.f * 4) : p->hi.i; int64_t x = r.range(lo, hi); lit.i = x; lit.f = (double)x / 4; }
    else if (p->vals.size()) lit = p->vals[(size_t)r.below((int64_t)p->vals.size())]; else { lit.t = T_STRING; lit.s = r.chance(20) ? "(null)" : "alpha"; }
    enc(v, lit); static const int cmps[] = {CCS_EXPRESSION_TYPE_LESS, CCS_EXPRESSION_TYPE_GREATER, CCS_EXPRESSION_TYPE_LESS_OR_EQUAL, CCS_EXPRESSION_TYPE_GREATER_OR_EQUAL};
    int et = ord && r.chance(60) ? cmps[r.below(4)] : r.chance(60) ? CCS_EXPRESSION_TYPE_EQUAL : CCS_EXPRESSION_TYPE_NOT_EQUAL;
    if (badargs && r.chance(4)) et = cmps[r.below(4)];
    if (r.chance(25)) std::swap(l, v);
    emit("expr", out, {et, l[0], l[1], v[0], v[1]});
  } else if (k < 4 && p->sub != CCS_PARAMETER_TYPE_STRING) {   // membership
    int ls = slot(); Vec<int64_t> a = {CCS_EXPRESSION_TYPE_LIST}; int n = (int)r.range(1, 3);
    for (int i = 0; i < n; i++) { if (r.chance(p->sub == CCS_PARAMETER_TYPE_NUMERICAL ? 35 : 5)) { size_t qi = (size_t)r.below((int64_t)s->params.size()); for (size_t t = 0; t < 3 && !(qi < s->conds.size() && s->conds[qi]); t++) qi = (size_t)r.below((int64_t)s->params.size()); P q = s->params[qi]; int qs = pslot(q); if (qs >= 0 && (q == p || (q->sub == CCS_PARAMETER_TYPE_NUMERICAL && p->sub == q->sub))) { a.push_back(8); a.push_back(qs); continue; } } if (p->vals.size()) enc(a, p->vals[(size_t)r.below((int64_t)p->vals.size())]); else { a.push_back(p->isf ? 2 : 1); a.push_back(p->isf ? (int64_t)(p->lo.f * 4) + r.below(6) : p->lo.i + r.below(6)); } }
    emit("expr", ls, a); if (r.chance(30)) { int in = slot(); emit("expr", in, {CCS_EXPRESSION_TYPE_IN, 8, ps, 6, ls}); if (!obj(in)) return -1; emit("expr", out, {CCS_EXPRESSION_TYPE_NOT, 6, in}); if (tmp) tmp->push_back(in); } else emit("expr", out, {CCS_EXPRESSION_TYPE_IN, 8, ps, 6, ls}); if (tmp) tmp->push_back(ls);
  } else if (k < 5) {                   // arithmetic comparison
    if (p->sub != CCS_PARAMETER_TYPE_NUMERICAL) return expr_bool(sp, 0, tmp);
    P q; for (auto &x : s->params) if (x->sub == CCS_PARAMETER_TYPE_NUMERICAL && (!q || r.chance(50))) q = x; int qs = pslot(q); if (qs < 0) return -1;
    int ar = slot(); static const int64_t divs[] = {-1, 2, 3, -7, 5, 100};
    if (r.chance(30)) { emit("expr", ar, {r.chance(50) ? CCS_EXPRESSION_TYPE_DIVIDE : CCS_EXPRESSION_TYPE_MODULO, 8, ps, r.chance(50) ? 1 : 2, divs[r.below(6)]}); if (r.chance(20)) { int un = slot(); emit("expr", un, {r.chance(50) ? CCS_EXPRESSION_TYPE_NEGATIVE : CCS_EXPRESSION_TYPE_POSITIVE, 6, ar}); if (tmp) tmp->push_back(ar); if (obj(un)) ar = un; } }
    else { static const int ops[] = {CCS_EXPRESSION_TYPE_ADD, CCS_EXPRESSION_TYPE_SUBSTRACT, CCS_EXPRESSION_TYPE_MULTIPLY}; emit("expr", ar, {ops[r.below(3)], 8, ps, 8, qs}); }
    emit("expr", out, {r.chance(50) ? CCS_EXPRESSION_TYPE_LESS : CCS_EXPRESSION_TYPE_GREATER_OR_EQUAL, 6, ar, 1, r.range(-20, 40)}); if (tmp) tmp->push_back(ar);
  } else if (k < 7) { int a = expr_bool(sp, depth - 1, tmp), b = expr_bool(sp, depth - 1, tmp); if (a < 0 || b < 0) return -1; emit("expr", out, {r.chance(50) ? CCS_EXPRESSION_TYPE_AND : CCS_EXPRESSION_TYPE_OR, 6, a, 6, b}); if (tmp) { tmp->push_back(a); tmp->push_back(b); } }
  else { int a = expr_bool(sp, depth - 1, tmp); if (a < 0) return -1; emit("expr", out, {CCS_EXPRESSION_TYPE_NOT, 6, a}); if (tmp) tmp->push_back(a); }
  return obj(out) ? out : -1;
}
int Gen::expr_num(int sp, int depth) {
  P s = obj(sp); if (!s) return -1; Vec<int> nu; for (size_t i = 0; i < s->params.size(); i++) if (s->params[i]->sub == CCS_PARAMETER_TYPE_NUMERICAL) for (auto &kv : vm.slots) if (kv.second == s->params[i]) { nu.push_back(kv.first); break; }
  if (nu.empty()) return -1; if (s->objs.size() && r.chance(8)) { P e = s->objs[(size_t)r.below((int64_t)s->objs.size())].first; for (auto &kv : vm.slots) if (kv.second == e) return kv.first; }
  if (depth > 1) { int l = expr_num(sp, depth - 1), q = expr_num(badargs && r.chance(20) ? pick(K_OSPACE) : sp, depth - 1); if (l < 0 || q < 0) return -1; int o2 = slot(); emit("expr", o2, {r.chance(50) ? CCS_EXPRESSION_TYPE_ADD : CCS_EXPRESSION_TYPE_SUBSTRACT, 6, l, 6, q}); return obj(o2) ? o2 : -1; }
  int out = slot(); int a = nu[(size_t)r.below((int64_t)nu.size())], b = nu[(size_t)r.below((int64_t)nu.size())]; int64_t k = depth ? r.below(8) : 0;
  static const int64_t divs[] = {-1, 2, 3, -7, 5, 0, INT64_MIN}; int dm = k >= 6 ? (r.chance(50) ? CCS_EXPRESSION_TYPE_DIVIDE : CCS_EXPRESSION_TYPE_MODULO) : 0;
  if (k == 6) emit("expr", out, {dm, 8, a, r.chance(60) ? 1 : 2, divs[r.below(6)]}); else if (k == 7) { if (r.chance(40)) emit("expr", out, {dm, 1, divs[r.below(7)], 8, a}); else if (r.chance(30)) { int lit = slot(); emit("expr", lit, {dm, 1, INT64_MIN, 1, -1}); if (obj(lit)) emit("expr", out, {CCS_EXPRESSION_TYPE_ADD, 6, lit, 8, a}); } else emit("expr", out, {dm, 8, a, 8, b}); }
  else if (k < 3) emit("expr", out, {CCS_EXPRESSION_TYPE_VARIABLE, 8, a}); else if (k == 3) emit("expr", out, {CCS_EXPRESSION_TYPE_ADD, 8, a, 8, b}); else if (k == 4) emit("expr", out, {CCS_EXPRESSION_TYPE_SUBSTRACT, 8, a, 8, b}); else emit("expr", out, {CCS_EXPRESSION_TYPE_NEGATIVE, 8, a});
  return obj(out) ? out : -1;
}
int Gen::cspace(int np) {
  int s = slot(); emit("cs_new", s, {nname++}); if (!obj(s)) return -1;
  if (r.chance(70)) { int g = rng(); if (g >= 0) { emit("cs_rng", -1, {s, g}); if (weird) obj(s)->weird = obj(g)->weird; } }
  if (r.chance(5)) emit("cs_rng", -1, {s, -2});
  Vec<int> ps; for (int i = 0; i < np; i++) { int p = param(1); if (p < 0) continue; int d = r.chance(40) ? dist(p) : -1; emit("cs_add", -1, {s, p, d}); ps.push_back(p); }
  if (np > 1 && r.chance(12)) joint(s);
  Vec<int> tmp; int nc = (int)r.below(np), nf = (int)r.below(3);
  for (int i = 0; i < nc; i++) { int e = expr_bool(s, (int)r.below(3), &tmp); if (e < 0) continue; emit("cs_cond", -1, {s, r.below(np), e}); tmp.push_back(e); }
  for (int i = 0; i < nf; i++) { int e = expr_bool(s, (int)r.below(2), &tmp); if (e < 0) continue; emit("cs_forb", -1, {s, e}); tmp.push_back(e); }
  if (r.chance(60)) for (int t : tmp) if (vm.slots.count(t)) emit("release", -1, {t});
  if (r.chance(25)) for (int t : ps) if (vm.slots.count(t) && r.chance(50)) emit("release", -1, {t});
  return s;
}
int Gen::fspace(int np) { int s = slot(); emit("fs_new", s, {nname++}); for (int i = 0; i < np; i++) { int p = param(18); if (p >= 0) emit("sp_add", -1, {s, p}); } return obj(s) ? s : -1; }
int Gen::ospace(int np, int no) {
  int s = slot(); emit("os_new", s, {nname++}); if (!obj(s)) return -1;
  for (int i = 0; i < np; i++) { int p = r.chance(80) ? param_num(r.chance(50), r.range(-4, 0), r.range(2, 8)) : param(30); if (p >= 0) emit("sp_add", -1, {s, p}); }
  for (int i = 0; i < no; i++) { int e = expr_num(s, 1); if (e < 0) continue; emit("os_obj", -1, {s, e, r.below(2)}); if (r.chance(50) && vm.slots.count(e)) emit("release", -1, {e}); }
  return s;
}
int Gen::conf(int cs) {
  P s = obj(cs); if (!s || s->kind != K_CSPACE || s->foreign) return -1; int o = slot(); int64_t k = r.below(10);
  if (k < 5) { emit("cs_sample", o, {cs, 1, 1}); return obj(o) ? o : -1; }
  if (k < 7) { emit("cs_default", o, {cs}); return obj(o) ? o : -1; }
  Vec<int64_t> a = {cs}; if (k < 9) for (auto &p : s->params) val_for(a, *p, 92);
  emit("conf_new", o, a); return obj(o) ? o : -1;
}
int Gen::feat(int fs) { P s = obj(fs); if (!s || s->foreign) return -1; int o = slot(); Vec<int64_t> a = {fs}; for (auto &p : s->params) { if (r.chance(97)) { a.push_back(9); a.push_back(r.below(3)); } else val_for(a, *p, 60); } emit("feat_new", o, a); return obj(o) ? o : -1; }
// any int is a result: the predefined ones, small codes, and codes whose low bits look like success
static int64_t some_result(Rng64 &r) { static const int64_t v[] = {128, 255, 256, -256, 300, 65536, -65536, 0x7fffffff, -0x7fffffff}; return r.chance(20) ? v[r.below(9)] : r.chance(25) ? r.range(1, 3) : -(int64_t)r.range(1, 3); }
int Gen::eval(int os, int cf, int ft, bool ok) {
  P s = obj(os); if (!s || s->foreign) return -1; int o = slot(); Vec<int64_t> a = {os, cf, ft, ok ? 0 : some_result(r)};
  if (!ok && r.chance(50)) {} else for (auto &p : s->params) { if (r.chance(96)) { a.push_back(9); a.push_back(r.below(7)); } else val_for(a, *p, 50); }
  emit("eval_new", o, a); return obj(o) ? o : -1;
}
int Gen::tree(int depth) {
  int s = slot(); int ar = depth > 0 ? (int)r.below(4) : 0; if (ar && r.chance(8)) ar = (int)r.range(4, 7); Vec<int64_t> a = {ar}; static const int ts[] = {1, 1, 1, 2, 3, 4, 7}; a.push_back(ts[r.below(7)]); a.push_back(r.range(0, 30)); emit("tree", s, a); if (!obj(s)) return -1;
  for (int i = 0; i < ar; i++) if (r.chance(80)) { int k = tree(depth - 1); if (k < 0) continue; emit("tree_child", -1, {s, i, k}); if (r.chance(60)) emit("release", -1, {k}); }
  if (r.chance(35)) emit("tree_wb", -1, {s, 0, r.chance(30) ? 0 : r.range(1, 12)});
  if (r.chance(30)) emit("tree_wb", -1, {s, 1, r.chance(30) ? 0 : r.range(1, 12)});
  return s;
}
int Gen::tspace() {
  bool dyn = r.chance(45); int t;
  if (dyn) { t = slot(); emit("tree", t, {r.range(1, 3), 1, r.range(1, 5)}); } else t = tree((int)r.range(1, 3));
  if (t < 0 || !obj(t)) return -1; int s = slot(); emit("tspace", s, {t, dyn && r.chance(30) ? 1 + 2 * r.below(4) : (int64_t)dyn, r.below(50), nname++}); if (!obj(s)) return -1;
  if (r.chance(60)) { int g = rng(); if (g >= 0) emit("ts_rng", -1, {s, g}); }
  if (r.chance(5)) emit("ts_rng", -1, {s, -2});
  return s;
}
int Gen::tuner(int kind, bool user) {
  int sp = kind == 2 ? tspace() : r.chance(60) || pick(K_CSPACE) < 0 ? cspace((int)r.range(1, 4)) : pick(K_CSPACE); if (sp < 0) return -1;
  int os = r.chance(60) || pick(K_OSPACE) < 0 ? ospace((int)r.range(1, 3), (int)r.range(1, 3)) : pick(K_OSPACE); int fs = kind == 1 ? fspace((int)r.range(1, 2)) : -1; if (os < 0 || (kind == 1 && fs < 0)) return -1;
  int s = slot(); emit("tuner", s, {kind, user && r.chance(40) ? 1 + r.below(8) : (int64_t)user, sp, os, fs, nname++}); return obj(s) ? s : -1;
}
// workers: take configurations, answer late, out of order, twice, with failures, or never
void Gen::tell_flow(int t) {
  P tp = obj(t); if (!tp || tp->foreign) return; bool ft = tp->kind == K_FTUNER; int64_t k = r.below(10); 
  int osl = -1, fsl = -1; for (auto &kv : vm.slots) { if (kv.second == tp->os) osl = kv.first; if (tp->fs && kv.second == tp->fs) fsl = kv.first; }
  if (osl < 0 || (ft && fsl < 0)) { if (r.chance(50)) emit("tquery", -1, {t, -1, r.below(2)}); return; }
  auto somefeat = [&]() -> int { Vec<int> v; for (auto &kv : vm.slots) if (kv.second->kind == K_FEAT && kv.second->space == tp->fs) v.push_back(kv.first); if (v.size() >= 4 || (v.size() && r.chance(60))) return v[(size_t)r.below((int64_t)v.size())]; return feat(fsl); };
  Vec<size_t> mine; for (size_t i = 0; i < pend.size(); i++) if (pend[i].tuner == t && vm.slots.count(pend[i].conf)) mine.push_back(i);
  if (k < 3 || mine.empty()) {
    int f = ft ? somefeat() : -1; if (ft && f < 0) return; int n = r.chance(10) ? 0 : (int)r.range(1, 3); int o = slot(std::max(n, 1)); emit("ask", o, {t, f, n});
    for (int i = 0; i < n; i++) if (vm.slots.count(o + i)) pend.push_back({o + i, t, f});
  } else if (k < 8) {
    int n = lists && r.chance(30) ? (int)r.range(2, 3) : 1; Vec<int64_t> a = {t};
    for (int i = 0; i < n; i++) {
      size_t at = mine[(size_t)r.below((int64_t)mine.size())]; if (at != mine[0]) sim::g_cnt.msg_reorder++;
      Work wk = pend[at]; if (!vm.slots.count(wk.conf) || (ft && !vm.slots.count(wk.feat))) continue;
      bool ok = !r.chance(20); if (!ok) sim::g_cnt.msg_fail++;
      int e = eval(osl, wk.conf, wk.feat, ok); if (e >= 0) { a.push_back(e); evals.push_back(e); }
    }
    if (a.size() > 1) { emit("tell", -1, a); if (r.chance(15)) { sim::g_cnt.msg_dup++; emit("tell", -1, a); } }
    if (r.chance(70)) { size_t at = mine[(size_t)r.below((int64_t)mine.size())]; int cs = pend[at].conf; pend.erase(pend.begin() + (long)at); if (r.chance(40) && vm.slots.count(cs)) emit("release", -1, {cs}); }
    if (r.chance(40) && a.size() > 1 && vm.slots.count((int)a[1])) emit("release", -1, {a[1]});
  } else if (k < 9) { int f = ft ? somefeat() : -1; if (ft && f < 0) return; emit("suggest", slot(), {t, f}); }
  else if (r.chance(30)) { size_t at = mine[(size_t)r.below((int64_t)mine.size())]; sim::g_cnt.msg_lost++; int cs = pend[at].conf; pend.erase(pend.begin() + (long)at); if (vm.slots.count(cs)) emit("release", -1, {cs}); }
  else emit("tquery", -1, {t, ft && r.chance(60) ? somefeat() : -1, r.below(2)});
}
void Gen::joint(int cs) {           // one distribution over some of the parameters
  P s = obj(cs); if (!s) return; int64_t np = (int64_t)s->params.size();
    if (!np) return; int n = (int)r.range(1, 3); Vec<int64_t> ds; Vec<int64_t> ix;
    for (int i = 0; i < n; i++) { int64_t j = r.below(np); bool dup = false; for (auto x : ix) dup = dup || x == j; if (dup && !(badargs && r.chance(20))) continue; int ps = -1; for (auto &kv : vm.slots) if (kv.second == s->params[(size_t)j]) ps = kv.first; if (ps < 0) continue; int d = dist(ps); if (d < 0) return; ds.push_back(d); ix.push_back(j); }
    if (ds.empty()) return; int d = (int)ds[0]; if (ds.size() > 1) { d = slot(); emit("dist_multi", d, ds); if (!obj(d)) return;
      if (r.chance(25)) { Vec<int64_t> d2; for (auto j : ix) { int ps = -1; for (auto &kv : vm.slots) if (kv.second == s->params[(size_t)j]) ps = kv.first; int q = ps < 0 ? -1 : dist(ps); if (q < 0) return; d2.push_back(q); } int m2 = slot(), mx = slot(); emit("dist_multi", m2, d2); if (!obj(m2)) return; emit("dist_mix", mx, {d, r.range(0, 8), m2, r.range(1, 8)}); if (!obj(mx)) return; d = mx; } }
    if (badargs && r.chance(10)) ix[(size_t)r.below((int64_t)ix.size())] = np + r.below(2);
    Vec<int64_t> a = {cs, d}; a.insert(a.end(), ix.begin(), ix.end()); emit("cs_dist", -1, a);
    if (r.chance(12)) { if (r.chance(40)) joint(cs); if (vm.slots.count(d)) emit("cs_dist", -1, a); }   // the same distribution once more
}
void Gen::csmod() {
  int cs = pick(K_CSPACE); if (cs < 0 || r.chance(8)) { cs = cspace((int)r.range(0, 3)); if (cs < 0) return; }
  P s = obj(cs); int64_t k = r.below(lists ? 12 : 10), np = (int64_t)s->params.size();
  auto anyp = [&] { int p = r.chance(70) || pick(K_PARAM) < 0 ? param() : pick(K_PARAM); return p; };
  if (k < 3) { int p = anyp(); if (p < 0) return; int d = r.chance(40) ? dist(p) : -1; if (badargs && r.chance(8)) { int a = dist(p), b = dist(p); if (a >= 0 && b >= 0) { d = slot(); emit("dist_multi", d, {a, b}); if (!obj(d)) return; } } emit("cs_add", -1, {cs, p, d}); }
  else if (k < 6) { int other = badargs && r.chance(12) ? pick(K_CSPACE) : cs; int e = expr_bool(other, (int)r.below(3), nullptr); if (e >= 0) emit("cs_cond", -1, {cs, badargs && r.chance(6) ? (r.chance(40) ? (int64_t)((1LL << 32) + r.below(std::max<int64_t>(1, np))) : np + r.below(2)) : r.below(std::max<int64_t>(1, np)), e}); }
  else if (k < 8) { int other = badargs && r.chance(12) ? pick(K_CSPACE) : cs; int e = expr_bool(other, (int)r.below(3), nullptr); if (e >= 0) emit("cs_forb", -1, {cs, e}); }
  else if (k < 10) joint(cs);
  else if (k < 11) { Vec<int64_t> a = {cs}; int n = (int)r.range(1, 4); for (int i = 0; i < n; i++) { int p = anyp(); if (p < 0) continue; a.push_back(p); a.push_back(r.chance(30) ? dist(p) : -1); } emit("cs_adds", -1, a); }
  else { Vec<int64_t> a = {cs}; int n = (int)r.range(1, r.chance(20) ? 5 : 3); for (int i = 0; i < n; i++) { int e = a.size() > 1 && r.chance(15) ? (int)a[(size_t)r.range(1, (int64_t)a.size() - 1)] : expr_bool(cs, (int)r.below(2), nullptr); if (e >= 0) a.push_back(e); } emit("cs_forbs", -1, a); }
}
void Gen::mapop() {
  int m = pick(K_MAP); if (m < 0 || r.chance(5)) { m = slot(); emit("map_new", m, {}); return; }
  auto dat = [&](Vec<int64_t> &a) {
    int64_t k = r.below(12); int o;
    if (k < 3) { a.push_back(1); a.push_back(r.chance(12) ? big() : r.below(6)); } else if (k < 4) { a.push_back(2); a.push_back(r.below(6)); } else if (k < 5) { a.push_back(3); a.push_back(r.below(2)); }
    else if (k < 8) { if (r.chance(8)) { a.push_back(21); a.push_back(r.below(2)); } else { a.push_back(strs && r.chance(60) ? 7 : 4); a.push_back(r.below(r.chance(15) ? 13 : 10)); } } else if (k < 9) { a.push_back(r.chance(50) ? 5 : 0); a.push_back(0); }
    else if ((o = pick(-1, false)) >= 0 && obj(o)->kind != K_MAP) { a.push_back(r.chance(80) ? 6 : 11); a.push_back(o); } else { a.push_back(17); a.push_back(r.below(5)); } };
  Vec<int64_t> a = {m}; int64_t k = r.below(20); if (r.chance(1) && obj(m)->kv.size() < 100) { emit("map_bulk", -1, {m, r.range(-40, 1000), r.range(60, 360)}); return; }
  if (k < 1) { dat(a); a.push_back(r.below(13)); a.push_back(r.below(13)); emit("map_restr", -1, a); } else if (k < 10) { dat(a); dat(a); emit("map_set", -1, a); if (r.chance(12)) { int64_t &t = a[a.size() - 2]; if (t == 6) t = 11; else if (t == 11) t = 6; else if (t == 4) t = 7; else if (t == 7) t = 4; else if (t == 1) t = r.chance(50) ? 3 : 2; emit("map_set", -1, a); } } else if (k < 14) { dat(a); emit("map_get", -1, a); } else if (k < 19) { dat(a); emit("map_del", -1, a); } else if (r.chance(30)) emit("map_clear", -1, a); else emit("describe", -1, a);
}
void Gen::treeop() {
  int64_t k = r.below(20); int t = pick(K_TREE), s = pick(K_TSPACE), g = pick(K_RNG);
  auto npos = [&](const P &root) { Vec<int64_t> v; const Obj *o = root.get(); while (o && o->arity && !r.chance(25)) { int64_t i = r.below(o->arity + (r.chance(6) ? 1 : 0)); v.push_back(i); o = i < o->arity && o->kids[(size_t)i] ? o->kids[(size_t)i].get() : nullptr; if (!o && r.chance(40)) v.push_back(r.below(3)); } if (r.chance(4)) v.push_back(r.below(3)); return v; };
  if (t < 0 || k < 2) { tree((int)r.range(0, 3)); return; }
  if (k < 5) { int ch = r.chance(50) ? tree((int)r.range(0, 1)) : pick(K_TREE); if (ch >= 0) { P tp = obj(t); emit("tree_child", -1, {t, r.below(tp->arity + (r.chance(10) ? 1 : 0)), ch}); } }
  else if (k < 8) emit("tree_wb", -1, {t, r.below(2), badargs && r.chance(8) ? -r.range(1, 4) : r.chance(25) ? 0 : r.range(1, 16)});
  else if (k < 10) { if (g < 0) g = rng(); if (g >= 0) emit("tree_sample", -1, {t, g, r.chance(20) ? 600 : r.range(1, 20)}); }
  else if (k < 11) emit("tree_pos", -1, {t});
  else if (k < 13) { bool sp = s >= 0 && r.chance(60); P root = sp ? obj(s)->tree : obj(t); if (!root) return; Vec<int64_t> p = npos(root), a = {sp ? s : t, r.below(3)}; a.insert(a.end(), p.begin(), p.end()); emit("tree_at", -1, a); }
  else if (k < 14) { if (s < 0 || r.chance(30)) tspace(); else emit("ts_rng", -1, {s, g}); }
  else if (s < 0) tspace();
  else if (k < 17) { int n = (int)r.range(1, 4); emit("ts_sample", slot(n), {s, n}); }
  else if (k < 19) { Vec<int64_t> p = npos(obj(s)->tree), a = {s}; a.insert(a.end(), p.begin(), p.end()); emit("tconf_new", slot(), a); }
  else { int q = pick(K_TCONF); if (q >= 0) emit("tconf_check", -1, {q, r.below(2)}); }
}
void Gen::serop(bool nb) {
  int64_t k = r.below(10); int o = pick(-1, !r.chance(20)), im = -1; if (o < 0) return;
  Vec<int> ims; for (auto &x : vm.images) if (!x.second.dirty) ims.push_back(x.first); if (ims.size()) im = ims[(size_t)r.below((int64_t)ims.size())];
  Vec<int> xf; for (auto &x : vm.xfers) xf.push_back(x.first);
  if (xf.size() && r.chance(45)) { emit("xfer_go", -1, {xf[(size_t)r.below((int64_t)xf.size())]}, plan((int)r.range(2, 8))); return; }
  bool cb = r.chance(45);
  if (k < 5 || im < 0) {
    int idx = ims.size() > 6 ? im : nimg++;
    if (nb && r.chance(25)) { emit("ser_nb", -1, {o, idx, cb}, plan((int)r.range(1, 8))); return; }
    int64_t tr = r.below(8); if (tr == 7) tr = 3; emit("ser", -1, {o, idx, tr, cb, r.range(1, 40)}, plan((int)r.range(1, 12)));
  } else if (nb && k < 6) emit("deser_nb", slot(), {im, cb, r.below(2)}, plan((int)r.range(1, 8)));
  else emit("deser", slot(), {im, r.below(4), cb, r.below(2)}, plan((int)r.range(1, 16)));
}
void Gen::refop() {
  int o = pick(-1, false); if (o < 0) return; int64_t k = r.below(20);
  if (k < 3) emit("retain", -1, {o}); else if (k < 5) emit("alias", slot(), {o}); else if (k < 13) emit("release", -1, {o}); else if (k < 15) emit("describe", -1, {o}); else if (k < 17) emit("destroycb", -1, {o, r.chance(30) ? r.range(1, 2) : 0}); else if (k < 19) emit("udata", -1, {o, r.range(1, 100000)}); else emit("sercb", -1, {o});
}
void Gen::bindop() {
  if (r.chance(8)) { int o = pick(K_TCONF); if (o >= 0) { int q = pick(K_TCONF); if (r.chance(50)) { q = slot(); emit("clone", q, {o, 0, r.chance(40) ? r.range(1, 1000) : 0}); } if (obj(q)) emit("cmp", -1, {o, q}); return; } }
  static const int ks[] = {K_CONF, K_FEAT, K_EVAL, K_FEVAL, K_TEVAL}; int k = ks[r.below(5)], o = pick(k); if (o < 0) { o = pick(K_CONF); k = K_CONF; } if (o < 0) return; P x = obj(o);
  P sp = k == K_CONF || k == K_FEAT ? x->space : x->ospace; int64_t z = r.below(13);
  if (z >= 10 && sp && !sp->params.empty()) {
    if (z == 12 && lists) { Vec<int64_t> a = {o}; for (auto &p : sp->params) val_for(a, *p, 90); if (badargs && r.chance(10)) { a.push_back(1); a.push_back(1); } emit("bind_all", -1, a); }
    else { int64_t i = r.below((int64_t)sp->params.size()); Vec<int64_t> a = {o, r.below(3), i}; val_for(a, *sp->params[(size_t)i], 75); emit("bind_via", -1, a); }
  }
  else if (z < 4 && sp && !sp->params.empty()) { int64_t i = r.below((int64_t)sp->params.size() + (badargs && r.chance(5) ? 1 : 0)); Vec<int64_t> a = {o, i}; if (i < (int64_t)sp->params.size()) val_for(a, *sp->params[(size_t)i], 75); else { a.push_back(1); a.push_back(1); } emit("bind_set", -1, a); }
  else if (z < 5 && k != K_CONF && k != K_FEAT) emit("eval_res", -1, {o, r.chance(70) ? 0 : r.chance(70) ? -1 : some_result(r)});
  else if (z < 7) emit("bind_check", -1, {o});
  else if (z < 9) { int q = r.chance(30) ? o : pick(k); if (r.chance(40)) { int64_t nr = r.chance(40) ? r.range(1, 1000) : 0; if (k == K_FEVAL && r.chance(25)) { nr = nr / 8 * 8 + 3; P ft = x->feat; if (ft && ft->space) for (auto &kv : vm.slots) if (kv.second == ft->space) { feat(kv.first); break; } } int c2 = slot(); emit("clone", c2, {o, r.below(2), nr}); if (obj(c2)) q = c2; } emit("cmp", -1, {o, q}); }
  else { int q = pick(k); if (q >= 0 && k != K_CONF && k != K_FEAT) emit("eval_compare", -1, {o, q}); }
}
// copies of one object, most of them differing in one detail, compared with it and with each other
void Gen::twins() {
  static const int ks[] = {K_CONF, K_FEAT, K_EVAL, K_EVAL, K_FEVAL, K_FEVAL, K_TEVAL, K_TEVAL, K_TCONF}; int k = ks[r.below(9)], o = pick(k);
  if (o < 0) {
    int os = -1, cf = -1, ft = -1;
    if (k == K_EVAL || k == K_FEVAL || k == K_TEVAL) { os = pick(K_OSPACE); if (os < 0) os = ospace((int)r.range(1, 3), (int)r.range(1, 2)); if (os < 0) return; }
    if (k == K_FEAT || k == K_FEVAL) { ft = pick(K_FEAT); if (ft < 0) { int fs = pick(K_FSPACE); if (fs < 0) fs = fspace((int)r.range(1, 2)); if (fs >= 0) ft = feat(fs); } if (ft < 0) return; }
    if (k == K_TEVAL || k == K_TCONF) { cf = pick(K_TCONF); if (cf < 0) { int ts = pick(K_TSPACE); if (ts < 0) ts = tspace(); if (ts < 0) return; cf = slot(); emit("ts_sample", cf, {ts, 1}); } }
    else if (k != K_FEAT) { cf = pick(K_CONF); if (cf < 0) { int s = pick(K_CSPACE); if (s < 0) s = cspace((int)r.range(1, 4)); if (s >= 0) cf = conf(s); } }
    if (k != K_FEAT && (cf < 0 || !obj(cf))) return;
    o = k == K_CONF || k == K_TCONF ? cf : k == K_FEAT ? ft : eval(os, cf, ft, r.chance(80)); if (o < 0 || !obj(o)) return;
  }
  P x = obj(o); Vec<int> all = {o}; int n = (int)r.range(1, 3); auto slot_of = [&](const P &p) { for (auto &kv : vm.slots) if (kv.second == p) return kv.first; return -1; };
  for (int i = 0; i < n; i++) {
    int64_t w = r.below(8), nr = k == K_TCONF || r.chance(25) ? 0 : r.below(125) * 8 + w; int s;
    if (nr && w == 2 && x->conf && x->conf->kind == K_CONF && r.chance(50) && (s = slot_of(x->conf->space)) >= 0) conf(s);
    if (nr && w == 3 && x->feat && r.chance(50) && (s = slot_of(x->feat->space)) >= 0) feat(s);
    int q = slot(); emit("clone", q, {o, r.below(2), nr}); if (!obj(q)) continue; all.push_back(q);
    for (size_t j = 0; j + 1 < all.size(); j++) if (!j || r.chance(50)) emit("cmp", -1, {all[j], q});
  }
}
void Gen::deser_damaged() {
  int o = pick(-1, !r.chance(15)); if (o < 0) return; int idx = nimg++; bool cb = r.chance(40); if (r.chance(25)) emit("udata", -1, {o, r.range(1, 100000)});
  emit("ser", -1, {o, idx, 0, cb, 1}); if (!vm.images.count(idx)) return;
  int tries = (int)r.range(2, 6); Str orig = vm.images[idx].bytes; int64_t n = (int64_t)orig.size();
  for (int i = 0; i < tries; i++) {
    if (i) emit("mut", -1, {idx, 99, 0, 0});       // back to the original bytes
    int nm = r.chance(70) ? 1 : (int)r.range(2, 4);
    for (int j = 0; j < nm; j++) { int64_t kind = r.chance(18) ? 0 : r.chance(8) ? 10 : r.range(1, 9); emit("mut", -1, {idx, kind, r.chance(25) ? r.below(std::min<int64_t>(n, 64)) : r.below(n), r.chance(50) ? r.below(256) : r.below(1 << 30)}); }
    emit("deser_bad", slot(), {idx, r.below(4), r.chance(50), r.below(2)}, plan(4));
  }
}
void Gen::act(const Str &a) {
  if (a == "rng") rng(); else if (a == "rngop") { int g = pick(K_RNG); if (g < 0) g = rng(); if (g >= 0) { if (r.chance(30)) emit("rng_seed", -1, {g, r.below(1000)}); else emit("rng_get", -1, {g, r.below(2)}); } }
  else if (a == "dist") { if (r.chance(20)) mdist(); else dist(r.chance(50) ? pick(K_PARAM) : -1); }
  else if (a == "dsample") { int d = pick(K_DIST), g = pick(K_RNG); if (d < 0 || r.chance(30)) { d = r.chance(25) ? mdist() : dist(-1); if (d >= 0 && r.chance(25)) { int e = dist(-1); if (e >= 0) { int m = slot(); emit("dist_multi", m, {d, e}); if (obj(m)) d = m; } } } if (g < 0 || r.chance(20)) g = rng(); if (d >= 0 && g >= 0) emit("dist_sample", -1, {d, g, r.range(1, 40), r.below(5)}); }
  else if (a == "param") param();
  else if (a == "pcheck") { int p = pick(K_PARAM); if (p < 0) p = param(); if (p < 0) return; Vec<int64_t> v = {p}; int n = (int)r.range(1, 4); for (int i = 0; i < n; i++) val_for(v, *obj(p), 55); emit(r.chance(50) ? "param_check" : "param_valid", -1, v); }
  else if (a == "psample") { int p = pick(K_PARAM), g = pick(K_RNG); if (p < 0 || r.chance(30)) p = param(); if (g < 0 || r.chance(20)) g = rng(); if (p >= 0 && g >= 0 && r.chance(25)) { int d = r.chance(50) ? mdist() : dist(p); Vec<int64_t> v = {d, g, r.range(1, 20), p}; int q = pick(K_PARAM); while (q >= 0 && v.size() < 7) { v.push_back(q); q = pick(K_PARAM); } if (d >= 0) emit("dist_psample", -1, v); }
    else if (p >= 0 && g >= 0 && r.chance(25)) emit("param_conv", -1, {p, r.chance(70) ? dist(p) : pick(K_DIST), g, r.range(1, 12)});
    else if (p >= 0 && g >= 0) emit("param_sample", -1, {p, r.chance(60) ? dist(p) : -1, g, r.range(1, 30)}); }
  else if (a == "expr") { int s = pick(K_CSPACE); if (s >= 0) expr_bool(s, (int)r.below(3), nullptr); else if (pick(K_PARAM) >= 0) emit("expr", slot(), {CCS_EXPRESSION_TYPE_VARIABLE, 8, pick(K_PARAM)}); }
  else if (a == "cspace") cspace((int)r.range(1, 5)); else if (a == "csmod") csmod();
  else if (a == "csuse") {
    int s = pick(K_CSPACE); if (s < 0) { s = cspace((int)r.range(1, 4)); if (s < 0) return; } P sp = obj(s); int64_t k = r.below(10);
    if (k < 4) { int n = (int)r.range(1, r.chance(4) ? 36 : 6); emit("cs_sample", slot(n), {s, n, r.below(2)}); } else if (k < 5) emit("cs_default", slot(), {s}); else if (k < 7) { Vec<int64_t> v = {s}; for (auto &p : sp->params) val_for(v, *p, 85); if (v.size() > 1) emit("cs_checkv", -1, v); }
    else if (k < 8) emit("cs_look", -1, {r.chance(70) ? s : pick(K_FSPACE) >= 0 ? pick(K_FSPACE) : s, r.below(dupnames ? 9 : nname + 1)});
    else { int cf = pick(K_CONF); if (cf < 0) cf = conf(s); if (cf >= 0) emit("bind_check", -1, {cf}); } }
  else if (a == "spmod") {
    int s = r.chance(50) ? pick(K_FSPACE) : pick(K_OSPACE); if (s < 0) { if (r.chance(50)) fspace((int)r.below(3)); else ospace((int)r.range(1, 3), (int)r.below(3)); return; }
    if (obj(s)->kind == K_OSPACE && r.chance(40)) { Vec<int64_t> v = {s}; int n = lists ? (int)r.range(1, 3) : 1, e = -1; for (int i = 0; i < n; i++) { if (e < 0 || !r.chance(15)) e = expr_num(badargs && r.chance(15) ? pick(K_OSPACE) : s, r.chance(15) ? (int)r.range(2, 3) : 1); if (e >= 0) { v.push_back(e); v.push_back(r.below(2)); } } emit("os_obj", -1, v); }
    else { Vec<int64_t> v = {s}; int n = lists && r.chance(30) ? (int)r.range(2, 3) : 1; for (int i = 0; i < n; i++) { int p = r.chance(70) || pick(K_PARAM) < 0 ? param() : pick(K_PARAM); if (p >= 0) v.push_back(p); } emit("sp_add", -1, v); } }
  else if (a == "conf") { int s = pick(K_CSPACE); if (s < 0) s = cspace((int)r.range(1, 4)); if (s >= 0) conf(s); }
  else if (a == "feat") { int s = pick(K_FSPACE); if (s < 0) s = fspace((int)r.range(1, 2)); if (s >= 0) feat(s); }
  else if (a == "eval") { int os = pick(K_OSPACE), cf = pick(r.chance(25) ? K_TCONF : K_CONF); if (os < 0) os = ospace((int)r.range(1, 3), (int)r.range(1, 2)); if (os >= 0 && cf >= 0) eval(os, cf, obj(cf)->kind == K_CONF && r.chance(40) ? pick(K_FEAT) : -1, r.chance(80)); }
  else if (a == "bind") bindop(); else if (a == "twins") twins();
  else if (a == "tuner0") tuner(0, false); else if (a == "tuner1") tuner(1, false); else if (a == "tuner2") tuner(2, false); else if (a == "utuner") tuner((int)r.below(3), true);
  else if (a == "tell") { static const int ks[] = {K_TUNER, K_FTUNER, K_TTUNER}; Vec<int> ts; for (int k : ks) { for (auto &kv : vm.slots) if (kv.second->kind == k && !kv.second->foreign) ts.push_back(kv.first); } if (ts.size()) tell_flow(ts[(size_t)r.below((int64_t)ts.size())]); }
  else if (a == "fask") { Vec<int> ts; for (auto &kv : vm.slots) if (kv.second->foreign && kv.second->kind == K_TUNER) ts.push_back(kv.first); if (ts.size()) { int t = ts[(size_t)r.below((int64_t)ts.size())]; if (r.chance(50)) emit("ask", slot(2), {t, -1, 2}); else emit("suggest", slot(), {t, -1}); } }
  else if (a == "tree") treeop(); else if (a == "map") mapop(); else if (a == "ref") refop(); else if (a == "udata") { int o = pick(-1); if (o >= 0) emit("udata", -1, {o, r.range(1, 100000)}); } else if (a == "sercb") { int o = pick(-1); if (o >= 0) emit("sercb", -1, {o}); }
  else if (a == "paths") {
    static const int ks[] = {K_CSPACE, K_FSPACE, K_OSPACE, K_CONF, K_FEAT, K_EVAL, K_FEVAL, K_TEVAL, K_EXPR, K_PARAM}; int k = ks[r.below(10)], o = pick(k, !r.chance(20)); if (o < 0) return;
    emit("paths", -1, {o, k == K_EXPR ? pick(r.chance(70) ? K_CSPACE : r.chance(50) ? K_OSPACE : K_FSPACE) : pick(k), r.below(1 << 20)}); }
  else if (a == "misuse") emit("misuse", -1, {r.below(misuse_count()), r.below(100000)});
  else if (a == "bad") { int o = pick(-1); if (o >= 0) emit("bad", -1, {r.below(12), o}); } else if (a == "estack") emit("estack", slot(), {r.below(20), r.below(5)});
  else if (a == "ser") serop(false); else if (a == "sernb") serop(true); else if (a == "damage") deser_damaged();
  else if (a == "describe") { int o = pick(-1, false); if (o >= 0) emit("describe", -1, {o}); }
}
void Gen::loop(int n) {
  int tot = 0; for (auto &x : w) tot += x.second; if (tot <= 0) return; size_t lim = c.ops.size() + (size_t)n;
  for (int i = 0; i < n * 4 && c.ops.size() < lim; i++) { int64_t k = r.below(tot); for (auto &x : w) { if (k < x.second) { act(x.first); break; } k -= x.second; } if (vm.slots.size() > 70) { Vec<int> v; for (auto &kv : vm.slots) v.push_back(kv.first); for (int j = 0; j < 12; j++) { int s = v[(size_t)r.below((int64_t)v.size())]; if (vm.slots.count(s)) emit("release", -1, {s}); } } }
}
static void swarm(Gen &g) { for (auto &x : g.w) { int64_t k = g.r.below(10); if (k < 2) x.second = x.second / 4; else if (k < 4) x.second *= 3; } }

typedef std::map<Str, int> W;
static const W all_w = {{"rng", 1}, {"rngop", 2}, {"dist", 2}, {"dsample", 2}, {"param", 2}, {"pcheck", 2}, {"psample", 2}, {"expr", 2}, {"cspace", 2}, {"csmod", 4}, {"csuse", 5}, {"spmod", 3}, {"conf", 3}, {"feat", 2}, {"eval", 4}, {"bind", 4}, {"tuner0", 1}, {"tuner1", 1}, {"tuner2", 1}, {"utuner", 1}, {"tell", 14}, {"tree", 8}, {"map", 6}, {"ref", 8}, {"bad", 3}, {"estack", 1}, {"ser", 4}, {"describe", 2}};

void gen_ckpt(Gen &g);
bool gen_case(Case &c, VM &vm) {
  Gen g(vm, c, c.seed * 0x9e3779b97f4a7c15ULL + hash_str(c.prop + c.mode)); const Str &p = c.prop; int n = (int)c.get("len", 60); n = (int)g.r.range(n / 2, n * 2);
  vm.release_seed = (uint64_t)c.get("release", 1); g.io_rate = (int)c.get("io", 0); g.weird = c.get("weird", 0); g.badargs = c.get("badargs", 0); g.lists = c.get("lists", 1);
  if (p == "C01") { g.w = all_w; g.w["bad"] = 0; g.w["sernb"] = 40; g.w["udata"] = 6; g.w["sercb"] = 3; g.w["fask"] = 3; }
  else if (p == "C03") { g.w = all_w; g.w["bad"] = 0; g.w["ser"] = 60; g.w["udata"] = 5; g.w["sercb"] = 2; g.lists = false; }
  else if (p == "C04") { g.w = all_w; g.w["bad"] = 0; g.w["damage"] = 40; g.w["udata"] = 3; }
  else if (p == "C05") { g.w = all_w; g.w["udata"] = 2; g.w["ser"] = 10; g.lists = false; }
  else if (p == "C06") { g.w = {{"tuner0", 2}, {"tuner2", 2}, {"tell", 60}, {"ref", 3}, {"bind", 4}, {"conf", 2}, {"eval", 3}, {"describe", 1}}; g.tuner(g.r.chance(60) ? 0 : 2, false); }
  else if (p == "C07") { g.w = all_w; g.w["ref"] = 40; g.w["udata"] = 4; g.w["ser"] = 8; g.w["sercb"] = 1; }
  else if (p == "C09") { g.w = {{"rng", 1}, {"dist", 2}, {"dsample", 14}, {"param", 2}, {"pcheck", 10}, {"psample", 10}, {"cspace", 3}, {"csmod", 6}, {"csuse", 30}, {"conf", 4}, {"feat", 2}, {"spmod", 1}, {"bind", 8}, {"tuner0", 1}, {"tell", 4}, {"ref", 2}}; }
  else if (p == "C10") { g.w = {{"map", 60}, {"ref", 8}, {"param", 2}, {"rng", 1}, {"dist", 1}, {"conf", 1}, {"cspace", 1}, {"ser", 1}}; }
  else if (p == "C11") { g.w = {{"tree", 60}, {"rng", 1}, {"ref", 6}, {"tuner2", 1}, {"tell", 4}, {"ser", 1}}; }
  else if (p == "C12") { g.w = {{"utuner", 4}, {"tell", 40}, {"tree", 14}, {"ser", 25}, {"udata", 10}, {"sercb", 5}, {"cspace", 1}, {"conf", 2}, {"map", 2}, {"ref", 4}, {"param", 1}}; g.lists = false; g.tuner((int)g.r.below(3), true); }
  else if (p == "C13") { g.w = {{"tuner1", 2}, {"tell", 60}, {"ref", 3}, {"bind", 3}, {"feat", 4}}; g.tuner(1, false); }
  else if (p == "C14") { g.w = all_w; g.w["bind"] = 16; g.w["twins"] = 14; g.w["udata"] = 2; g.w["bad"] = 1; g.w["csuse"] = 8; }
  else if (p == "C17") { g.w = all_w; g.w["bad"] = 1; g.w["misuse"] = 110; g.w["udata"] = 1; g.w["ser"] = 1; if (g.r.chance(50)) { g.tuner((int)g.r.below(3), g.r.chance(25)); int t = (int)g.r.range(4, 16); for (int i = 0; i < t; i++) g.act("tell"); } }
  else if (p == "C18") { g.w = all_w; g.w["paths"] = 60; g.w["bind"] = 20; g.w["spmod"] = 8; g.w["csmod"] = 8; g.w["eval"] = 8; g.w["feat"] = 5; g.w["ser"] = 6; }
  else if (p == "C15") { g.w = {{"csmod", 40}, {"spmod", 14}, {"csuse", 14}, {"param", 3}, {"dist", 1}, {"expr", 2}, {"ref", 5}, {"conf", 2}, {"cspace", 1}}; g.dupnames = true; g.badargs = true; }
  else if (p == "C08") { g.w = all_w; g.w["bad"] = 18; g.w["estack"] = 3; g.w["ser"] = 6; }
  else if (p == "C02") { gen_ckpt(g); return true; }
  else return false;
  swarm(g);
  if (p == "C06") g.w["tell"] = 60; if (p == "C13") g.w["tell"] = 60; if (p == "C10") g.w["map"] = 60; if (p == "C11") g.w["tree"] = 60; if (p == "C04") g.w["damage"] = 40;
  g.loop(n);
  return true;
}
