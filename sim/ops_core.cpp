// Operations on generators, distributions, parameters, expressions, spaces,
// bindings. Each performs one library call under vm.call()/vm.create().
#include "vm.h"
#include <gsl/gsl_rng.h>

const char *intern(const Str &s) { static thread_local std::set<Str> pool; return pool.insert(s).first->c_str(); }
Dat rd_dat(VM &vm, Rd &r, const Obj *p) {
  int t = (int)r.n(); int64_t k = r.n(); Dat d; Val &v = d.v;
  auto num = [&](int64_t i, double f) { if (p->isf) { v.t = T_FLOAT; v.f = f; } else { v.t = T_INT; v.i = i; } };
  const auto &pool = str_pool();
  if (t >= 9 && t <= 16 && t != 11 && !p) { d.ok = false; return d; }
  if (t >= 13 && t <= 16 && p->sub != CCS_PARAMETER_TYPE_NUMERICAL) t = 9;
  uint64_t u = (uint64_t)(k < 0 ? -k : k);
  switch (t) {
  case 0: break;
  case 1: v.t = T_INT; v.i = k; break;
  case 2: v.t = T_FLOAT; v.f = (double)k / 4.0; break;
  case 3: v.t = T_BOOL; v.i = k & 1; break;
  case 7: d.tr = true; // fall through
  case 4: v.t = T_STRING; v.s = pool[u % pool.size()]; break;
  case 21: v.t = T_STRING; v.s = "(null)"; d.tr = k & 1; break;        // a string datum without a string
  case 5: v.t = T_INACTIVE; break;
  case 6: case 8: case 11: { P o = vm.get(k, t == 8 ? K_PARAM : -1); if (!o) { d.ok = false; break; } v.t = T_OBJECT; v.o = o; v.id = t == 11; break; }
  case 9: case 19:
    if (p->sub == CCS_PARAMETER_TYPE_NUMERICAL) num(p->lo.i + (int64_t)(u % (uint64_t)std::max<int64_t>(1, p->hi.i - p->lo.i)), p->lo.f + (p->hi.f - p->lo.f) * (double)(u % 16) / 16.0);
    else if (p->sub == CCS_PARAMETER_TYPE_STRING) { v.t = T_STRING; v.s = u % 16 == 15 ? "(null)" : pool[u % pool.size()]; }
    else v = p->vals[u % p->vals.size()];
    break;
  case 10: v = p->def; break;
  case 13: num(p->hi.i, p->hi.f); break;
  case 14: num(p->hi.i - 1, std::nextafter(p->hi.f, p->lo.f)); break;
  case 15: num(p->lo.i, p->lo.f); break;
  case 16: num(p->lo.i - 1, std::nextafter(p->lo.f, -HUGE_VAL)); break;
  case 17: v.t = T_INT; v.i = k * 1000003; break;
  case 18: v.t = T_FLOAT; v.f = (double)k * 1e-3; break;
  case 20: v.t = T_FLOAT; v.f = std::ldexp((double)k, -40); break;
  default: d.ok = false;
  }
  if (t == 19) d.tr = true;
  return d;
}
void Data::add(const Dat &x) {
  ccs_datum_t y = datum_of(x.v, x.tr ? &keep : nullptr);
  if (x.tr) y.flags |= CCS_DATUM_FLAG_TRANSIENT;
  if (y.type == CCS_DATA_TYPE_INACTIVE || y.type == CCS_DATA_TYPE_NONE) y.value.i = (ccs_int_t)ut_salt();   // these have no payload: what lies there means nothing
  d.push_back(y);
}
static double q4(int64_t v) { return (double)v / 4.0; }
static ccs_numeric_t nv(bool isf, int64_t v) { ccs_numeric_t n; if (isf) n.f = q4(v); else n.i = v; return n; }
static Val vv(bool isf, int64_t v) { Val x; if (isf) { x.t = T_FLOAT; x.f = q4(v); } else { x.t = T_INT; x.i = v; } return x; }

// ---- generators ------------------------------------------------------------------
struct XState { uint64_t s; uint64_t mode; };
static void x_set(void *p, unsigned long seed) { XState *x = (XState *)p; x->s = seed * 0x9e3779b97f4a7c15ULL + 12345; x->mode = seed & 15; }
static unsigned long x_get(void *p) {
  XState *x = (XState *)p; uint64_t z = (x->s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; z ^= z >> 31;
  static const unsigned long ex[] = {0, 0xffffffffUL, 0, 0xffffffffUL, 1, 0xfffffffeUL, 0x7fffffffUL, 0x80000000UL};
  if ((z >> 60) < x->mode) { sim::g_cnt.rng_extreme++; return ex[(z >> 50) & 7]; }
  return z & 0xffffffffUL;
}
static double x_getd(void *p) { return (double)x_get(p) / 4294967296.0; }
static const gsl_rng_type x_type = {"simulated", 0xffffffffUL, 0, sizeof(XState), x_set, x_get, x_getd};
static const gsl_rng_type *rng_type(int64_t k) {
  if (k == 99) return &x_type;
  static const char *names[] = {"mt19937", "taus2", "ranlxd1", "gfsr4", "mrg", "rand48", "ran3", "knuthran2002", "minstd", "cmrg"};
  const gsl_rng_type **t = gsl_rng_types_setup();
  for (; *t; t++) if (!strcmp((*t)->name, names[(uint64_t)k % 10])) return *t;
  return gsl_rng_mt19937;
}
OP(rng) { // type
  Rd r(op); int64_t k = r.n(-1); ccs_object_t h;
  ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) { return k < 0 ? ccs_create_rng((ccs_rng_t *)o) : ccs_create_rng_with_type(rng_type(k), (ccs_rng_t *)o); });
  vm.out("rng " + vm.rname(e)); if (e < 0) return;
  P o = vm.made(op, K_RNG, h, ""); o->weird = k == 99;
}
OP(rng_seed) {
  Rd r(op); P o = vm.get(r.n(), K_RNG); if (!o) SKIP; unsigned long s = (unsigned long)r.n();
  vm.out("seed " + vm.rname(vm.call([&] { return ccs_rng_set_seed((ccs_rng_t)o->h, s); })));
}
OP(rng_get) {
  Rd r(op); P o = vm.get(r.n(), K_RNG); if (!o) SKIP;
  unsigned long v = 0; double f = 0; bool fl = r.n();
  ccs_result_t e = vm.call([&] { return fl ? ccs_rng_uniform((ccs_rng_t)o->h, &f) : ccs_rng_get((ccs_rng_t)o->h, &v); });
  vm.out(fmt("rng_get %s %lu %a", vm.rname(e).c_str(), v, f));
}
// ---- distributions ---------------------------------------------------------------
OP(dist_uni) { // isf lo hi scale q
  Rd r(op); bool isf = r.n(); int64_t lo = r.n(), hi = r.n(); int sc = (int)r.n(); int64_t q = r.n(); ccs_object_t h;
  ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) { if ((lo + hi) & 1) return isf ? ccs_create_uniform_float_distribution(nv(isf, lo).f, nv(isf, hi).f, (ccs_scale_type_t)sc, nv(isf, q).f, (ccs_distribution_t *)o) : ccs_create_uniform_int_distribution(nv(isf, lo).i, nv(isf, hi).i, (ccs_scale_type_t)sc, nv(isf, q).i, (ccs_distribution_t *)o);
    return ccs_create_uniform_distribution(isf ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT, nv(isf, lo), nv(isf, hi), (ccs_scale_type_t)sc, nv(isf, q), (ccs_distribution_t *)o); });
  vm.out("dist " + vm.rname(e)); if (e < 0) return;
  P o = vm.made(op, K_DIST, h, ""); o->sub = CCS_DISTRIBUTION_TYPE_UNIFORM; o->isf = isf; o->lo = vv(isf, lo); o->hi = vv(isf, hi); o->scale = sc; o->q = vv(isf, q);
}
OP(dist_norm) { // isf mu sigma scale q
  Rd r(op); bool isf = r.n(); int64_t mu = r.n(), sg = r.n(); int sc = (int)r.n(); int64_t q = r.n(); ccs_object_t h;
  ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) { if ((mu + sg) & 1) return isf ? ccs_create_normal_float_distribution(q4(mu), q4(sg), (ccs_scale_type_t)sc, nv(isf, q).f, (ccs_distribution_t *)o) : ccs_create_normal_int_distribution(q4(mu), q4(sg), (ccs_scale_type_t)sc, nv(isf, q).i, (ccs_distribution_t *)o);
    return ccs_create_normal_distribution(isf ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT, q4(mu), q4(sg), (ccs_scale_type_t)sc, nv(isf, q), (ccs_distribution_t *)o); });
  vm.out("dist " + vm.rname(e)); if (e < 0) return;
  P o = vm.made(op, K_DIST, h, ""); o->sub = CCS_DISTRIBUTION_TYPE_NORMAL; o->isf = isf; o->d0 = q4(mu); o->d1 = q4(sg); o->scale = sc; o->q = vv(isf, q);
}
OP(dist_roul) { // w...
  Rd r(op); Vec<double> w; while (r.more()) w.push_back(q4(r.n())); ccs_object_t h;
  ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) { Vec<double> x = w; return ccs_create_roulette_distribution(x.size(), x.data(), (ccs_distribution_t *)o); });
  vm.out("dist " + vm.rname(e)); if (e < 0) return;
  P o = vm.made(op, K_DIST, h, ""); o->sub = CCS_DISTRIBUTION_TYPE_ROULETTE; o->ws = w; o->isf = 0;
}
OP(dist_mix) { // (slot w)...
  Rd r(op); Vec<double> w; Vec<P> s; while (r.more()) { P d = vm.get(r.n(), K_DIST); if (!d) SKIP; s.push_back(d); w.push_back(q4(r.n())); } ccs_object_t h;
  ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) { Vec<double> x = w; Vec<ccs_distribution_t> ds; for (auto &d : s) ds.push_back((ccs_distribution_t)d->h); return ccs_create_mixture_distribution(x.size(), ds.data(), x.data(), (ccs_distribution_t *)o); });
  vm.out("dist " + vm.rname(e)); if (e < 0) return;
  P o = vm.made(op, K_DIST, h, ""); o->sub = CCS_DISTRIBUTION_TYPE_MIXTURE; o->ws = w; o->subs = s; o->isf = s[0]->isf;
}
OP(dist_multi) { // slot...
  Rd r(op); Vec<P> s; while (r.more()) { P d = vm.get(r.n(), K_DIST); if (!d) SKIP; s.push_back(d); } ccs_object_t h;
  ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) { Vec<ccs_distribution_t> ds; for (auto &d : s) ds.push_back((ccs_distribution_t)d->h); return ccs_create_multivariate_distribution(ds.size(), ds.data(), (ccs_distribution_t *)o); });
  vm.out("dist " + vm.rname(e)); if (e < 0) return;
  P o = vm.made(op, K_DIST, h, ""); o->sub = CCS_DISTRIBUTION_TYPE_MULTIVARIATE; o->subs = s;
}
size_t m_dim(const Obj &d) {
  if (d.sub == CCS_DISTRIBUTION_TYPE_MULTIVARIATE) { size_t n = 0; for (auto &s : d.subs) n += m_dim(*s); return n; }
  if (d.sub == CCS_DISTRIBUTION_TYPE_MIXTURE) return d.subs.empty() ? 1 : m_dim(*d.subs[0]);
  return 1;
}
// values one component can produce at all, from its definition; nullptr when unbounded
static bool m_dist_ok(const Obj &d, size_t comp, bool isf, ccs_numeric_t v, Str &why) {
  switch (d.sub) {
  case CCS_DISTRIBUTION_TYPE_UNIFORM:
    if (isf ? !(v.f >= d.lo.f && v.f < d.hi.f) : !(v.i >= d.lo.i && v.i < d.hi.i)) { why = "outside [" + vtext(d.lo) + "," + vtext(d.hi) + ")"; return false; }
    return true;
  case CCS_DISTRIBUTION_TYPE_ROULETTE: if (v.i < 0 || v.i >= (int64_t)d.ws.size()) { why = fmt("outside [0,%zu)", d.ws.size()); return false; } if (d.ws[(size_t)v.i] == 0) { why = "an area of size zero"; return false; } return true;
  case CCS_DISTRIBUTION_TYPE_MIXTURE: for (size_t i = 0; i < d.subs.size(); i++) if (d.ws[i] > 0 && m_dist_ok(*d.subs[i], comp, isf, v, why)) return true; return false;
  case CCS_DISTRIBUTION_TYPE_MULTIVARIATE: for (auto &s : d.subs) { size_t k = m_dim(*s); if (comp < k) return m_dist_ok(*s, comp, isf, v, why); comp -= k; } return true;
  default: return isf ? v.f == v.f : true;
  }
}
static bool iv_has(const ccs_interval_t &iv, ccs_numeric_t v) {
  if (iv.type == CCS_NUMERIC_TYPE_FLOAT) return (iv.lower_included ? v.f >= iv.lower.f : v.f > iv.lower.f) && (iv.upper_included ? v.f <= iv.upper.f : v.f < iv.upper.f);
  return (iv.lower_included ? v.i >= iv.lower.i : v.i > iv.lower.i) && (iv.upper_included ? v.i <= iv.upper.i : v.i < iv.upper.i);
}
OP(dist_sample) { // dist rng n mode
  Rd r(op); P d = vm.get(r.n(), K_DIST), g = vm.get(r.n(), K_RNG); if (!d || !g) SKIP;
  size_t n = (size_t)r.n(1); int mode = (int)r.n(0); size_t dim = 0; ccs_distribution_t dh = (ccs_distribution_t)d->h; ccs_rng_t gh = (ccs_rng_t)g->h;
  if (ccs_distribution_get_dimension(dh, &dim) < 0) SKIP;
  if (mode == 0) n = 1;
  size_t stride = mode == 2 ? dim + 2 : dim; Vec<ccs_numeric_t> v(n * stride); for (auto &x : v) x.i = -77;
  Vec<ccs_numeric_type_t> ty(dim); Vec<ccs_interval_t> iv(dim);
  if (ccs_distribution_get_data_types(dh, ty.data()) < 0 || ccs_distribution_get_bounds(dh, iv.data()) < 0) { ccs_clear_thread_error(); SKIP; }
  Vec<Vec<ccs_numeric_t>> soa; Vec<ccs_numeric_t *> sp;
  if (mode >= 3) { for (size_t i = 0; i < dim; i++) { soa.emplace_back(n); } for (auto &x : soa) sp.push_back(x.data()); if (mode == 4) for (size_t i = 0; i < dim; i++) if ((n * 7 + i * 5) % 3 == 0) sp[i] = nullptr; }
  ccs_result_t e = vm.call([&] { return mode == 0 ? ccs_distribution_sample(dh, gh, v.data()) : mode == 1 ? ccs_distribution_samples(dh, gh, n, v.data()) : mode == 2 ? ccs_distribution_strided_samples(dh, gh, n, stride, v.data()) : ccs_distribution_soa_samples(dh, gh, n, sp.data()); });
  Str s = "samples " + vm.rname(e);
  if (e >= 0) for (size_t i = 0; i < n; i++) for (size_t c = 0; c < dim; c++) {
    if (mode == 4 && !sp[c]) continue;
    ccs_numeric_t x = mode >= 3 ? soa[c][i] : v[i * stride + c]; bool isf = ty[c] == CCS_NUMERIC_TYPE_FLOAT; Str why;
    s += isf ? fmt(" %a", x.f) : fmt(" %ld", (long)x.i);
    if (!m_dist_ok(*d, c, isf, x, why)) vm.bad("dist", fmt("component %zu sampled %s: ", c, isf ? fmt("%.17g", x.f).c_str() : fmt("%ld", (long)x.i).c_str()) + why + " for " + atext(d->h, 0));
    if (!iv_has(iv[c], x)) vm.bad("dist", fmt("component %zu sampled %s outside the announced bounds of ", c, isf ? fmt("%.17g", x.f).c_str() : fmt("%ld", (long)x.i).c_str()) + atext(d->h, 0));
  }
  if (e >= 0 && mode == 2) for (size_t i = 0; i < n; i++) for (size_t c = dim; c < stride; c++) if (v[i * stride + c].i != -77) vm.bad("dist", "strided sampling wrote between the strides");
  vm.out(s);
}
// ---- parameters --------------------------------------------------------------------
OP(param) { // nameidx sub isf lo hi q def | vals (t v)*   (def = default or default index)
  Rd r(op); int64_t nm = r.n(); int sub = (int)r.n(); bool isf = r.n(); int64_t lo = r.n(), hi = r.n(), q = r.n(), df = r.n();
  Data d; Vec<Val> vals; while (r.more()) { Dat x = rd_dat(vm, r); if (!x.ok) SKIP; vals.push_back(x.v); d.add(x); }
  Str name = mkname("p", nm); ccs_object_t h; bool ok = true;
  if (sub == CCS_PARAMETER_TYPE_NUMERICAL) ok = lo < hi && q >= 0 && q <= hi - lo && df >= lo && df < hi;
  else if (sub != CCS_PARAMETER_TYPE_STRING) { ok = !vals.empty() && df >= 0 && df < (int64_t)vals.size(); for (size_t i = 0; i < vals.size(); i++) for (size_t j = 0; j < i; j++) if (vals[i] == vals[j]) ok = false; }
  ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) {
    ccs_parameter_t *p = (ccs_parameter_t *)o; Vec<ccs_datum_t> v = d.d;
    switch (sub) {
    case CCS_PARAMETER_TYPE_NUMERICAL: if ((lo + df) & 1) return isf ? ccs_create_float_numerical_parameter(name.c_str(), nv(isf, lo).f, nv(isf, hi).f, nv(isf, q).f, nv(isf, df).f, p) : ccs_create_int_numerical_parameter(name.c_str(), nv(isf, lo).i, nv(isf, hi).i, nv(isf, q).i, nv(isf, df).i, p);
      return ccs_create_numerical_parameter(name.c_str(), isf ? CCS_NUMERIC_TYPE_FLOAT : CCS_NUMERIC_TYPE_INT, nv(isf, lo), nv(isf, hi), nv(isf, q), nv(isf, df), p);
    case CCS_PARAMETER_TYPE_CATEGORICAL: return ccs_create_categorical_parameter(name.c_str(), v.size(), v.data(), (size_t)df, p);
    case CCS_PARAMETER_TYPE_ORDINAL: return ccs_create_ordinal_parameter(name.c_str(), v.size(), v.data(), (size_t)df, p);
    case CCS_PARAMETER_TYPE_DISCRETE: return ccs_create_discrete_parameter(name.c_str(), v.size(), v.data(), (size_t)df, p);
    default: return ccs_create_string_parameter(name.c_str(), p);
    } });
  vm.out("param " + vm.rname(e)); vm.judge("check", e, ok, "a parameter definition"); if (e < 0) return;
  P o = vm.made(op, K_PARAM, h, name); o->sub = sub; o->isf = isf; o->lo = vv(isf, lo); o->hi = vv(isf, hi); o->q = vv(isf, q); o->vals = vals;
  if (sub == CCS_PARAMETER_TYPE_NUMERICAL) o->def = vv(isf, df); else if (sub != CCS_PARAMETER_TYPE_STRING) o->def = vals[(size_t)df];
}
OP(param_check) { // param (t v)+
  Rd r(op); P p = vm.get(r.n(), K_PARAM); if (!p || p->foreign) SKIP;
  Data d; Vec<Val> vs; while (r.more()) { Dat x = rd_dat(vm, r, p.get()); if (!x.ok) SKIP; vs.push_back(x.v); d.add(x); } if (vs.empty()) SKIP;
  Vec<ccs_bool_t> b(vs.size(), (ccs_bool_t)7); ccs_parameter_t ph = (ccs_parameter_t)p->h;
  ccs_result_t e = vm.call([&] { return vs.size() == 1 ? ccs_parameter_check_value(ph, d.d[0], b.data()) : ccs_parameter_check_values(ph, vs.size(), d.d.data(), b.data()); });
  Str s = "check " + vm.rname(e);
  if (e >= 0) for (size_t i = 0; i < vs.size(); i++) { s += b[i] ? " 1" : " 0"; if (vm.cfg.models && (b[i] == (ccs_bool_t)7 || (b[i] != 0) != m_in_domain(*p, vs[i]))) vm.bad("check", "check of " + vtext(vs[i]) + " against " + mtext(vm, p) + fmt(" answered %d", (int)b[i])); }
  vm.out(s);
}
OP(param_valid) { // param (t v)+   validate: canonical values come back and survive the caller's buffers
  Rd r(op); P p = vm.get(r.n(), K_PARAM); if (!p || p->foreign) SKIP;
  Vec<Val> vs; Vec<ccs_datum_t> res; Vec<ccs_bool_t> b; ccs_result_t e; ccs_parameter_t ph = (ccs_parameter_t)p->h;
  { Data d; while (r.more()) { Dat x = rd_dat(vm, r, p.get()); if (!x.ok) SKIP; if (x.v.t == T_STRING) x.tr = true; vs.push_back(x.v); d.add(x); } if (vs.empty()) SKIP;
    res.resize(vs.size()); b.assign(vs.size(), (ccs_bool_t)7);
    e = vm.call([&] { return vs.size() == 1 ? ccs_parameter_validate_value(ph, d.d[0], res.data(), b.data()) : ccs_parameter_validate_values(ph, vs.size(), d.d.data(), res.data(), b.data()); }); }
  Str s = "validate " + vm.rname(e);
  if (e >= 0) for (size_t i = 0; i < vs.size(); i++) {
    bool in = m_in_domain(*p, vs[i]); s += b[i] ? " " + dtext(res[i]) : " 0";
    if (vm.cfg.models && (b[i] == (ccs_bool_t)7 || (b[i] != 0) != in || (in && dtext(res[i]) != vtext(vs[i])))) vm.bad("check", "validation of " + vtext(vs[i]) + " against " + mtext(vm, p) + " answered" + s);
  }
  vm.out(s);
}
OP(param_sample) { // param dist(-1 = default) rng n
  Rd r(op); P p = vm.get(r.n(), K_PARAM); int64_t ds = r.n(); P d = ds < 0 ? nullptr : vm.get(ds, K_DIST); P g = vm.get(r.n(), K_RNG); size_t n = (size_t)r.n(1);
  if (!p || !g || p->foreign || (ds >= 0 && !d) || (d && m_dim(*d) != 1)) SKIP;
  ccs_distribution_t dh = d ? (ccs_distribution_t)d->h : nullptr;
  if (!d) { if (ccs_parameter_get_default_distribution((ccs_parameter_t)p->h, &dh) < 0) { ccs_clear_thread_error(); SKIP; } }
  Vec<ccs_datum_t> v(n); bool one = n == 1;
  ccs_result_t e = vm.call([&] { return one ? ccs_parameter_sample((ccs_parameter_t)p->h, dh, (ccs_rng_t)g->h, v.data()) : ccs_parameter_samples((ccs_parameter_t)p->h, dh, (ccs_rng_t)g->h, n, v.data()); });
  if (!d) ccs_release_object(dh);
  Str s = "psample " + vm.rname(e);
  if (e >= 0) for (auto &x : v) { s += " " + dtext(x); if (vm.cfg.models && !m_in_domain(*p, val_of(vm, x))) vm.bad("sample", "sampled " + dtext(x) + " outside the domain of " + mtext(vm, p)); }
  vm.out(s);
}
static bool iv_in(const ccs_interval_t &a, const ccs_interval_t &b) { // every number of a is in b
  if (a.type == CCS_NUMERIC_TYPE_FLOAT) return (a.lower.f > b.lower.f || (a.lower.f == b.lower.f && (b.lower_included || !a.lower_included))) && (a.upper.f < b.upper.f || (a.upper.f == b.upper.f && (b.upper_included || !a.upper_included)));
  __int128 al = (__int128)a.lower.i + !a.lower_included, au = (__int128)a.upper.i - !a.upper_included, bl = (__int128)b.lower.i + !b.lower_included, bu = (__int128)b.upper.i - !b.upper_included; return al >= bl && au <= bu;
}
OP(param_conv) { // param dist rng n: sample the distribution, then make parameter values of the samples
  Rd r(op); P p = vm.get(r.n(), K_PARAM), d = vm.get(r.n(), K_DIST), g = vm.get(r.n(), K_RNG); size_t n = (size_t)r.n(1); if (!p || !d || !g || p->foreign || m_dim(*d) != 1 || p->sub == CCS_PARAMETER_TYPE_STRING) SKIP;
  ccs_interval_t iv, b, u, k; ccs_numeric_type_t ty; ccs_distribution_t dh = (ccs_distribution_t)d->h; ccs_parameter_t ph = (ccs_parameter_t)p->h; ccs_bool_t os = (ccs_bool_t)7;
  if (ccs_parameter_sampling_interval(ph, &iv) < 0 || ccs_distribution_get_bounds(dh, &b) < 0 || ccs_distribution_get_data_types(dh, &ty) < 0) { ccs_clear_thread_error(); SKIP; } if (ty != iv.type) SKIP;
  bool num = p->sub == CCS_PARAMETER_TYPE_NUMERICAL; Vec<ccs_numeric_t> raw(n); Vec<ccs_datum_t> v(n, ccs_none);
  if (vm.cfg.models && !num && (iv.type != CCS_NUMERIC_TYPE_INT || iv.lower.i != 0 || iv.upper.i != (int64_t)p->vals.size() || !iv.lower_included || iv.upper_included)) vm.bad("dist", "the sampling interval is not that of the values of " + mtext(vm, p));
  if (vm.cfg.models && num && (p->isf ? iv.lower.f != p->lo.f || iv.upper.f != p->hi.f : iv.lower.i != p->lo.i || iv.upper.i != p->hi.i)) vm.bad("dist", "the sampling interval is not that of " + mtext(vm, p));
  ccs_result_t e = vm.call([&] { return ccs_distribution_check_oversampling(dh, &iv, &os); }); Str s = "conv " + vm.rname(e) + fmt(" %d", (int)os); if (e < 0) { vm.out(s); return; }
  if ((os != CCS_FALSE && os != CCS_TRUE) || (!os && !iv_in(b, iv))) vm.bad("dist", fmt("check_oversampling answered %d for ", (int)os) + atext(d->h, 0) + " on " + mtext(vm, p));
  if (ccs_interval_intersect(&iv, &b, &k) < 0 || ccs_interval_union(&iv, &b, &u) < 0) { ccs_clear_thread_error(); vm.out(s + " no interval"); return; }
  e = vm.call([&] { return ccs_distribution_samples(dh, (ccs_rng_t)g->h, n, raw.data()); }); s += " " + vm.rname(e); if (e < 0) { vm.out(s); return; }
  e = vm.call([&] { return ccs_parameter_convert_samples(ph, os, n, raw.data(), v.data()); }); s += " " + vm.rname(e);
  if (e >= 0 && vm.cfg.models) for (size_t i = 0; i < n; i++) {
    bool x = iv_has(iv, raw[i]); Val w = val_of(vm, v[i]); s += " " + dtext(v[i]);
    if (!x) { if (v[i].type != CCS_DATA_TYPE_INACTIVE) vm.bad("sample", "a sample outside the parameter became " + dtext(v[i]) + " of " + mtext(vm, p)); }
    else if (!m_in_domain(*p, w)) vm.bad("sample", "a sample became " + dtext(v[i]) + " outside the domain of " + mtext(vm, p));
    else if (num ? (p->isf ? v[i].value.f != raw[i].f : v[i].value.i != raw[i].i) : !(w == p->vals[(size_t)raw[i].i])) vm.bad("sample", "a sample became the other value " + dtext(v[i]) + " of " + mtext(vm, p));
    if (ccs_interval_include(&iv, raw[i]) != (x ? CCS_TRUE : CCS_FALSE) || ccs_interval_include(&k, raw[i]) != (x && iv_has(b, raw[i]) ? CCS_TRUE : CCS_FALSE) || !ccs_interval_include(&u, raw[i])) vm.bad("dist", "intervals disagree about a sample of " + atext(d->h, 0) + " for " + mtext(vm, p));
  }
  vm.out(s);
}
// ---- expressions --------------------------------------------------------------------
static int arity_of(int et) {
  switch (et) { case CCS_EXPRESSION_TYPE_POSITIVE: case CCS_EXPRESSION_TYPE_NEGATIVE: case CCS_EXPRESSION_TYPE_NOT: return 1; case CCS_EXPRESSION_TYPE_LIST: return -1; case CCS_EXPRESSION_TYPE_LITERAL: case CCS_EXPRESSION_TYPE_VARIABLE: return 0; default: return 2; }
}
static P leaf(const Val &v) {
  P o = std::make_shared<Obj>(); o->kind = K_EXPR;
  if (v.t == T_OBJECT) { o->et = CCS_EXPRESSION_TYPE_VARIABLE; o->param = v.o; } else { o->et = CCS_EXPRESSION_TYPE_LITERAL; o->lit = v; }
  return o;
}
OP(expr) { // et (t v)*
  Rd r(op); int et = (int)r.n(); Vec<Val> vs; Data d;
  while (r.more()) { Dat x = rd_dat(vm, r); if (!x.ok || x.v.id) SKIP; if (x.v.t == T_OBJECT && x.v.o->kind != K_PARAM && x.v.o->kind != K_EXPR) SKIP; if (x.v.t == T_OBJECT && x.v.o->foreign) SKIP; vs.push_back(x.v); d.add(x); }
  ccs_object_t h; bool lit = et == CCS_EXPRESSION_TYPE_LITERAL, var = et == CCS_EXPRESSION_TYPE_VARIABLE;
  if ((lit || var) && vs.size() != 1) SKIP;
  if (var && !(vs[0].t == T_OBJECT && vs[0].o->kind == K_PARAM)) SKIP;
  if (lit && vs[0].t == T_OBJECT) SKIP;
  bool ok = lit || var || arity_of(et) < 0 || arity_of(et) == (int)vs.size();
  ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) {
    ccs_expression_t *x = (ccs_expression_t *)o; Vec<ccs_datum_t> n = d.d;
    if (lit) return ccs_create_literal(n[0], x);
    if (var) return ccs_create_variable((ccs_parameter_t)vs[0].o->h, x);
    if (et % 2 && n.size() == 1 && et != CCS_EXPRESSION_TYPE_LIST) return ccs_create_unary_expression((ccs_expression_type_t)et, n[0], x);
    if (et % 2 && n.size() == 2 && et != CCS_EXPRESSION_TYPE_LIST) return ccs_create_binary_expression((ccs_expression_type_t)et, n[0], n[1], x);
    return ccs_create_expression((ccs_expression_type_t)et, n.size(), n.data(), x); });
  vm.out("expr " + vm.rname(e)); vm.judge("accept", e, ok, fmt("expression of type %d with %zu operands", et, vs.size())); if (e < 0) return;
  P o = vm.made(op, K_EXPR, h, ""); o->et = et;
  if (lit) o->lit = vs[0]; else if (var) o->param = vs[0].o; else for (auto &v : vs) o->nodes.push_back(v.t == T_OBJECT && v.o->kind == K_EXPR ? v.o : leaf(v));
}
// ---- configuration spaces --------------------------------------------------------------
static bool has_name(const Obj &s, const Str &n) { for (auto &p : s.params) if (p->name == n) return true; return false; }
static bool closed(const P &e, const Obj &s) { for (auto &p : m_params_of(e)) if (std::find(s.params.begin(), s.params.end(), p) == s.params.end()) return false; return true; }
OP(cs_new) {
  Rd r(op); Str name = mkname("cs", r.n()); ccs_object_t h;
  ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) { return ccs_create_configuration_space(name.c_str(), (ccs_configuration_space_t *)o); });
  vm.out("cs " + vm.rname(e)); if (e < 0) return;
  vm.made(op, K_CSPACE, h, name);
}
OP(cs_rng) {   // cs rng|-2: -2 sets the generator the space already has
  Rd r(op); P s = vm.get(r.n(), K_CSPACE); int64_t gk = r.n(); if (!s) SKIP;
  if (gk == -2) { ccs_rng_t own = nullptr; ccs_result_t e = vm.call([&] { own = nullptr; ccs_result_t x = ccs_configuration_space_get_rng((ccs_configuration_space_t)s->h, &own); return x < 0 ? x : ccs_configuration_space_set_rng((ccs_configuration_space_t)s->h, own); }); vm.out("cs_rng same " + vm.rname(e)); vm.judge("accept", e, true, "setting the generator a space has"); return; }
  P g = vm.get(gk, K_RNG); if (!g) SKIP;
  ccs_result_t e = vm.call([&] { return ccs_configuration_space_set_rng((ccs_configuration_space_t)s->h, (ccs_rng_t)g->h); });
  vm.out("cs_rng " + vm.rname(e)); vm.judge("accept", e, true, "setting a generator"); if (e >= 0) { s->rng = g; }
}
static bool cs_add_ok(const Obj &s, const P &p, const P &d) { return p->sub != CCS_PARAMETER_TYPE_STRING && !has_name(s, p->name) && (!d || m_dim(*d) == 1); }
static void cs_add_do(Obj &s, const P &p, const P &d) { s.params.push_back(p); s.dists.push_back(d); s.dix.push_back(0); s.dwrap.push_back(++s.nwrap); s.conds.push_back(nullptr); }
// bindings made before their space was extended are outside the model: nothing that refers to the space may exist
static bool grow_ok(VM &vm, const P &s) {
  for (auto &kv : vm.handles) { P o = kv.second.lock(); if (!o || o.get() == s.get()) continue; if (o->kind == K_CONF || o->kind == K_FEAT || o->kind == K_EVAL || o->kind == K_FEVAL || o->kind == K_TEVAL) if (o->space == s || o->ospace == s || (o->foreign && o->space == nullptr && o->ospace == nullptr)) return false; }
  for (auto &kv : vm.images) for (auto &d : kv.second.deps) if (d.second.lock() == s) return false;
  for (auto &kv : vm.xfers) for (auto &d : kv.second.im.deps) if (d.second.lock() == s) return false;
  return true;
}
OP(cs_add) { // cs param dist
  Rd r(op); P s = vm.get(r.n(), K_CSPACE), p = vm.get(r.n(), K_PARAM); int64_t ds = r.n(-1); P d = ds < 0 ? nullptr : vm.get(ds, K_DIST); if (!s || !p || (ds >= 0 && !d) || s->foreign || p->foreign || !grow_ok(vm, s)) SKIP;
  bool ok = cs_add_ok(*s, p, d);
  ccs_result_t e = vm.call([&] { return ccs_configuration_space_add_parameter((ccs_configuration_space_t)s->h, (ccs_parameter_t)p->h, d ? (ccs_distribution_t)d->h : nullptr); });
  vm.out("cs_add " + vm.rname(e)); vm.judge("accept", e, ok, "adding parameter " + p->name); if (e >= 0) cs_add_do(*s, p, d);
  if (vm.cfg.models) vm.check_content("space", [&](const Obj &o) { return &o == s.get(); });
}
OP(cs_adds) { // cs (param dist)*
  Rd r(op); P s = vm.get(r.n(), K_CSPACE); if (!s || s->foreign || !grow_ok(vm, s)) SKIP; Vec<P> ps, ds; bool anyd = false;
  while (r.more()) { P p = vm.get(r.n(), K_PARAM); int64_t k = r.n(-1); P d = k < 0 ? nullptr : vm.get(k, K_DIST); if (!p || p->foreign || (k >= 0 && !d)) SKIP; ps.push_back(p); ds.push_back(d); anyd = anyd || d; }
  if (ps.empty()) SKIP;
  Vec<ccs_parameter_t> ph; Vec<ccs_distribution_t> dh; for (auto &p : ps) ph.push_back((ccs_parameter_t)p->h); for (auto &d : ds) dh.push_back(d ? (ccs_distribution_t)d->h : nullptr);
  bool ok = true; size_t k = 0; Obj t = Obj(*s); t.kids.clear(); while (k < ps.size() && (ok = cs_add_ok(t, ps[k], ds[k]))) { cs_add_do(t, ps[k], ds[k]); k++; }
  ccs_result_t e = vm.call([&] { return ccs_configuration_space_add_parameters((ccs_configuration_space_t)s->h, ph.size(), ph.data(), anyd ? dh.data() : nullptr); });
  vm.out("cs_adds " + vm.rname(e)); vm.judge("accept", e, ok, "adding a list of parameters");
  for (size_t i = 0; i < k; i++) cs_add_do(*s, ps[i], ds[i]);
  if (vm.cfg.models) vm.check_content("space", [&](const Obj &o) { return &o == s.get(); });
}
OP(cs_dist) { // cs dist idx...
  Rd r(op); P s = vm.get(r.n(), K_CSPACE), d = vm.get(r.n(), K_DIST); if (!s || !d || s->foreign || d->foreign) SKIP; Vec<size_t> ix; while (r.more()) ix.push_back((size_t)r.n());
  size_t dim = m_dim(*d); if (ix.size() != dim) SKIP;
  bool ok = true; std::set<size_t> seen; for (size_t i : ix) if (i >= s->params.size() || !seen.insert(i).second) ok = false;
  ccs_result_t e = vm.call([&] { Vec<size_t> x = ix; return ccs_configuration_space_set_distribution((ccs_configuration_space_t)s->h, (ccs_distribution_t)d->h, x.data()); });
  vm.out("cs_dist " + vm.rname(e)); vm.judge("accept", e, ok, "setting a distribution");
  if (e >= 0) {
    std::set<int> w; for (size_t i : ix) w.insert(s->dwrap[i]);
    for (size_t i = 0; i < s->params.size(); i++) if (w.count(s->dwrap[i])) { s->dists[i] = nullptr; s->dix[i] = 0; s->dwrap[i] = ++s->nwrap; }
    int nw = ++s->nwrap; for (size_t k = 0; k < ix.size(); k++) { s->dists[ix[k]] = d; s->dix[ix[k]] = (int)k; s->dwrap[ix[k]] = nw; }
  }
  if (vm.cfg.models) vm.check_content("space", [&](const Obj &o) { return &o == s.get(); });
}
OP(cs_cond) { // cs idx expr
  Rd r(op); P s = vm.get(r.n(), K_CSPACE); size_t ix = (size_t)r.n(); P x = vm.get(r.n(), K_EXPR); if (!s || !x || s->foreign || x->foreign) SKIP;
  bool ok = ix < s->params.size() && !s->conds[ix] && closed(x, *s);
  if (ok) { s->conds[ix] = x; Vec<int> o; ok = m_topo(*s, o); s->conds[ix] = nullptr; }
  ccs_result_t e = vm.call([&] { return ccs_configuration_space_set_condition((ccs_configuration_space_t)s->h, ix, (ccs_expression_t)x->h); });
  vm.out("cs_cond " + vm.rname(e)); vm.judge("accept", e, ok, fmt("condition on parameter %zu", ix)); if (e >= 0) s->conds[ix] = x;
  if (vm.cfg.models) vm.check_content("space", [&](const Obj &o) { return &o == s.get(); });
}
static bool forb_ok(const Obj &s, const P &x) {
  Vec<Val> d; Val v; if (!closed(x, s) || !m_default(s, d)) return false;
  return m_eval(x, s, d, v) && !(v.t == T_BOOL && v.i);
}
OP(cs_forb) { // cs expr
  Rd r(op); P s = vm.get(r.n(), K_CSPACE), x = vm.get(r.n(), K_EXPR); if (!s || !x || s->foreign || x->foreign) SKIP;
  bool ok = forb_ok(*s, x);
  ccs_result_t e = vm.call([&] { return ccs_configuration_space_add_forbidden_clause((ccs_configuration_space_t)s->h, (ccs_expression_t)x->h); });
  vm.out("cs_forb " + vm.rname(e)); vm.judge("accept", e, ok, "a forbidden clause"); if (e >= 0) s->forb.push_back(x);
  if (vm.cfg.models) vm.check_content("space", [&](const Obj &o) { return &o == s.get(); });
}
OP(cs_forbs) { // cs expr...
  Rd r(op); P s = vm.get(r.n(), K_CSPACE); if (!s || s->foreign) SKIP; Vec<P> xs; Vec<ccs_expression_t> hs; while (r.more()) { P x = vm.get(r.n(), K_EXPR); if (!x || x->foreign) SKIP; xs.push_back(x); hs.push_back((ccs_expression_t)x->h); }
  if (xs.empty()) SKIP;
  bool ok = true; size_t k = 0; while (k < xs.size() && (ok = forb_ok(*s, xs[k]))) k++;
  ccs_result_t e = vm.call([&] { return ccs_configuration_space_add_forbidden_clauses((ccs_configuration_space_t)s->h, hs.size(), hs.data()); });
  vm.out("cs_forbs " + vm.rname(e)); vm.judge("accept", e, ok, "a list of forbidden clauses"); for (size_t i = 0; i < k; i++) s->forb.push_back(xs[i]);
  if (vm.cfg.models) vm.check_content("space", [&](const Obj &o) { return &o == s.get(); });
}
// configuration handed out by the library: adopt it, check it against the space
static P take_conf(VM &vm, ccs_configuration_t c, const P &space, const char *cls, const char *what, bool fresh = true) {
  P o = fresh ? nullptr : vm.find_handle((ccs_object_t)c);
  if (!o) o = vm.adopt(K_CONF, (ccs_object_t)c, "");
  size_t n = 0; ccs_configuration_space_t cs = nullptr; ccs_result_t e = ccs_configuration_get_values(c, 0, nullptr, &n); Vec<ccs_datum_t> v(n); if (e >= 0 && n) e = ccs_configuration_get_values(c, n, v.data(), nullptr);
  if (e >= 0) e = ccs_configuration_get_configuration_space(c, &cs);
  if (e < 0) vm.bad(cls, Str(what) + ": the configuration cannot be read: " + vm.rname(e));
  o->space = space; o->values.clear(); for (auto &d : v) o->values.push_back(val_of(vm, d));
  if (!space) { o->foreign = true; return o; }
  if (cs != (ccs_configuration_space_t)space->h) vm.bad(cls, Str(what) + ": the configuration belongs to another space");
  if (vm.cfg.models && !space->foreign) { Str why; if (m_check(*space, o->values, &why) != 1) vm.bad(cls, Str(what) + " gave an invalid configuration " + mtext(vm, o) + ": " + why); }
  return o;
}
P vm_take_conf(VM &vm, ccs_object_t c, const P &space, const char *cls, const char *what, bool fresh) { return take_conf(vm, (ccs_configuration_t)c, space, cls, what, fresh); }
OP(cs_sample) { // cs n ; outs = op.out...
  Rd r(op); P s = vm.get(r.n(), K_CSPACE); if (!s) SKIP; size_t n = (size_t)r.n(1); bool one = n == 1 && r.n(0);
  Vec<ccs_configuration_t> c(n, nullptr);
  static char mark; ccs_configuration_t mk = (ccs_configuration_t)&mark; bool left = false;
  auto drop = [&](ccs_result_t x0) { if (!vm.in_call && x0 == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL && !one) return; for (auto &x : c) { if (x) ccs_release_object(x); x = nullptr; } };
  ccs_result_t e = vm.call([&] { std::fill(c.begin(), c.end(), one ? nullptr : mk); ccs_result_t x = one ? ccs_configuration_space_sample((ccs_configuration_space_t)s->h, c.data()) : ccs_configuration_space_samples((ccs_configuration_space_t)s->h, n, c.data()); left = false; for (auto &y : c) if (y == mk) { y = nullptr; left = true; } return x; }, drop);
  vm.out("cs_sample " + vm.rname(e));
  if (e < 0) { if (e != CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL && vm.cfg.models && !s->foreign) { Vec<Val> d; if (m_default(*s, d) && !s->weird) vm.bad("sample", "sampling failed with " + vm.rname(e)); }
    if (e == CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL && !one) {   // what was found comes first, nothing behind it
      size_t got = 0; while (got < n && c[got]) got++; bool hole = false; for (size_t i = got; i < n; i++) hole = hole || c[i];
      if (left) vm.bad("sample", "unsuccessful sampling left elements of the result as they were"); if (hole) vm.bad("sample", "unsuccessful sampling did not put what it found first"); if (got == n && n) vm.bad("sample", "sampling gave everything it was asked for and failed");
      for (size_t i = 0; i < got; i++) { P o = take_conf(vm, c[i], s, "sample", "unsuccessful sampling"); vm.put(op.out + (int)i, o); vm.out("  " + atext(o->h, 0)); } }
    return; }
  for (size_t i = 0; i < n; i++) { if (!c[i]) vm.bad("sample", "sampling succeeded but returned no configuration"); P o = take_conf(vm, c[i], s, "sample", "sampling"); vm.put(op.out + (int)i, o); vm.out("  " + atext(o->h, 0)); }
}
OP(cs_default) {
  Rd r(op); P s = vm.get(r.n(), K_CSPACE); if (!s) SKIP; ccs_object_t h;
  ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) { return ccs_configuration_space_get_default_configuration((ccs_configuration_space_t)s->h, (ccs_configuration_t *)o); });
  vm.out("cs_default " + vm.rname(e)); Vec<Val> d; bool ok = s->foreign ? e >= 0 : m_default(*s, d); vm.judge("space", e, ok, "asking for the default configuration"); if (e < 0) return;
  P o = vm.made(op, K_CONF, h, ""); o->space = s; o->values = d; o->foreign = s->foreign;
  vm.out("  " + atext(h, 0));
  if (vm.cfg.models && !o->foreign) vm.check_content("space", [&](const Obj &x) { return &x == o.get(); });
}
OP(cs_checkv) { // cs (t v)*
  Rd r(op); P s = vm.get(r.n(), K_CSPACE); if (!s || s->foreign) SKIP; Data d; Vec<Val> vs;
  while (r.more()) { size_t i = vs.size(); Dat x = rd_dat(vm, r, i < s->params.size() ? s->params[i].get() : nullptr); if (!x.ok) SKIP; x.tr = false; vs.push_back(x.v); d.add(x); }
  if (vs.empty()) SKIP;
  ccs_bool_t b = (ccs_bool_t)7;
  ccs_result_t e = vm.call([&] { return ccs_configuration_space_check_configuration_values((ccs_configuration_space_t)s->h, d.d.size(), d.d.data(), &b); });
  int m = m_check(*s, vs, nullptr); vm.out("cs_check " + (m_undecided(*s, vs) && !(e >= 0 && b) ? Str("undecided") : vm.rname(e) + (e >= 0 ? fmt(" %d", (int)b) : "")));
  if (vm.cfg.models && vs.size() == s->params.size()) {
    Str t = "["; for (auto &x : vs) t += vtext(x) + " "; t += "]";
    if (m == 1 && (e < 0 || !b)) vm.bad("check", "valid values " + t + " were reported as not valid: " + vm.rname(e));
    if (m == 0 && e >= 0 && b) vm.bad("check", "invalid values " + t + " were reported as valid");
    if (m == -1 && e >= 0 && b) vm.bad("check", "values " + t + " for which a clause cannot be evaluated were reported as valid");
  }
}
OP(cs_look) { // cs: lookups by name / list, including absent ones
  Rd r(op); P s = vm.get(r.n(), -1); if (!s || s->foreign || (s->kind != K_CSPACE && s->kind != K_FSPACE && s->kind != K_OSPACE)) SKIP;
  Str nm = mkname("p", r.n()); size_t ix = 999; ccs_result_t e;
  e = vm.call([&] { return s->kind == K_CSPACE ? ccs_configuration_space_get_parameter_index_by_name((ccs_configuration_space_t)s->h, nm.c_str(), &ix) : s->kind == K_FSPACE ? ccs_features_space_get_parameter_index_by_name((ccs_features_space_t)s->h, nm.c_str(), &ix) : ccs_objective_space_get_parameter_index_by_name((ccs_objective_space_t)s->h, nm.c_str(), &ix); });
  size_t want = 999; for (size_t i = 0; i < s->params.size(); i++) if (s->params[i]->name == nm) want = i;
  vm.out("look " + vm.rname(e) + fmt(" %zu", e < 0 ? 999 : ix));
  vm.judge("space", e, want != 999, "looking up " + nm); if (e >= 0 && vm.cfg.models && ix != want) vm.bad("space", fmt("parameter %s found at %zu instead of %zu", nm.c_str(), ix, want));
}
// ---- features and objective spaces ----------------------------------------------------
OP(fs_new) { Rd r(op); Str name = mkname("fs", r.n()); ccs_object_t h; ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) { return ccs_create_features_space(name.c_str(), (ccs_features_space_t *)o); }); vm.out("fs " + vm.rname(e)); if (e >= 0) vm.made(op, K_FSPACE, h, name); }
OP(os_new) { Rd r(op); Str name = mkname("os", r.n()); ccs_object_t h; ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) { return ccs_create_objective_space(name.c_str(), (ccs_objective_space_t *)o); }); vm.out("os " + vm.rname(e)); if (e >= 0) vm.made(op, K_OSPACE, h, name); }
OP(sp_add) { // fs|os param...   one: add_parameter, more: add_parameters
  Rd r(op); P s = vm.get(r.n(), -1); if (!s || s->foreign || (s->kind != K_FSPACE && s->kind != K_OSPACE) || !grow_ok(vm, s)) SKIP; Vec<P> ps; Vec<ccs_parameter_t> ph; while (r.more()) { P p = vm.get(r.n(), K_PARAM); if (!p || p->foreign) SKIP; ps.push_back(p); ph.push_back((ccs_parameter_t)p->h); }
  if (ps.empty()) SKIP; bool fs = s->kind == K_FSPACE;
  std::set<Str> nm; for (auto &p : s->params) nm.insert(p->name); size_t k = 0; while (k < ps.size() && nm.insert(ps[k]->name).second) k++;
  ccs_result_t e = vm.call([&] {
    if (ps.size() == 1) return fs ? ccs_features_space_add_parameter((ccs_features_space_t)s->h, ph[0]) : ccs_objective_space_add_parameter((ccs_objective_space_t)s->h, ph[0]);
    return fs ? ccs_features_space_add_parameters((ccs_features_space_t)s->h, ph.size(), ph.data()) : ccs_objective_space_add_parameters((ccs_objective_space_t)s->h, ph.size(), ph.data()); });
  vm.out("sp_add " + vm.rname(e)); vm.judge("accept", e, k == ps.size(), "adding parameters"); for (size_t i = 0; i < k; i++) s->params.push_back(ps[i]);
  if (vm.cfg.models) vm.check_content("space", [&](const Obj &o) { return &o == s.get(); });
}
OP(os_obj) { // os (expr type)...
  Rd r(op); P s = vm.get(r.n(), K_OSPACE); if (!s || s->foreign || !grow_ok(vm, s)) SKIP; Vec<P> xs; Vec<ccs_expression_t> hs; Vec<ccs_objective_type_t> ts; while (r.more()) { P x = vm.get(r.n(), K_EXPR); if (!x || x->foreign) SKIP; xs.push_back(x); hs.push_back((ccs_expression_t)x->h); ts.push_back(r.n() & 1 ? CCS_OBJECTIVE_TYPE_MAXIMIZE : CCS_OBJECTIVE_TYPE_MINIMIZE); }
  if (xs.empty()) SKIP; size_t k = 0; while (k < xs.size() && closed(xs[k], *s)) k++;
  ccs_result_t e = vm.call([&] { return xs.size() == 1 ? ccs_objective_space_add_objective((ccs_objective_space_t)s->h, hs[0], ts[0]) : ccs_objective_space_add_objectives((ccs_objective_space_t)s->h, hs.size(), hs.data(), ts.data()); });
  vm.out("os_obj " + vm.rname(e)); vm.judge("accept", e, k == xs.size(), "adding objectives"); for (size_t i = 0; i < k; i++) s->objs.push_back({xs[i], (int)ts[i]});
  if (vm.cfg.models) vm.check_content("space", [&](const Obj &o) { return &o == s.get(); });
}
// ---- bindings ----------------------------------------------------------------------------
static bool rd_vals(VM &vm, Rd &r, const Obj &space, Data &d, Vec<Val> &vs, bool &ok) {
  ok = true;
  while (r.more()) { size_t i = vs.size(); const Obj *p = i < space.params.size() ? space.params[i].get() : nullptr; Dat x = rd_dat(vm, r, p); if (!x.ok || x.v.t == T_OBJECT) return false; if (x.tr && (!p || !m_in_domain(*p, x.v))) ok = false; vs.push_back(x.v); d.add(x); }
  if (!vs.empty() && vs.size() != space.params.size()) ok = false;
  return true;
}
static Vec<Val> blank(const Obj &space) { Vec<Val> v(space.params.size()); return v; }
OP(conf_new) { // cs (t v)*
  Rd r(op); P s = vm.get(r.n(), K_CSPACE); if (!s || s->foreign) SKIP; ccs_object_t h; Vec<Val> vs; bool ok; ccs_result_t e;
  { Data d; if (!rd_vals(vm, r, *s, d, vs, ok)) SKIP;
    e = vm.create(&h, [&](ccs_object_t *o) { return ccs_create_configuration((ccs_configuration_space_t)s->h, d.d.size(), d.d.empty() ? nullptr : d.d.data(), (ccs_configuration_t *)o); }); }
  vm.out("conf " + vm.rname(e)); vm.judge("content", e, ok, "creating a configuration"); if (e < 0) return;
  P o = vm.made(op, K_CONF, h, ""); o->space = s; o->values = vs.empty() ? blank(*s) : vs; vm.out("  " + atext(h, 0));
}
OP(feat_new) { // fs (t v)*
  Rd r(op); P s = vm.get(r.n(), K_FSPACE); if (!s || s->foreign) SKIP; ccs_object_t h; Vec<Val> vs; bool ok; ccs_result_t e;
  { Data d; if (!rd_vals(vm, r, *s, d, vs, ok)) SKIP;
    e = vm.create(&h, [&](ccs_object_t *o) { return ccs_create_features((ccs_features_space_t)s->h, d.d.size(), d.d.empty() ? nullptr : d.d.data(), (ccs_features_t *)o); }); }
  vm.out("feat " + vm.rname(e)); vm.judge("content", e, ok, "creating features"); if (e < 0) return;
  P o = vm.made(op, K_FEAT, h, ""); o->space = s; o->values = vs.empty() ? blank(*s) : vs; vm.out("  " + atext(h, 0));
}
OP(eval_new) { // os conf feat(-1) result (t v)*  : kind follows the configuration (plain, features when feat>=0, tree)
  Rd r(op); P s = vm.get(r.n(), K_OSPACE), c = vm.get(r.n(), -1); int64_t fk = r.n(-1); P f = fk < 0 ? nullptr : vm.get(fk, K_FEAT); int res = (int)r.n();
  if (!s || !c || s->foreign || c->foreign || (c->kind != K_CONF && c->kind != K_TCONF) || (fk >= 0 && (!f || f->foreign || c->kind != K_CONF))) SKIP;
  ccs_object_t h; Vec<Val> vs; bool ok; ccs_result_t e; Kind k = c->kind == K_TCONF ? K_TEVAL : f ? K_FEVAL : K_EVAL;
  { Data d; if (!rd_vals(vm, r, *s, d, vs, ok)) SKIP;
    e = vm.create(&h, [&](ccs_object_t *o) {
      ccs_objective_space_t os = (ccs_objective_space_t)s->h; size_t n = d.d.size(); ccs_datum_t *v = n ? d.d.data() : nullptr;
      if (k == K_TEVAL) return ccs_create_tree_evaluation(os, (ccs_tree_configuration_t)c->h, (ccs_evaluation_result_t)res, n, v, (ccs_tree_evaluation_t *)o);
      if (k == K_FEVAL) return ccs_create_features_evaluation(os, (ccs_configuration_t)c->h, (ccs_features_t)f->h, (ccs_evaluation_result_t)res, n, v, (ccs_features_evaluation_t *)o);
      return ccs_create_evaluation(os, (ccs_configuration_t)c->h, (ccs_evaluation_result_t)res, n, v, (ccs_evaluation_t *)o); }); }
  vm.out("eval " + vm.rname(e)); vm.judge("content", e, ok, "creating an evaluation"); if (e < 0) return;
  P o = vm.made(op, k, h, ""); o->ospace = s; o->conf = c; o->feat = f; o->result = res; o->values = vs.empty() ? blank(*s) : vs; vm.out("  " + atext(h, 0));
}
OP(bind_set) { // slot idx (t v)
  Rd r(op); P o = vm.get(r.n(), -1); size_t ix = (size_t)r.n(); if (!o || o->foreign || o->told) SKIP;
  const Obj *sp = o->kind == K_CONF || o->kind == K_FEAT ? o->space.get() : o->kind == K_EVAL || o->kind == K_FEVAL || o->kind == K_TEVAL ? o->ospace.get() : nullptr; if (!sp) SKIP;
  const Obj *p = ix < sp->params.size() ? sp->params[ix].get() : nullptr; ccs_result_t e; Dat x;
  { Data d; x = rd_dat(vm, r, p); if (!x.ok || x.v.t == T_OBJECT) SKIP; d.add(x);
    e = vm.call([&] { switch (o->kind) { case K_CONF: return ccs_configuration_set_value((ccs_configuration_t)o->h, ix, d.d[0]); case K_FEAT: return ccs_features_set_value((ccs_features_t)o->h, ix, d.d[0]); case K_EVAL: return ccs_evaluation_set_value((ccs_evaluation_t)o->h, ix, d.d[0]); case K_FEVAL: return ccs_features_evaluation_set_value((ccs_features_evaluation_t)o->h, ix, d.d[0]); default: return ccs_tree_evaluation_set_value((ccs_tree_evaluation_t)o->h, ix, d.d[0]); } }); }
  bool ok = ix < o->values.size() && (!x.tr || (p && m_in_domain(*p, x.v)));
  vm.out("bind_set " + vm.rname(e)); vm.judge("content", e, ok, "setting a value"); if (e >= 0 && ix < o->values.size()) o->values[ix] = x.v;
  if (vm.cfg.models) vm.check_content("content", [&](const Obj &y) { return &y == o.get(); });
}
OP(eval_res) { // slot result
  Rd r(op); P o = vm.get(r.n(), -1); int res = (int)r.n(); if (!o || o->foreign || o->told || (o->kind != K_EVAL && o->kind != K_FEVAL && o->kind != K_TEVAL)) SKIP;
  ccs_result_t e = vm.call([&] { return o->kind == K_EVAL ? ccs_evaluation_set_result((ccs_evaluation_t)o->h, (ccs_evaluation_result_t)res) : o->kind == K_FEVAL ? ccs_features_evaluation_set_result((ccs_features_evaluation_t)o->h, (ccs_evaluation_result_t)res) : ccs_tree_evaluation_set_result((ccs_tree_evaluation_t)o->h, (ccs_evaluation_result_t)res); });
  vm.out("eval_res " + vm.rname(e)); vm.judge("content", e, true, "setting a result"); if (e >= 0) o->result = res;
  if (vm.cfg.models) vm.check_content("content", [&](const Obj &y) { return &y == o.get(); });
}
OP(bind_check) { // slot
  Rd r(op); P o = vm.get(r.n(), -1); if (!o || o->foreign) SKIP; ccs_bool_t b = (ccs_bool_t)7; ccs_result_t e; int m = 2;
  auto dom = [&](const Obj &sp) { if (o->values.size() != sp.params.size()) return 2; for (size_t i = 0; i < o->values.size(); i++) if (!m_in_domain(*sp.params[i], o->values[i])) return 0; return 1; };
  switch (o->kind) {
  case K_CONF: e = vm.call([&] { return ccs_configuration_check((ccs_configuration_t)o->h, &b); }); m = o->values.size() == o->space->params.size() ? m_check(*o->space, o->values, nullptr) : 2; break;
  case K_FEAT: e = vm.call([&] { return ccs_features_check((ccs_features_t)o->h, &b); }); m = dom(*o->space); break;
  case K_EVAL: e = vm.call([&] { return ccs_evaluation_check((ccs_evaluation_t)o->h, &b); }); m = dom(*o->ospace); break;
  case K_FEVAL: e = vm.call([&] { return ccs_features_evaluation_check((ccs_features_evaluation_t)o->h, &b); }); m = dom(*o->ospace); break;
  case K_TEVAL: e = vm.call([&] { return ccs_tree_evaluation_check((ccs_tree_evaluation_t)o->h, &b); }); m = dom(*o->ospace); break;
  default: SKIP;
  }
  vm.out("bind_check " + (o->kind == K_CONF && m_undecided(*o->space, o->values) && !(e >= 0 && b) ? Str("undecided") : vm.rname(e) + (e >= 0 ? fmt(" %d", (int)b) : "")));
  if (!vm.cfg.models) return;
  if (m == 1 && (e < 0 || !b)) vm.bad("check", "a valid object was reported as not valid: " + mtext(vm, o) + " " + vm.rname(e));
  if ((m == 0 || m == -1) && e >= 0 && b) vm.bad("check", "an invalid object was reported as valid: " + mtext(vm, o));
}
static bool same_binding(const Obj &a, const Obj &b) {
  if (a.kind != b.kind) return false;
  if (a.kind == K_CONF || a.kind == K_FEAT) return a.space == b.space && a.values == b.values;
  if (a.kind == K_TCONF) return a.ts == b.ts && a.pos == b.pos;
  if (a.ospace != b.ospace || a.result != b.result || !(a.values == b.values)) return false;
  if (a.kind == K_FEVAL && !same_binding(*a.feat, *b.feat)) return false;
  return same_binding(*a.conf, *b.conf);
}
static bool hash_of(const P &o, ccs_hash_t *h) {
  switch (o->kind) {
  case K_CONF: return ccs_configuration_hash((ccs_configuration_t)o->h, h) >= 0; case K_FEAT: return ccs_features_hash((ccs_features_t)o->h, h) >= 0; case K_EVAL: return ccs_evaluation_hash((ccs_evaluation_t)o->h, h) >= 0;
  case K_FEVAL: return ccs_features_evaluation_hash((ccs_features_evaluation_t)o->h, h) >= 0; case K_TEVAL: return ccs_tree_evaluation_hash((ccs_tree_evaluation_t)o->h, h) >= 0; case K_TCONF: return ccs_tree_configuration_hash((ccs_tree_configuration_t)o->h, h) >= 0;
  default: return false; }
}
static ccs_result_t cmp_of(const P &a, const P &b, int *c) {
  switch (a->kind) {
  case K_CONF: return ccs_configuration_cmp((ccs_configuration_t)a->h, (ccs_configuration_t)b->h, c); case K_FEAT: return ccs_features_cmp((ccs_features_t)a->h, (ccs_features_t)b->h, c); case K_EVAL: return ccs_evaluation_cmp((ccs_evaluation_t)a->h, (ccs_evaluation_t)b->h, c);
  case K_FEVAL: return ccs_features_evaluation_cmp((ccs_features_evaluation_t)a->h, (ccs_features_evaluation_t)b->h, c); case K_TEVAL: return ccs_tree_evaluation_cmp((ccs_tree_evaluation_t)a->h, (ccs_tree_evaluation_t)b->h, c); default: return ccs_tree_configuration_cmp((ccs_tree_configuration_t)a->h, (ccs_tree_configuration_t)b->h, c); }
}
OP(cmp) { // a b : equality, antisymmetry, hash agreement
  Rd r(op); P a = vm.get(r.n(), -1), b = vm.get(r.n(), -1); if (!a || !b || a->kind != b->kind || a->foreign || b->foreign) SKIP;
  ccs_hash_t ha = 0, hb = 0, ha2 = 0; if (!hash_of(a, &ha) || !hash_of(b, &hb) || !hash_of(a, &ha2)) { ccs_clear_thread_error(); SKIP; }
  int c1 = 7, c2 = 7; ccs_result_t e = vm.call([&] { return cmp_of(a, b, &c1); }); if (e >= 0) e = cmp_of(b, a, &c2);
  bool same = same_binding(*a, *b);
  vm.out("cmp " + vm.rname(e) + fmt(" %d", c1 == 0));
  if (!vm.cfg.models) return;
  if (e < 0) vm.bad("hashcmp", "comparison failed: " + vm.rname(e));
  if ((c1 < 0) != (c2 > 0) || (c1 == 0) != (c2 == 0)) vm.bad("hashcmp", fmt("comparison is not antisymmetric: %d and %d", c1, c2));
  if (same != (c1 == 0)) vm.bad("hashcmp", Str(same ? "equal" : "different") + " objects compare as " + (c1 ? "different" : "equal") + ":\n" + mtext(vm, a) + "\n" + mtext(vm, b));
  if (same && ha != hb) vm.bad("hashcmp", "equal objects have different hashes: " + mtext(vm, a));
  if (ha != ha2) vm.bad("hashcmp", "the hash of an object changes");
  // order is independent of unrelated activity for values of one space: first differing value decides
  if (!same && (a->kind == K_CONF || a->kind == K_FEAT) && a->space == b->space && a->values.size() == b->values.size()) vm.out(fmt("  order %d", c1));
}
OP(clone) { // slot tr near : an equal object built again from its values; near != 0 changes one detail
  Rd r(op); P a = vm.get(r.n(), -1); bool tr = r.n() & 1; uint64_t near = (uint64_t)r.n(); if (!a || a->foreign || a->weird) SKIP; P sp = a->kind == K_CONF || a->kind == K_FEAT ? a->space : a->ospace;
  if (a->kind == K_TCONF && a->ts) { ccs_object_t h; Vec<size_t> pos = a->pos; P ts = a->ts; if (near) SKIP; ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) { return ccs_create_tree_configuration((ccs_tree_space_t)ts->h, pos.size(), pos.data(), (ccs_tree_configuration_t *)o); });
    vm.out("clone " + vm.rname(e)); vm.judge("tree", e, true, "building a tree configuration again"); if (e < 0) return; P o = vm.made(op, K_TCONF, h, ""); o->ts = ts; o->pos = pos; o->pvals = a->pvals; vm.out("  " + atext(h, 0)); return; }
  if (a->kind != K_CONF && a->kind != K_FEAT && a->kind != K_EVAL && a->kind != K_FEVAL && a->kind != K_TEVAL) SKIP;
  if (!sp || sp->foreign || a->values.size() != sp->params.size() || (a->conf && a->conf->foreign) || (a->feat && a->feat->foreign)) SKIP;
  ccs_object_t h; ccs_result_t e; Vec<Val> vs = a->values; int result = a->result; P conf = a->conf, feat = a->feat;
  if (near) {
    uint64_t q = near / 8, w = near % 8; auto other = [&](const P &x) { Vec<P> c; for (auto &s : vm.slots) if (s.second->kind == x->kind && s.second != x && !s.second->foreign) c.push_back(s.second); return c.empty() ? x : c[q % c.size()]; };
    if (a->kind != K_CONF && a->kind != K_FEAT && w < 2) { static const int rs[] = {-1, -2, -3, 256, -256, 65536, 128, 1}; result = result && q % 3 ? 0 : result == rs[q % 8] ? 0 : rs[q % 8]; }
    else if (conf && w == 2) conf = other(conf); else if (feat && w == 3) feat = other(feat);
    else if (!vs.empty()) { size_t i = w < 6 ? vs.size() - 1 : q % vs.size(); Val &v = vs[i]; if (v.t == T_INT) v.i += q & 1 ? 1 : -1; else if (v.t == T_FLOAT) v.f = q & 1 ? v.f + 1 : std::nextafter(v.f, 1e9); else if (v.t == T_BOOL) v.i ^= 1; else if (v.t == T_STRING) v.s += q & 1 ? "x" : ""; else { v = Val(); v.t = T_INT; v.i = (int64_t)(q % 5); } }
  }
  { Data d; for (size_t i = 0; i < vs.size(); i++) { Dat x; x.v = vs[i]; if (x.v.t == T_OBJECT) SKIP; x.tr = tr && x.v.t == T_STRING && m_in_domain(*sp->params[i], x.v); d.add(x); }
    size_t n = d.d.size(); ccs_datum_t *v = n ? d.d.data() : nullptr;
    e = vm.create(&h, [&](ccs_object_t *o) { switch (a->kind) {
      case K_CONF: return ccs_create_configuration((ccs_configuration_space_t)sp->h, n, v, (ccs_configuration_t *)o);
      case K_FEAT: return ccs_create_features((ccs_features_space_t)sp->h, n, v, (ccs_features_t *)o);
      case K_EVAL: return ccs_create_evaluation((ccs_objective_space_t)sp->h, (ccs_configuration_t)conf->h, (ccs_evaluation_result_t)result, n, v, (ccs_evaluation_t *)o);
      case K_FEVAL: return ccs_create_features_evaluation((ccs_objective_space_t)sp->h, (ccs_configuration_t)conf->h, (ccs_features_t)feat->h, (ccs_evaluation_result_t)result, n, v, (ccs_features_evaluation_t *)o);
      default: return ccs_create_tree_evaluation((ccs_objective_space_t)sp->h, (ccs_tree_configuration_t)conf->h, (ccs_evaluation_result_t)result, n, v, (ccs_tree_evaluation_t *)o); } }); }
  vm.out("clone " + vm.rname(e)); vm.judge("content", e, true, "building an object again from its values"); if (e < 0) return;
  P o = vm.made(op, a->kind, h, ""); o->values = vs; if (a->kind == K_CONF || a->kind == K_FEAT) o->space = sp; else { o->ospace = sp; o->conf = conf; o->feat = feat; o->result = result; }
  vm.out("  " + atext(h, 0));
}
OP(eval_compare) { // a b
  Rd r(op); P a = vm.get(r.n(), -1), b = vm.get(r.n(), -1); if (!a || !b || a->kind != b->kind || a->foreign || b->foreign || (a->kind != K_EVAL && a->kind != K_FEVAL && a->kind != K_TEVAL)) SKIP;
  ccs_comparison_t c = (ccs_comparison_t)77;
  ccs_result_t e = vm.call([&] { return a->kind == K_EVAL ? ccs_evaluation_compare((ccs_evaluation_t)a->h, (ccs_evaluation_t)b->h, &c) : a->kind == K_FEVAL ? ccs_features_evaluation_compare((ccs_features_evaluation_t)a->h, (ccs_features_evaluation_t)b->h, &c) : ccs_tree_evaluation_compare((ccs_tree_evaluation_t)a->h, (ccs_tree_evaluation_t)b->h, &c); });
  int m = m_compare(*a, *b); vm.out("eval_compare " + vm.rname(e) + (e >= 0 ? fmt(" %d", (int)c) : ""));
  if (!vm.cfg.models) return;
  if (m == 3 && e >= 0 && c == CCS_COMPARISON_NOT_COMPARABLE && !a->result && !b->result && a->ospace == b->ospace) return;   // decided before the objective that cannot be computed
  vm.judge("compare", e, m != 3, "comparing evaluations");
  int w = m == -1 ? CCS_COMPARISON_BETTER : m == 0 ? CCS_COMPARISON_EQUIVALENT : m == 1 ? CCS_COMPARISON_WORSE : CCS_COMPARISON_NOT_COMPARABLE;
  if (e >= 0 && (int)c != w) vm.bad("compare", fmt("comparison %d instead of %d for\n", (int)c, w) + mtext(vm, a) + "\n" + mtext(vm, b));
}
