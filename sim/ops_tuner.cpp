// Tuners: plain, features and tree; random and user-defined.
#include "vm.h"
P vm_take_conf(VM &vm, ccs_object_t c, const P &space, const char *cls, const char *what, bool fresh);
P vm_take_tconf(VM &vm, ccs_object_t c, const P &space, const char *cls, const char *what, bool fresh);

static bool is_tuner(const P &t) { return t && (t->kind == K_TUNER || t->kind == K_FTUNER || t->kind == K_TTUNER); }
static const char *tcls(const Obj &t) { return t.kind == K_FTUNER ? "ftuner" : "tuner"; }
static ccs_result_t t_ask(const P &t, ccs_object_t f, size_t n, ccs_object_t *c, size_t *nr) {
  switch (t->kind) {
  case K_TUNER: return ccs_tuner_ask((ccs_tuner_t)t->h, n, (ccs_configuration_t *)c, nr);
  case K_FTUNER: return ccs_features_tuner_ask((ccs_features_tuner_t)t->h, (ccs_features_t)f, n, (ccs_configuration_t *)c, nr);
  default: return ccs_tree_tuner_ask((ccs_tree_tuner_t)t->h, n, (ccs_tree_configuration_t *)c, nr); }
}
static ccs_result_t t_tell(const P &t, size_t n, ccs_object_t *e) {
  switch (t->kind) {
  case K_TUNER: return ccs_tuner_tell((ccs_tuner_t)t->h, n, (ccs_evaluation_t *)e);
  case K_FTUNER: return ccs_features_tuner_tell((ccs_features_tuner_t)t->h, n, (ccs_features_evaluation_t *)e);
  default: return ccs_tree_tuner_tell((ccs_tree_tuner_t)t->h, n, (ccs_tree_evaluation_t *)e); }
}
static ccs_result_t t_suggest(const P &t, ccs_object_t f, ccs_object_t *c) {
  switch (t->kind) {
  case K_TUNER: return ccs_tuner_suggest((ccs_tuner_t)t->h, (ccs_configuration_t *)c);
  case K_FTUNER: return ccs_features_tuner_suggest((ccs_features_tuner_t)t->h, (ccs_features_t)f, (ccs_configuration_t *)c);
  default: return ccs_tree_tuner_suggest((ccs_tree_tuner_t)t->h, (ccs_tree_configuration_t *)c); }
}
static ccs_result_t t_hist(const P &t, bool opt, ccs_object_t f, size_t n, ccs_object_t *e, size_t *nr) {
  switch (t->kind) {
  case K_TUNER: return (opt ? ccs_tuner_get_optima : ccs_tuner_get_history)((ccs_tuner_t)t->h, n, (ccs_evaluation_t *)e, nr);
  case K_FTUNER: return (opt ? ccs_features_tuner_get_optima : ccs_features_tuner_get_history)((ccs_features_tuner_t)t->h, (ccs_features_t)f, n, (ccs_features_evaluation_t *)e, nr);
  default: return (opt ? ccs_tree_tuner_get_optima : ccs_tree_tuner_get_history)((ccs_tree_tuner_t)t->h, n, (ccs_tree_evaluation_t *)e, nr); }
}
static bool same_feat(const Obj &a, const Obj &b) { return &a == &b || (a.space == b.space && a.values == b.values); }
Vec<P> m_hist_for(const Obj &t, const P &f) { if (!f) return t.hist; Vec<P> r; for (auto &e : t.hist) if (e->feat && same_feat(*e->feat, *f)) r.push_back(e); return r; }

// ---- user-defined tuners: callbacks. They never throw; findings are deferred. ----------
static UserTuner *ut_of(ccs_object_t o, int k) {
  void *d = nullptr; ccs_result_t r = k == K_TUNER ? ccs_user_defined_tuner_get_tuner_data((ccs_tuner_t)o, &d) : k == K_FTUNER ? ccs_user_defined_features_tuner_get_tuner_data((ccs_features_tuner_t)o, &d) : k == K_TTUNER ? ccs_user_defined_tree_tuner_get_tuner_data((ccs_tree_tuner_t)o, &d) : ccs_dynamic_tree_space_get_tree_space_data((ccs_tree_space_t)o, &d);
  return r < 0 ? nullptr : (UserTuner *)d;
}
static size_t state_bytes(int64_t c) { uint64_t x = (uint64_t)c; if (!x) return 0; if (x < 256 && x % 6 == 1) return 1; return 8 + (size_t)(x % 5) + (x % 9 == 4 ? 115 + (size_t)(x % 7) : 0) + (x % 83 == 7 ? 16370 : 0); }
static void state_put(int64_t c, void *p, int fill) { size_t n = state_bytes(c); memset(p, fill, n); if (n == 1) *(unsigned char *)p = (unsigned char)c; else if (n) memcpy(p, &c, 8); }
static bool state_get(int64_t *c, size_t n, const void *p) { *c = 0; if (!n) return true; if (!p || (n > 1 && n < 8)) return false; if (n == 1) *c = *(const unsigned char *)p; else memcpy(c, p, 8); return true; }
static bool ut_known(VM *vm, UserTuner *u) { for (auto &x : vm->uts) if (x.get() == u) return true; return false; }
static thread_local VM *g_vm = nullptr;
void ut_set_vm(VM *vm) { g_vm = vm; }
uint64_t ut_salt() { return g_vm ? ++g_vm->salt * 0x9e3779b97f4a7c15ULL : 0; }
#define UT_ENTER(K, O) \
  UserTuner *u = ut_of((ccs_object_t)(O), K); if (!u || !ut_known(g_vm, u) || u->kind != K) { if (g_vm) g_vm->defer("cb", "a callback was called with foreign user data"); return CCS_RESULT_ERROR_INVALID_VALUE; } \
  { ccs_result_t err_; if (u->vm->cb_should_fail(&err_)) return err_; }
static ccs_result_t ut_del(ccs_object_t o, int k) {
  UserTuner *u = ut_of(o, k); if (!u || !ut_known(g_vm, u)) { if (g_vm) g_vm->defer("cb", "the del callback was called with foreign user data"); return CCS_RESULT_SUCCESS; }
  if (u->dels++) u->vm->defer("cb", "the del callback ran twice");
  for (auto h : u->hist) ccs_release_object(h);
  for (auto h : u->optima) ccs_release_object(h);
  u->hist.clear(); u->optima.clear(); return CCS_RESULT_SUCCESS;
}
static ccs_result_t ut_state(UserTuner *u, size_t n, void *p, size_t *nr) {
  if (u->vm->cb_count < 0) return CCS_RESULT_ERROR_EXTERNAL;
  size_t need = state_bytes(u->counter);
  if (p) { if (n < need) return CCS_RESULT_ERROR_INVALID_VALUE; state_put(u->counter, p, 0x5a); }
  if (nr) *nr = need;
  return CCS_RESULT_SUCCESS;
}
static ccs_result_t ut_restore(UserTuner *u, size_t nh, ccs_object_t *h, size_t no, ccs_object_t *o, size_t n, const void *p) {
  int64_t c = 0; if (u->opt & 2) { if (n) u->vm->defer("roundtrip", fmt("%zu bytes of state are restored although none can be saved", n)); }
  else if (!state_get(&c, n, p)) { u->vm->defer("roundtrip", fmt("the state restored to the user is %zu bytes long%s", n, p ? "" : " and missing")); return CCS_RESULT_ERROR_INVALID_VALUE; }
  else if (n != state_bytes(c)) u->vm->defer("roundtrip", "the user state came back with another size");
  u->counter = c;
  for (size_t i = 0; i < nh; i++) { ccs_retain_object(h[i]); u->hist.push_back(h[i]); }
  for (size_t i = 0; i < no; i++) { ccs_retain_object(o[i]); u->optima.push_back(o[i]); }
  return CCS_RESULT_SUCCESS;
}
template <class T> static ccs_result_t ut_list(const Vec<ccs_object_t> &l, size_t n, T *e, size_t *nr) {
  if (e) { if (n < l.size()) return CCS_RESULT_ERROR_INVALID_VALUE; for (size_t i = 0; i < n; i++) e[i] = i < l.size() ? (T)l[i] : nullptr; }
  if (nr) *nr = l.size();
  return CCS_RESULT_SUCCESS;
}
template <class T> static ccs_result_t ut_tell(UserTuner *u, size_t n, T *e) {
  if (!n) return CCS_RESULT_SUCCESS;   // an empty history is handed to tell when there is no state deserializer
  for (size_t i = 0; i < n; i++) { ccs_result_t r = ccs_retain_object((ccs_object_t)e[i]); if (r < 0) return r; }
  for (auto h : u->optima) ccs_release_object(h);
  u->optima.clear(); u->counter += 3 * (int64_t)n + 1;
  for (size_t i = 0; i < n; i++) u->hist.push_back((ccs_object_t)e[i]);
  ccs_retain_object(u->hist.back()); u->optima.push_back(u->hist.back());
  return CCS_RESULT_SUCCESS;
}
// plain
static ccs_result_t pd(ccs_tuner_t t) { return ut_del((ccs_object_t)t, K_TUNER); }
static ccs_result_t pask(ccs_tuner_t t, size_t n, ccs_configuration_t *c, size_t *nr) {
  UT_ENTER(K_TUNER, t); if (!c) { *nr = 1; return CCS_RESULT_SUCCESS; }
  ccs_configuration_space_t cs; ccs_result_t r = ccs_tuner_get_configuration_space(t, &cs); if (r < 0) return r;
  r = ccs_configuration_space_samples(cs, n, c); if (r >= 0) { u->counter++; if (nr) *nr = n; } return r;
}
static ccs_result_t ptell(ccs_tuner_t t, size_t n, ccs_evaluation_t *e) { UT_ENTER(K_TUNER, t); return ut_tell(u, n, e); }
static ccs_result_t popt(ccs_tuner_t t, size_t n, ccs_evaluation_t *e, size_t *nr) { UT_ENTER(K_TUNER, t); return ut_list(u->optima, n, e, nr); }
static ccs_result_t phist(ccs_tuner_t t, size_t n, ccs_evaluation_t *e, size_t *nr) { UT_ENTER(K_TUNER, t); return ut_list(u->hist, n, e, nr); }
static ccs_result_t psug(ccs_tuner_t t, ccs_configuration_t *c) {
  UT_ENTER(K_TUNER, t);
  if (u->hist.size()) { ccs_configuration_t x; ccs_result_t r = ccs_evaluation_get_configuration((ccs_evaluation_t)u->hist[(size_t)(u->opt & 6 ? 0 : u->counter) % u->hist.size()], &x); if (r < 0) return r; r = ccs_retain_object(x); if (r < 0) return r; *c = x; return r; }
  ccs_configuration_space_t cs; ccs_result_t r = ccs_tuner_get_configuration_space(t, &cs); if (r < 0) return r; return ccs_configuration_space_sample(cs, c);
}
static ccs_result_t pser(ccs_tuner_t t, size_t n, void *p, size_t *nr) { UT_ENTER(K_TUNER, t); return ut_state(u, n, p, nr); }
static ccs_result_t pdes(ccs_tuner_t t, size_t nh, ccs_evaluation_t *h, size_t no, ccs_evaluation_t *o, size_t n, const void *p) { UT_ENTER(K_TUNER, t); return ut_restore(u, nh, (ccs_object_t *)h, no, (ccs_object_t *)o, n, p); }
// features
static ccs_result_t fd_(ccs_features_tuner_t t) { return ut_del((ccs_object_t)t, K_FTUNER); }
static ccs_result_t fask(ccs_features_tuner_t t, ccs_features_t, size_t n, ccs_configuration_t *c, size_t *nr) {
  UT_ENTER(K_FTUNER, t); if (!c) { *nr = 1; return CCS_RESULT_SUCCESS; }
  ccs_configuration_space_t cs; ccs_result_t r = ccs_features_tuner_get_configuration_space(t, &cs); if (r < 0) return r;
  r = ccs_configuration_space_samples(cs, n, c); if (r >= 0) { u->counter++; if (nr) *nr = n; } return r;
}
static ccs_result_t ftell(ccs_features_tuner_t t, size_t n, ccs_features_evaluation_t *e) { UT_ENTER(K_FTUNER, t); return ut_tell(u, n, e); }
static ccs_result_t fopt(ccs_features_tuner_t t, ccs_features_t, size_t n, ccs_features_evaluation_t *e, size_t *nr) { UT_ENTER(K_FTUNER, t); return ut_list(u->optima, n, e, nr); }
static ccs_result_t fhist(ccs_features_tuner_t t, ccs_features_t, size_t n, ccs_features_evaluation_t *e, size_t *nr) { UT_ENTER(K_FTUNER, t); return ut_list(u->hist, n, e, nr); }
static ccs_result_t fsug(ccs_features_tuner_t t, ccs_features_t, ccs_configuration_t *c) {
  UT_ENTER(K_FTUNER, t);
  if (u->hist.size()) { ccs_configuration_t x; ccs_result_t r = ccs_features_evaluation_get_configuration((ccs_features_evaluation_t)u->hist[(size_t)(u->opt & 6 ? 0 : u->counter) % u->hist.size()], &x); if (r < 0) return r; r = ccs_retain_object(x); if (r < 0) return r; *c = x; return r; }
  ccs_configuration_space_t cs; ccs_result_t r = ccs_features_tuner_get_configuration_space(t, &cs); if (r < 0) return r; return ccs_configuration_space_sample(cs, c);
}
static ccs_result_t fser(ccs_features_tuner_t t, size_t n, void *p, size_t *nr) { UT_ENTER(K_FTUNER, t); return ut_state(u, n, p, nr); }
static ccs_result_t fdes(ccs_features_tuner_t t, size_t nh, ccs_features_evaluation_t *h, size_t no, ccs_features_evaluation_t *o, size_t n, const void *p) { UT_ENTER(K_FTUNER, t); return ut_restore(u, nh, (ccs_object_t *)h, no, (ccs_object_t *)o, n, p); }
// tree
static ccs_result_t td(ccs_tree_tuner_t t) { return ut_del((ccs_object_t)t, K_TTUNER); }
static ccs_result_t task_(ccs_tree_tuner_t t, size_t n, ccs_tree_configuration_t *c, size_t *nr) {
  UT_ENTER(K_TTUNER, t); if (!c) { *nr = 1; return CCS_RESULT_SUCCESS; }
  ccs_tree_space_t cs; ccs_result_t r = ccs_tree_tuner_get_tree_space(t, &cs); if (r < 0) return r;
  r = ccs_tree_space_samples(cs, n, c); if (r >= 0) { u->counter++; if (nr) *nr = n; } return r;
}
static ccs_result_t ttell(ccs_tree_tuner_t t, size_t n, ccs_tree_evaluation_t *e) { UT_ENTER(K_TTUNER, t); return ut_tell(u, n, e); }
static ccs_result_t topt(ccs_tree_tuner_t t, size_t n, ccs_tree_evaluation_t *e, size_t *nr) { UT_ENTER(K_TTUNER, t); return ut_list(u->optima, n, e, nr); }
static ccs_result_t thist(ccs_tree_tuner_t t, size_t n, ccs_tree_evaluation_t *e, size_t *nr) { UT_ENTER(K_TTUNER, t); return ut_list(u->hist, n, e, nr); }
static ccs_result_t tsug(ccs_tree_tuner_t t, ccs_tree_configuration_t *c) {
  UT_ENTER(K_TTUNER, t);
  if (u->hist.size()) { ccs_tree_configuration_t x; ccs_result_t r = ccs_tree_evaluation_get_configuration((ccs_tree_evaluation_t)u->hist[(size_t)(u->opt & 6 ? 0 : u->counter) % u->hist.size()], &x); if (r < 0) return r; r = ccs_retain_object(x); if (r < 0) return r; *c = x; return r; }
  ccs_tree_space_t cs; ccs_result_t r = ccs_tree_tuner_get_tree_space(t, &cs); if (r < 0) return r; return ccs_tree_space_sample(cs, c);
}
static ccs_result_t tser(ccs_tree_tuner_t t, size_t n, void *p, size_t *nr) { UT_ENTER(K_TTUNER, t); return ut_state(u, n, p, nr); }
static ccs_result_t tdes(ccs_tree_tuner_t t, size_t nh, ccs_tree_evaluation_t *h, size_t no, ccs_tree_evaluation_t *o, size_t n, const void *p) { UT_ENTER(K_TTUNER, t); return ut_restore(u, nh, (ccs_object_t *)h, no, (ccs_object_t *)o, n, p); }
// dynamic tree space: children are a pure function of the parent's value and index
static ccs_result_t dd(ccs_tree_space_t t) {
  UserTuner *u = ut_of((ccs_object_t)t, K_TSPACE); if (!u || !ut_known(g_vm, u)) { if (g_vm) g_vm->defer("cb", "the del callback was called with foreign user data"); return CCS_RESULT_SUCCESS; }
  if (u->dels++) u->vm->defer("cb", "the del callback ran twice"); return CCS_RESULT_SUCCESS;
}
static ccs_result_t dchild(ccs_tree_space_t t, ccs_tree_t parent, size_t idx, ccs_tree_t *ret) {
  UT_ENTER(K_TSPACE, t); VM &vm = *u->vm; sim::Ctx &c = *vm.ctx;
  ccs_datum_t pv; ccs_result_t r = ccs_tree_get_value(parent, &pv); if (r < 0) return r;
  size_t par = 0; r = ccs_tree_get_arity(parent, &par); if (r < 0) return r;
  if (idx >= par) vm.defer("tree", "the child callback was asked for a child beyond the node's arity");
  int64_t pvi = pv.type == CCS_DATA_TYPE_INT ? pv.value.i : 1; uint64_t k = (uint64_t)(pvi * 7 + (int64_t)idx * 13 + u->shape); Rng64 g(k);
  size_t pos[64], np = 0; ccs_tree_get_position(parent, 64, pos, &np);
  size_t ar = np >= 4 ? 0 : u->balanced ? (size_t[]){0, 1, 3, 3}[g.below(4)] : (size_t)g.below(4);
  int64_t val = pvi * 10 + (int64_t)idx + 1; ccs_tree_t ch;
  r = ccs_create_tree(ar, ccs_int(val), &ch); if (r < 0) return r;
  double w = 1, b = 1;
  if (u->balanced) b = 1.0 / (double)(1 + ar); else { w = (double)g.below(4) / 2; b = (double)g.range(1, 4) / 2; }
  r = ccs_tree_set_weight(ch, w); if (r >= 0) r = ccs_tree_set_bias(ch, b);
  if (r < 0) { ccs_release_object(ch); return r; }
  u->counter++;
  // harness bookkeeping runs outside the faults
  int64_t fa = c.fail_at; bool fp = c.fail_persist; uint64_t na = c.nalloc; c.fail_at = 0; c.fail_persist = false;
  P pp = vm.find_handle((ccs_object_t)parent);
  if (pp && !pp->foreign) {
    if (idx < pp->kids.size() && pp->kids[idx]) vm.defer("tree", fmt("child %zu was created again although it already existed", idx));
    for (auto &m : u->made) if (m.parent == pp && m.idx == idx) { bool dead = false; for (auto &tk : vm.toks) if (tk->id == m.child->id && tk->fired) dead = true; if (!dead) vm.defer("tree", fmt("child %zu was created twice", idx)); }
    P o = vm.adopt(K_TREE, (ccs_object_t)ch, ""); o->arity = (int)ar; o->kids.resize(ar); o->weight = w; o->bias = b; o->tval.t = T_INT; o->tval.i = val; o->dyn = true; o->user_made = false;
    u->made.push_back({pp, o, idx});
  }
  c.fail_at = fa; c.fail_persist = fp; c.nalloc = na;
  *ret = ch; return CCS_RESULT_SUCCESS;
}
static ccs_result_t dser(ccs_tree_space_t t, size_t n, void *p, size_t *nr) { UT_ENTER(K_TSPACE, t); int64_t st = u->shape; size_t need = state_bytes(st); if (p) { if (n < need) return CCS_RESULT_ERROR_INVALID_VALUE; state_put(st, p, 0x3c); } if (nr) *nr = need; return CCS_RESULT_SUCCESS; }
static ccs_result_t ddes(ccs_tree_space_t t, size_t n, const void *p) {
  UT_ENTER(K_TSPACE, t);
  if (u->opt & 2) { if (n) u->vm->defer("roundtrip", fmt("%zu bytes of state are restored although none can be saved", n)); return CCS_RESULT_SUCCESS; }
  int64_t st; if (!state_get(&st, n, p)) { u->vm->defer("roundtrip", fmt("the tree space state restored to the user is %zu bytes long%s", n, p ? "" : " and missing")); return CCS_RESULT_ERROR_INVALID_VALUE; }
  if (n != state_bytes(st)) u->vm->defer("roundtrip", "the tree space state came back with another size"); u->shape = st; return CCS_RESULT_SUCCESS;
}
void *ut_vector(int kind) {
  static ccs_user_defined_tuner_vector_t P_[8]; static ccs_user_defined_features_tuner_vector_t F_[8]; static ccs_user_defined_tree_tuner_vector_t T_[8];
  // a damaged image can announce another type than the vector is for: the room after the shorter vector is empty, which every creator refuses
  static struct { ccs_dynamic_tree_space_vector_t v; void *none[8]; } D_[8];
  int o = kind >> 8 & 7; auto &p = P_[o]; auto &f = F_[o]; auto &t = T_[o]; auto &d = D_[o]; kind &= 255;
  p = {pd, pask, ptell, popt, phist, o & 1 ? nullptr : psug, o & 2 ? nullptr : pser, o & 4 ? nullptr : pdes};
  f = {fd_, fask, ftell, fopt, fhist, o & 1 ? nullptr : fsug, o & 2 ? nullptr : fser, o & 4 ? nullptr : fdes};
  t = {td, task_, ttell, topt, thist, o & 1 ? nullptr : tsug, o & 2 ? nullptr : tser, o & 4 ? nullptr : tdes};
  d.v = {dd, dchild, o & 2 ? nullptr : dser, o & 4 ? nullptr : ddes};
  return kind == K_TUNER ? (void *)&p : kind == K_FTUNER ? (void *)&f : kind == K_TTUNER ? (void *)&t : (void *)&d;
}
std::shared_ptr<UserTuner> ut_make(VM &vm, int kind, int64_t shape) {
  auto u = std::make_shared<UserTuner>(); u->vm = &vm; u->kind = kind & 255; u->opt = kind >> 8 & 7; u->shape = shape; u->id = (int)vm.uts.size(); u->balanced = vm.cfg.balanced_dyn; vm.uts.push_back(u); return u;
}
// ---- ops ------------------------------------------------------------------------------
OP(tuner) { // kind user space os fs name     kind: 0 plain 1 features 2 tree
  Rd r(op); int kd = (int)r.n(); int64_t uv = r.n(); bool user = uv; int uk = user ? (int)((uv - 1) & 7) << 8 : 0; P s = vm.get(r.n(), kd == 2 ? K_TSPACE : K_CSPACE), os = vm.get(r.n(), K_OSPACE); int64_t fk = r.n(-1); P fs = kd == 1 ? vm.get(fk, K_FSPACE) : nullptr;
  Str name = mkname("t", r.n()); if (!s || !os || (kd == 1 && !fs) || s->foreign || os->foreign || (fs && fs->foreign)) SKIP;
  Kind k = kd == 0 ? K_TUNER : kd == 1 ? K_FTUNER : K_TTUNER; ccs_object_t h; std::shared_ptr<UserTuner> u; if (user) u = ut_make(vm, k | uk, 0);
  ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) {
    ccs_configuration_space_t cs = (ccs_configuration_space_t)s->h; ccs_objective_space_t osh = (ccs_objective_space_t)os->h;
    if (k == K_TUNER) return user ? ccs_create_user_defined_tuner(name.c_str(), cs, osh, (ccs_user_defined_tuner_vector_t *)ut_vector(k | uk), u.get(), (ccs_tuner_t *)o) : ccs_create_random_tuner(name.c_str(), cs, osh, (ccs_tuner_t *)o);
    if (k == K_FTUNER) return user ? ccs_create_user_defined_features_tuner(name.c_str(), cs, (ccs_features_space_t)fs->h, osh, (ccs_user_defined_features_tuner_vector_t *)ut_vector(k | uk), u.get(), (ccs_features_tuner_t *)o) : ccs_create_random_features_tuner(name.c_str(), cs, (ccs_features_space_t)fs->h, osh, (ccs_features_tuner_t *)o);
    return user ? ccs_create_user_defined_tree_tuner(name.c_str(), (ccs_tree_space_t)s->h, osh, (ccs_user_defined_tree_tuner_vector_t *)ut_vector(k | uk), u.get(), (ccs_tree_tuner_t *)o) : ccs_create_random_tree_tuner(name.c_str(), (ccs_tree_space_t)s->h, osh, (ccs_tree_tuner_t *)o); });
  vm.out("tuner " + vm.rname(e)); if (e < 0) { if (u && u->dels) vm.bad("cb", "the del callback ran for a tuner that was never created"); return; }
  P o = vm.made(op, k, h, name); if (kd == 2) o->ts = s; else o->cs = s; o->os = os; o->fs = fs; o->ut = u; if (u) u->obj = o.get();
}
static Str hnames(VM &vm, const Vec<ccs_object_t> &l) { Str s; for (auto h : l) { P o = vm.find_handle(h); s += o ? fmt(" #%d", o->id) : Str(" ?"); } return s; }
static bool t_list(VM &vm, const P &t, bool opt, const P &f, Vec<ccs_object_t> &l, Str &why) {
  size_t n = 0; ccs_object_t fh = f ? f->h : nullptr; ccs_result_t e = t_hist(t, opt, fh, 0, nullptr, &n); if (e < 0) { ccs_clear_thread_error(); why = "size query failed: " + vm.rname(e); return false; }
  l.assign(n + 2, nullptr); size_t n2 = 999; e = t_hist(t, opt, fh, n + 2, l.data(), &n2); if (e < 0) { ccs_clear_thread_error(); why = "listing failed: " + vm.rname(e); return false; }
  if (n2 != n) { why = fmt("the size query says %zu, the listing %zu", n, n2); return false; }
  if (l[n] || l[n + 1]) { why = "the listing fills more entries than announced"; return false; }
  l.resize(n);
  if (n) { Vec<ccs_object_t> l3(n, nullptr); e = t_hist(t, opt, fh, n, l3.data(), nullptr); if (e < 0) { ccs_clear_thread_error(); why = "listing with the exact size failed: " + vm.rname(e); return false; } if (l3 != l) { why = "two listings differ"; return false; } }
  return true;
}
void check_tuner(VM &vm, const P &t) {
  if (!vm.cfg.models || t->foreign) return;
  Vec<P> fl; fl.push_back(nullptr); if (t->kind == K_FTUNER && !t->ut) { for (auto &kv : vm.slots) if (kv.second->kind == K_FEAT && kv.second->space == t->fs && std::find(fl.begin(), fl.end(), kv.second) == fl.end()) fl.push_back(kv.second); }
  for (auto &f : fl) {
    Vec<ccs_object_t> h, o; Str why; const char *cls = tcls(*t); Str ft = f ? " for " + mtext(vm, f) : Str();
    if (!t_list(vm, t, false, f, h, why)) { vm.bad(cls, "history" + ft + ": " + why); continue; }
    if (!t_list(vm, t, true, f, o, why)) { vm.bad(cls, "optima" + ft + ": " + why); continue; }
    Vec<P> mh = m_hist_for(*t, f); Vec<ccs_object_t> want; for (auto &e : mh) want.push_back(e->h);
    if (h != want) { vm.bad(cls, "history" + ft + " is" + hnames(vm, h) + " instead of" + hnames(vm, want)); continue; }
    if (t->ut) { Vec<ccs_object_t> w; if (t->hist.size()) w.push_back(t->hist.back()->h); if (o != w) vm.bad(cls, "the optima of the user's tuner are not what its callback returned"); continue; }
    Vec<P> mo = m_optima(mh); Vec<ccs_object_t> wo; for (auto &e : mo) wo.push_back(e->h);
    Vec<ccs_object_t> so = o; std::sort(so.begin(), so.end()); std::sort(wo.begin(), wo.end());
    if (so != wo) { Str s = "optima" + ft + " are" + hnames(vm, o) + " instead of" + hnames(vm, wo) + " in history:"; for (auto &e : mh) s += fmt("\n  #%d ", e->id) + mtext(vm, e); vm.bad(cls, s); }
  }
}
static P feat_arg(VM &vm, const P &t, int64_t k, bool &ok) { ok = true; if (t->kind != K_FTUNER) return nullptr; P f = k < 0 ? nullptr : vm.get(k, K_FEAT); if (!f || f->foreign) ok = false; return f; }
static bool feat_valid(const Obj &t, const Obj &f) { if (f.space != t.fs || f.values.size() != t.fs->params.size()) return false; for (size_t i = 0; i < f.values.size(); i++) if (!m_in_domain(*t.fs->params[i], f.values[i])) return false; return true; }
OP(ask) { // tuner feat n
  Rd r(op); P t = vm.get(r.n(), -1); if (!is_tuner(t)) SKIP; bool ok; P f = feat_arg(vm, t, r.n(-1), ok); if (!ok) SKIP; size_t n = (size_t)r.n(1);
  Vec<ccs_object_t> c(n ? n : 1, nullptr); size_t got = 999;
  ccs_result_t e = vm.call([&] { std::fill(c.begin(), c.end(), nullptr); got = 999; return t_ask(t, f ? f->h : nullptr, n, n ? c.data() : nullptr, &got); }, [&](ccs_result_t) { for (auto &x : c) { if (x) ccs_release_object(x); x = nullptr; } });
  vm.out("ask " + vm.rname(e)); bool good = !f || t->foreign || feat_valid(*t, *f);
  if (e < 0) { if (vm.cfg.models && good && !t->foreign && e != CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL && !(t->kind == K_TTUNER && e == CCS_RESULT_ERROR_INVALID_DISTRIBUTION)) { Vec<Val> d; if (t->kind == K_TTUNER || m_default(*t->cs, d)) vm.bad(tcls(*t), "ask failed with " + vm.rname(e)); } return; }
  if (!good) vm.judge(tcls(*t), e, false, "asking with features that do not belong to the tuner's space");
  vm.out(fmt("  count %zu", got));
  if (!n) { if (vm.cfg.models && got != 1) vm.bad(tcls(*t), "ask without room did not answer the number of configurations it offers"); return; }
  if (vm.cfg.models && got > n) vm.bad(tcls(*t), "ask returned more configurations than there is room for");
  for (size_t i = 0; i < got && i < n; i++) {
    if (!c[i]) vm.bad(tcls(*t), "ask succeeded but returned no configuration");
    P o = t->kind == K_TTUNER ? vm_take_tconf(vm, c[i], t->ts, tcls(*t), "ask", true) : vm_take_conf(vm, c[i], t->cs, tcls(*t), "ask", true);
    o->foreign = t->foreign; vm.put(op.out + (int)i, o); vm.out("  " + atext(o->h, 0));
  }
  check_tuner(vm, t);
}
OP(suggest) { // tuner feat
  Rd r(op); P t = vm.get(r.n(), -1); if (!is_tuner(t)) SKIP; bool ok; P f = feat_arg(vm, t, r.n(-1), ok); if (!ok) SKIP;
  ccs_object_t c = nullptr; bool good = !f || t->foreign || feat_valid(*t, *f); const char *cls = tcls(*t);
  ccs_result_t e = vm.call([&] { c = nullptr; return t_suggest(t, f ? f->h : nullptr, &c); }, [&](ccs_result_t) { c = nullptr; });
  vm.out("suggest " + vm.rname(e));
  if (t->ut && t->ut->opt & 1) { if (good && e != CCS_RESULT_ERROR_UNSUPPORTED_OPERATION && e != CCS_RESULT_ERROR_OUT_OF_MEMORY) vm.bad("cb", "suggest answered " + vm.rname(e) + " although the tuner has no suggest callback"); if (e < 0) return; }
  if (e < 0) { if (vm.cfg.models && good && !t->foreign && e != CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL && !(t->kind == K_TTUNER && e == CCS_RESULT_ERROR_INVALID_DISTRIBUTION)) { Vec<Val> d; if (t->kind == K_TTUNER || m_default(*t->cs, d)) vm.bad(cls, "suggest failed with " + vm.rname(e)); } return; }
  if (!good) vm.judge(cls, e, false, "suggesting with features that do not belong to the tuner's space");
  if (!c) { vm.bad(cls, "suggest succeeded but returned no configuration"); return; }
  P known = vm.find_handle(c); bool opt = false; Vec<P> mo;
  if (vm.cfg.models && !t->foreign && !t->ut) { mo = m_optima(m_hist_for(*t, f)); for (auto &x : mo) if (x->conf->h == c) opt = true; if (mo.size() && !opt) vm.bad(cls, "the suggestion is not the configuration of an optimum" + (f ? " for " + mtext(vm, f) : Str())); }
  P o = known;
  if (!o) { o = t->kind == K_TTUNER ? vm_take_tconf(vm, c, t->ts, cls, "suggest", true) : vm_take_conf(vm, c, t->cs, cls, "suggest", true); o->foreign = t->foreign; int32_t rc = 0; if (t->foreign && ccs_object_get_refcount(c, &rc) >= 0 && rc > 1) t->refs.push_back(o); }   // an optimum of a restored tuner is held by it
  vm.put(op.out, o); vm.out("  " + atext(c, 0)); check_tuner(vm, t);
}
OP(tell) { // tuner eval...
  Rd r(op); P t = vm.get(r.n(), -1); if (!is_tuner(t) || t->foreign) SKIP; Kind ek = t->kind == K_TUNER ? K_EVAL : t->kind == K_FTUNER ? K_FEVAL : K_TEVAL; Vec<P> es; Vec<ccs_object_t> hs;
  while (r.more()) { P e = vm.get(r.n(), ek); if (!e || e->foreign || e->ospace != t->os) SKIP; if (t->kind == K_FTUNER && e->feat->space != t->fs) SKIP; 
    es.push_back(e); hs.push_back(e->h); }
  if (es.empty()) SKIP;
  ccs_result_t e = vm.call([&] { return t_tell(t, hs.size(), hs.data()); });
  vm.out("tell " + vm.rname(e)); vm.judge(tcls(*t), e, true, "telling evaluations");
  if (e < 0) return;
  for (auto &x : es) { x->told = true; for (P c : {x->conf, x->feat}) if (c) c->told = true; if (t->ut || x->result == 0) t->hist.push_back(x); }
  check_tuner(vm, t);
}
OP(tquery) { // tuner feat(-1 all)
  Rd r(op); P t = vm.get(r.n(), -1); if (!is_tuner(t)) SKIP; int64_t k = r.n(-1); P f = t->kind == K_FTUNER && k >= 0 ? vm.get(k, K_FEAT) : nullptr; bool opt = r.n();
  size_t n = 0; ccs_result_t e = vm.call([&] { return t_hist(t, opt, f ? f->h : nullptr, 0, nullptr, &n); });
  vm.out("tquery " + vm.rname(e) + fmt(" %zu", n)); if (e < 0) return;
  Vec<ccs_object_t> l; Str why; if (t_list(vm, t, opt, f, l, why)) for (auto h : l) vm.out("  " + atext(h, 0)); else vm.bad(tcls(*t), why);
}
