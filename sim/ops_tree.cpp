// Trees, tree spaces and tree configurations.
#include "vm.h"
std::shared_ptr<UserTuner> ut_make(VM &vm, int kind, int64_t shape);

static Vec<size_t> path_of(const Obj &t) { Vec<size_t> p; for (const Obj *o = &t; o->parent; o = o->parent) p.push_back((size_t)o->pidx); std::reverse(p.begin(), p.end()); return p; }
static const Obj *root_of(const Obj &t) { const Obj *o = &t; while (o->parent) o = o->parent; return o; }
static Vec<Val> values_of(const Obj &t) { Vec<Val> v; for (const Obj *o = &t; o; o = o->parent) v.push_back(o->tval); std::reverse(v.begin(), v.end()); return v; }
// walk down; n = nodes found, false when a child is missing or an index is out of range
static bool walk(const Obj &t, const Vec<size_t> &pos, Vec<const Obj *> &nodes, bool &in_range) {
  const Obj *o = &t; nodes.assign(1, o); in_range = true;
  for (size_t i = 0; i < pos.size(); i++) { if (pos[i] >= (size_t)o->arity) { in_range = false; return false; } if (!o->kids[pos[i]]) { // further indexes cannot be judged
      return false; } o = o->kids[pos[i]].get(); nodes.push_back(o); }
  return true;
}
static bool vals_eq(const Vec<ccs_datum_t> &a, const Vec<Val> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (dtext(a[i]) != vtext(b[i])) return false; return true; }
static Str pos_text(const Vec<size_t> &p) { Str s; for (size_t x : p) s += fmt("%zu/", x); return s; }
static Vec<double> shares(const Obj &t) { Vec<double> w; double tot = m_tree_sum(t); for (auto &k : t.kids) w.push_back(k ? m_tree_sum(*k) * k->bias : 1.0); w.push_back(t.weight); for (auto &x : w) x /= tot; return w; }

OP(tree) { // arity (t v)
  Rd r(op); size_t ar = (size_t)r.n(); ccs_object_t h; ccs_result_t e; Dat x;
  { Data d; x = rd_dat(vm, r); if (!x.ok || x.v.t == T_OBJECT || x.v.t == T_INACTIVE) SKIP; d.add(x);
    e = vm.create(&h, [&](ccs_object_t *o) { return ccs_create_tree(ar, d.d[0], (ccs_tree_t *)o); }); }
  vm.out("tree " + vm.rname(e)); if (e < 0) return;
  P o = vm.made(op, K_TREE, h, ""); o->arity = (int)ar; o->kids.resize(ar); o->tval = x.v;
}
OP(tree_child) { // parent idx child
  Rd r(op); P t = vm.get(r.n(), K_TREE); size_t ix = (size_t)r.n(); P c = vm.get(r.n(), K_TREE); if (!t || !c || t->foreign || c->foreign) SKIP;
  bool ok = ix < (size_t)t->arity && !t->kids[ix] && !c->parent && root_of(*t) != c.get();
  ccs_result_t e = vm.call([&] { return ccs_tree_set_child((ccs_tree_t)t->h, ix, (ccs_tree_t)c->h); });
  vm.out("tree_child " + vm.rname(e)); vm.judge("tree", e, ok, "attaching a child"); if (e >= 0) { t->kids[ix] = c; c->parent = t.get(); c->pidx = (int)ix; }
  if (vm.cfg.models) vm.check_content("tree", [&](const Obj &o) { return o.kind == K_TREE; });
}
OP(tree_wb) { // tree what(0 weight 1 bias) v(/4)
  Rd r(op); P t = vm.get(r.n(), K_TREE); int b = (int)r.n(); double v = (double)r.n() / 4.0; if (!t || t->foreign) SKIP;
  ccs_result_t e = vm.call([&] { return b ? ccs_tree_set_bias((ccs_tree_t)t->h, v) : ccs_tree_set_weight((ccs_tree_t)t->h, v); });
  vm.out("tree_wb " + vm.rname(e)); bool ok = v >= 0; if (!ok || e < 0) vm.judge("tree", e, ok, "setting a weight or bias"); if (e >= 0) (b ? t->bias : t->weight) = v;
  if (vm.cfg.models) vm.check_content("tree", [&](const Obj &o) { return o.kind == K_TREE; });
}
OP(tree_sample) { // tree rng n
  Rd r(op); P t = vm.get(r.n(), K_TREE), g = vm.get(r.n(), K_RNG); size_t n = (size_t)r.n(1); if (!t || !g || t->foreign) SKIP;
  Vec<size_t> v(n, 999); ccs_result_t e = vm.call([&] { return n == 1 ? ccs_tree_sample((ccs_tree_t)t->h, (ccs_rng_t)g->h, v.data()) : ccs_tree_samples((ccs_tree_t)t->h, (ccs_rng_t)g->h, n, v.data()); });
  double tot = m_tree_sum(*t); vm.out("tree_sample " + vm.rname(e)); if (e < 0) { vm.judge("tree", e, tot > 0, "sampling a tree"); return; }
  uint64_t h = 0; Vec<double> p = shares(*t); Vec<size_t> cnt(p.size(), 0);
  for (size_t x : v) { h = h * 31 + x; if (x >= p.size()) { vm.bad("tree", fmt("sampled index %zu of a node with %d children", x, t->arity)); return; } cnt[x]++; }
  vm.out(fmt("  h%lx", (unsigned long)h));
  if (!vm.cfg.models || !(tot > 0)) return;
  for (size_t i = 0; i < p.size(); i++) {
    if (p[i] <= 0 && cnt[i]) vm.bad("tree", fmt("index %zu has no share of the weight but was sampled %zu times of %zu: ", i, cnt[i], n) + mtext(vm, t));
    if (!g->weird && n >= 500 && std::fabs((double)cnt[i] - p[i] * (double)n) > 8 * std::sqrt((double)n * p[i] * (1 - p[i])) + 4) vm.bad("tree", fmt("index %zu has share %.4f but was sampled %zu times of %zu: ", i, p[i], cnt[i], n) + mtext(vm, t));
  }
}
OP(tree_pos) { // tree: where am I
  Rd r(op); P t = vm.get(r.n(), K_TREE); if (!t || t->foreign) SKIP; size_t n = 0, m = 0;
  ccs_result_t e = vm.call([&] { return ccs_tree_get_position((ccs_tree_t)t->h, 0, nullptr, &n); }); vm.out("tree_pos " + vm.rname(e)); if (e < 0) { vm.judge("tree", e, true, "asking a position"); return; }
  Vec<size_t> p(n + 1); if (n) e = ccs_tree_get_position((ccs_tree_t)t->h, n, p.data(), nullptr); p.resize(n);
  if (e >= 0) e = ccs_tree_get_values((ccs_tree_t)t->h, 0, nullptr, &m); Vec<ccs_datum_t> v(m); if (e >= 0 && m) e = ccs_tree_get_values((ccs_tree_t)t->h, m, v.data(), nullptr);
  ccs_tree_t par = nullptr; size_t ix = 0; if (e >= 0) e = ccs_tree_get_parent((ccs_tree_t)t->h, &par, &ix);
  if (e < 0) { ccs_clear_thread_error(); vm.judge("tree", e, true, "asking a position"); return; }
  Str s = "  " + pos_text(p); for (auto &x : v) s += " " + dtext(x); vm.out(s);
  if (!vm.cfg.models) return;
  if (p != path_of(*t)) vm.bad("tree", "position " + pos_text(p) + " instead of " + pos_text(path_of(*t)));
  if (!vals_eq(v, values_of(*t))) vm.bad("tree", "values along the path are wrong:" + s);
  if ((ccs_object_t)par != (t->parent ? t->parent->h : nullptr) || (t->parent && ix != (size_t)t->pidx)) vm.bad("tree", "parent is wrong");
}
OP(tree_at) { // tree|tspace what(0 valid 1 values 2 node) pos...
  Rd r(op); P o = vm.get(r.n(), -1); int what = (int)r.n(); Vec<size_t> pos; while (r.more()) pos.push_back((size_t)r.n()); if (!o || o->foreign || (o->kind != K_TREE && o->kind != K_TSPACE)) SKIP;
  bool sp = o->kind == K_TSPACE; const P &t = sp ? o->tree : o; Vec<const Obj *> nodes; bool rng; ccs_tree_space_t sh = (ccs_tree_space_t)o->h; ccs_tree_t th = (ccs_tree_t)o->h;
  ccs_bool_t b = (ccs_bool_t)7; Vec<ccs_datum_t> v(pos.size() + 1); ccs_tree_t nd = nullptr; const size_t *pp = pos.data(); size_t n = pos.size();
  ccs_result_t e = vm.call([&] {
    if (what == 0) return sp ? ccs_tree_space_check_position(sh, n, pp, &b) : ccs_tree_position_is_valid(th, n, pp, &b);
    if (what == 1) return sp ? ccs_tree_space_get_values_at_position(sh, n, pp, v.size(), v.data()) : ccs_tree_get_values_at_position(th, n, pp, v.size(), v.data());
    return sp ? ccs_tree_space_get_node_at_position(sh, n, pp, &nd) : ccs_tree_get_node_at_position(th, n, pp, &nd); });
  bool there = walk(*t, pos, nodes, rng);
  Str s = "tree_at " + vm.rname(e); if (e >= 0) { if (what == 0) s += fmt(" %d", (int)b); else if (what == 1) for (auto &x : v) s += " " + dtext(x); else s += " " + atext((ccs_object_t)nd, 0).substr(0, 24); }
  vm.out(s); if (!vm.cfg.models) return;
  bool dyn = sp && o->dyn;
  if (there) {
    if (e < 0) { vm.judge("tree", e, true, "looking up position " + pos_text(pos)); return; }
    if (what == 0 && !b) vm.bad("tree", "existing position " + pos_text(pos) + " was reported as invalid");
    if (what == 1) { Vec<Val> w; for (auto *x : nodes) w.push_back(x->tval); if (!vals_eq(v, w)) vm.bad("tree", "values at " + pos_text(pos) + " are wrong: " + s); }
    if (what == 2 && (ccs_object_t)nd != nodes.back()->h) vm.bad("tree", "the node at " + pos_text(pos) + " is another one");
  } else if (!rng) {
    if (what == 0 && e >= 0 && b) vm.bad("tree", "position " + pos_text(pos) + " is beyond a node's arity but was reported as valid");
    if (what != 0 && e >= 0) vm.bad("tree", "looking up " + pos_text(pos) + " beyond a node's arity succeeded");
  } else if (dyn && e >= 0 && what == 0 && b) vm.bad("tree", "the dynamic space reports " + pos_text(pos) + " as valid without creating it");
  else if (!dyn && what != 0 && e >= 0) vm.bad("tree", "looking up a missing node at " + pos_text(pos) + " succeeded");
}
OP(tspace) { // tree dyn shape name
  Rd r(op); P t = vm.get(r.n(), K_TREE); int64_t dv = r.n(); bool dyn = dv; int uk = dyn ? (int)((dv - 1) & 6) << 8 : 0; int64_t shape = r.n(); if (uk) shape = 0; Str name = mkname("ts", r.n()); if (!t || t->foreign) SKIP; ccs_object_t h; std::shared_ptr<UserTuner> u;
  if (dyn) { if (t->dyn) SKIP; u = ut_make(vm, K_TSPACE | uk, shape); }
  ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) { return dyn ? ccs_create_dynamic_tree_space(name.c_str(), (ccs_tree_t)t->h, (ccs_dynamic_tree_space_vector_t *)ut_vector(K_TSPACE | uk), u.get(), (ccs_tree_space_t *)o) : ccs_create_static_tree_space(name.c_str(), (ccs_tree_t)t->h, (ccs_tree_space_t *)o); });
  vm.out("tspace " + vm.rname(e)); if (e < 0) { if (u && u->dels) vm.bad("cb", "the del callback ran for a space that was never created"); return; }
  P o = vm.made(op, K_TSPACE, h, name); o->tree = t; o->dyn = dyn; o->ut = u; if (dyn) t->dyn = true;
}
OP(ts_rng) {
  Rd r(op); P s = vm.get(r.n(), K_TSPACE); int64_t gk = r.n(); if (!s) SKIP;
  if (gk == -2) { ccs_rng_t own = nullptr; ccs_result_t e = vm.call([&] { own = nullptr; ccs_result_t x = ccs_tree_space_get_rng((ccs_tree_space_t)s->h, &own); return x < 0 ? x : ccs_tree_space_set_rng((ccs_tree_space_t)s->h, own); }); vm.out("ts_rng same " + vm.rname(e)); vm.judge("tree", e, true, "setting the generator a space has"); return; }
  P g = vm.get(gk, K_RNG); if (!g) SKIP;
  ccs_result_t e = vm.call([&] { return ccs_tree_space_set_rng((ccs_tree_space_t)s->h, (ccs_rng_t)g->h); });
  vm.out("ts_rng " + vm.rname(e)); vm.judge("tree", e, true, "setting a generator"); if (e >= 0) s->rng = g;
}
// reading the values makes a dynamic space create the nodes along the position
static void touch(VM &vm, ccs_object_t c, const Vec<size_t> &pos) { Vec<ccs_datum_t> v(pos.size() + 1); if (ccs_tree_configuration_get_values((ccs_tree_configuration_t)c, v.size(), v.data(), nullptr) < 0) ccs_clear_thread_error(); vm.settle(); }
P vm_take_tconf(VM &vm, ccs_object_t c, const P &space, const char *cls, const char *what, bool fresh) {
  P o = fresh ? nullptr : vm.find_handle(c); if (!o) o = vm.adopt(K_TCONF, c, "");
  ccs_tree_configuration_t tc = (ccs_tree_configuration_t)c; size_t n = 0; ccs_result_t e = ccs_tree_configuration_get_position(tc, 0, nullptr, &n); Vec<size_t> pos(n + 1); if (e >= 0 && n) e = ccs_tree_configuration_get_position(tc, n, pos.data(), nullptr); pos.resize(n);
  ccs_tree_space_t ts = nullptr; if (e >= 0) e = ccs_tree_configuration_get_tree_space(tc, &ts);
  if (e < 0) { ccs_clear_thread_error(); vm.bad(cls, Str(what) + ": the tree configuration cannot be read: " + vm.rname(e)); return o; }
  o->ts = space; o->pos = pos; o->pvals.clear(); if (!space || space->foreign) { o->foreign = true; return o; }
  if (ts != (ccs_tree_space_t)space->h) vm.bad(cls, Str(what) + ": the tree configuration belongs to another space");
  if (!vm.cfg.models) return o;
  if (space->dyn) touch(vm, c, pos);
  const Obj *nd = space->tree.get(); bool stop = false;
  for (size_t i = 0; i < n; i++) {
    if (stop || pos[i] >= (size_t)nd->arity) { vm.bad(cls, Str(what) + ": position " + pos_text(pos) + " does not exist in the tree"); return o; }
    if (shares(*nd)[pos[i]] <= 0 && m_tree_sum(*nd) > 0 && !space->dyn) vm.bad(cls, Str(what) + ": position " + pos_text(pos) + " goes through a child without any share of the weight");
    if (!nd->kids[pos[i]]) { stop = true; if (space->dyn) vm.bad(cls, Str(what) + ": the dynamic tree has no node at " + pos_text(pos)); continue; }
    nd = nd->kids[pos[i]].get();
  }
  if (stop) { o->weird = true; return o; }
  const Obj *x = space->tree.get(); o->pvals.push_back(x->tval); for (size_t i = 0; i < n; i++) { x = x->kids[pos[i]].get(); o->pvals.push_back(x->tval); }
  Str a = atext(c, 0), m = mtext(vm, o); if (a != m) vm.bad(cls, Str(what) + " gave " + a + " instead of " + m);
  ccs_bool_t b = (ccs_bool_t)7; e = ccs_tree_configuration_check(tc, &b); if (e < 0 || !b) { ccs_clear_thread_error(); vm.bad(cls, Str(what) + ": the tree configuration handed out is reported as invalid: " + m); }
  ccs_tree_t node = nullptr; e = ccs_tree_configuration_get_node(tc, &node); if (e < 0 || (ccs_object_t)node != x->h) { ccs_clear_thread_error(); vm.bad(cls, Str(what) + ": the node of the tree configuration is wrong"); }
  return o;
}
OP(ts_sample) { // ts n
  Rd r(op); P s = vm.get(r.n(), K_TSPACE); if (!s) SKIP; size_t n = (size_t)r.n(1); Vec<ccs_object_t> c(n, nullptr);
  ccs_result_t e = vm.call([&] { std::fill(c.begin(), c.end(), nullptr); return n == 1 ? ccs_tree_space_sample((ccs_tree_space_t)s->h, (ccs_tree_configuration_t *)c.data()) : ccs_tree_space_samples((ccs_tree_space_t)s->h, n, (ccs_tree_configuration_t *)c.data()); }, [&](ccs_result_t) { for (auto &x : c) { if (x) ccs_release_object(x); x = nullptr; } });
  vm.out("ts_sample " + vm.rname(e)); if (e < 0) return;
  for (size_t i = 0; i < n; i++) { if (!c[i]) { vm.bad("tree", "sampling succeeded but returned no configuration"); return; } P o = vm_take_tconf(vm, c[i], s, "tree", "sampling", true); vm.put(op.out + (int)i, o); vm.out("  " + atext(o->h, 0)); }
}
OP(tconf_new) { // ts pos...
  Rd r(op); P s = vm.get(r.n(), K_TSPACE); if (!s || s->foreign) SKIP; Vec<size_t> pos; while (r.more()) pos.push_back((size_t)r.n()); ccs_object_t h;
  ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) { return ccs_create_tree_configuration((ccs_tree_space_t)s->h, pos.size(), pos.data(), (ccs_tree_configuration_t *)o); });
  vm.out("tconf " + vm.rname(e)); if (e < 0) { vm.judge("tree", e, true, "creating a tree configuration"); return; }
  if (s->dyn) touch(vm, h, pos);
  Vec<const Obj *> nodes; bool rng; bool there = walk(*s->tree, pos, nodes, rng);
  P o = vm.made(op, K_TCONF, h, ""); o->ts = s; o->pos = pos; if (there) for (auto *x : nodes) o->pvals.push_back(x->tval); else o->weird = true;
  vm.out("  " + atext(h, 0));
}
OP(tconf_check) {
  Rd r(op); P o = vm.get(r.n(), K_TCONF); if (!o || o->foreign || !o->ts) SKIP; ccs_bool_t b = (ccs_bool_t)7;
  ccs_result_t e = vm.call([&] { return r.n() ? ccs_tree_space_check_configuration((ccs_tree_space_t)o->ts->h, (ccs_tree_configuration_t)o->h, &b) : ccs_tree_configuration_check((ccs_tree_configuration_t)o->h, &b); });
  vm.out("tconf_check " + vm.rname(e) + fmt(" %d", e < 0 ? -1 : (int)b));
  if (vm.cfg.models) { Vec<const Obj *> nodes; bool rng; bool there = walk(*o->ts->tree, o->pos, nodes, rng); if (!there && !rng && e >= 0 && b) vm.bad("tree", "a tree configuration beyond a node's arity was reported as valid: " + pos_text(o->pos)); if (there && !o->weird && (e < 0 || !b)) vm.bad("tree", "a valid tree configuration was reported as invalid: " + mtext(vm, o)); }
}
