// Object-level operations: maps, references, user data, error stacks, refused
// calls, serialization through every transport (including suspended ones).
#include "vm.h"
#include <algorithm>
#include <gsl/gsl_rng.h>
std::shared_ptr<UserTuner> ut_make(VM &vm, int kind, int64_t shape);

// ---- maps -----------------------------------------------------------------------
static bool key_is(const Val &a, const Val &b) { return a == b; }
static Val stored(const Val &v) { Val x = v; if (v.t == T_OBJECT) { x.i = v.o->id; if (v.id) x.o = nullptr; } return x; }
static std::map<int, ccs_object_t> &id_handles(VM &vm) { return vm.id_handles; }
static bool dat_is(VM &vm, const ccs_datum_t &d, const Val &v) {
  if (v.t == T_INT && (d.type != CCS_DATA_TYPE_INT || d.value.i != v.i)) return false;
  if (v.t != T_OBJECT) return dtext(d) == vtext(v);
  if (d.type != CCS_DATA_TYPE_OBJECT) return false;
  if (v.id) return (d.flags & CCS_DATUM_FLAG_ID) && d.value.o == id_handles(vm)[(int)v.i];
  return v.o && !(d.flags & CCS_DATUM_FLAG_ID) && d.value.o == v.o->h;
}
static ccs_datum_t dat_for(VM &vm, const Val &v) { if (v.t == T_OBJECT && v.id) { ccs_datum_t d = ccs_object(id_handles(vm)[(int)v.i]); d.flags |= CCS_DATUM_FLAG_ID; return d; } return datum_of(v); }
static Str kvtext(const Obj &m) { Str s; for (auto &x : m.kv) s += "\n  " + vtext(x.first) + " => " + vtext(x.second); return s; }
static void check_map(VM &vm, const P &m) {
  if (!vm.cfg.models || m->foreign) return;
  ccs_map_t h = (ccs_map_t)m->h; size_t n = 999, nk = 999, nv = 999, want = m->kv.size(); ccs_result_t e = ccs_map_get_pairs(h, 0, nullptr, nullptr, &n);
  if (e >= 0) e = ccs_map_get_keys(h, 0, nullptr, &nk); if (e >= 0) e = ccs_map_get_values(h, 0, nullptr, &nv);
  if (e < 0) { ccs_clear_thread_error(); return vm.bad("map", "counting failed: " + vm.rname(e)); }
  if (n != want || nk != want || nv != want) return vm.bad("map", fmt("the map reports %zu pairs, %zu keys, %zu values and has to hold:", n, nk, nv) + kvtext(*m));
  Vec<ccs_datum_t> k(n + 1), v(n + 1), k2(n + 1), v2(n + 1); size_t r = 0;
  e = ccs_map_get_pairs(h, n + 1, k.data(), v.data(), &r); if (e >= 0 && r != n) return vm.bad("map", "the pair listing returns another count than announced");
  if (e >= 0) e = ccs_map_get_keys(h, n + 1, k2.data(), &r); if (e >= 0 && r != n) return vm.bad("map", "the key listing returns another count than announced");
  if (e >= 0) e = ccs_map_get_values(h, n + 1, v2.data(), &r); if (e >= 0 && r != n) return vm.bad("map", "the value listing returns another count than announced");
  if (e >= 0 && n) { e = ccs_map_get_keys(h, n, k2.data(), nullptr); if (e >= 0) e = ccs_map_get_values(h, n, v2.data(), nullptr); }
  if (e < 0) { ccs_clear_thread_error(); return vm.bad("map", "listing failed: " + vm.rname(e)); }
  auto perm = [&](const Vec<ccs_datum_t> &l, bool val) { Vec<bool> used(want, false); for (size_t i = 0; i < n; i++) { bool f = false; for (size_t j = 0; j < want && !f; j++) if (!used[j] && dat_is(vm, l[i], val ? m->kv[j].second : m->kv[j].first)) { used[j] = true; f = true; } if (!f) return false; } return true; };
  auto ltext = [&](const Vec<ccs_datum_t> &l) { Str s; for (size_t i = 0; i < n; i++) s += " " + dtext(l[i]); return s; };
  if (!perm(k2, false)) return vm.bad("map", "the key listing is" + ltext(k2) + " and has to be that of:" + kvtext(*m));
  if (!perm(v2, true)) return vm.bad("map", "the value listing is" + ltext(v2) + " and has to be that of:" + kvtext(*m));
  for (auto &p : m->kv) {
    bool f = false; for (size_t i = 0; i < n; i++) if (dat_is(vm, k[i], p.first) && dat_is(vm, v[i], p.second)) f = true;
    if (!f) return vm.bad("map", "the pair listing misses " + vtext(p.first) + " => " + vtext(p.second) + " of:" + kvtext(*m));
    ccs_datum_t g; ccs_bool_t ex = (ccs_bool_t)7; e = ccs_map_get(h, dat_for(vm, p.first), &g); if (e >= 0) e = ccs_map_exist(h, dat_for(vm, p.first), &ex);
    if (e < 0) { ccs_clear_thread_error(); return vm.bad("map", "lookup of " + vtext(p.first) + " failed: " + vm.rname(e)); }
    if (!ex || !dat_is(vm, g, p.second)) return vm.bad("map", "lookup of " + vtext(p.first) + " gave " + dtext(g) + fmt(" (exists: %d) in:", (int)ex) + kvtext(*m));
  }
}
static bool rd_map(VM &vm, Rd &r, Data &d, Val &v) {
  Dat x = rd_dat(vm, r); if (!x.ok || (x.v.t == T_OBJECT && x.v.o->kind == K_MAP)) return false;
  if (x.v.t == T_STRING && !x.tr) x.tr = false;
  if (x.v.t == T_OBJECT) { id_handles(vm)[x.v.o->id] = x.v.o->h; }
  d.add(x); v = stored(x.v); return true;
}
OP(map_new) { ccs_object_t h; ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) { return ccs_create_map((ccs_map_t *)o); }); vm.out("map " + vm.rname(e)); if (e >= 0) vm.made(op, K_MAP, h, ""); }
OP(map_set) { // map (key) (value)
  Rd r(op); P m = vm.get(r.n(), K_MAP); if (!m || m->foreign) SKIP; Val k, v; ccs_result_t e;
  { Data d; if (!rd_map(vm, r, d, k) || !rd_map(vm, r, d, v)) SKIP;
    e = vm.call([&] { return ccs_map_set((ccs_map_t)m->h, d.d[0], d.d[1]); }); }
  vm.out("map_set " + vm.rname(e)); vm.judge("map", e, true, "setting a map entry");
  if (e >= 0) { bool f = false; for (auto &p : m->kv) if (key_is(p.first, k)) { p.first = k; p.second = v; f = true; } if (!f) m->kv.push_back({k, v}); }
  k = Val(); v = Val(); check_map(vm, m);
}
OP(map_bulk) { // map base n: enough entries for the table of the map to grow
  Rd r(op); P m = vm.get(r.n(), K_MAP); if (!m || m->foreign) SKIP; int64_t base = r.n(), n = r.n(), done = 0; ccs_result_t e = CCS_RESULT_SUCCESS;
  for (int64_t i = 0; i < n && e >= 0; i++) {
    e = vm.call([&] { return ccs_map_set((ccs_map_t)m->h, ccs_int(base + i), ccs_int(3 * i + n)); }); vm.judge("map", e, true, "setting a map entry"); if (e < 0) break;
    Val k, v; k.t = v.t = T_INT; k.i = base + i; v.i = 3 * i + n; bool f = false; for (auto &p : m->kv) if (p.first.t == T_INT && p.first.i == k.i) { p.second = v; f = true; break; } if (!f) m->kv.push_back({k, v}); done++;
  }
  vm.out(fmt("map_bulk %d ", (int)done) + vm.rname(e)); check_map(vm, m);
}
OP(map_restr) { // map (key) string string: one buffer of the caller, reused for two values in a row
  Rd r(op); P m = vm.get(r.n(), K_MAP); if (!m || m->foreign) SKIP; Val k; ccs_result_t e = CCS_RESULT_SUCCESS; int64_t s[2];
  { Data d; if (!rd_map(vm, r, d, k)) SKIP; s[0] = r.n(); s[1] = r.n();
    std::unique_ptr<char[]> buf(new char[512]);
    for (int i = 0; i < 2 && e >= 0; i++) {
      Val v; v.t = T_STRING; v.s = str_pool()[(size_t)(s[i] % (int64_t)str_pool().size())];
      snprintf(buf.get(), 512, "%s", v.s.c_str()); ccs_datum_t x = ccs_string(buf.get()); x.flags |= CCS_DATUM_FLAG_TRANSIENT;
      e = vm.call([&] { return ccs_map_set((ccs_map_t)m->h, d.d[0], x); }); vm.out("map_restr " + vm.rname(e)); vm.judge("map", e, true, "setting a map entry"); if (e < 0) break;
      bool f = false; for (auto &p : m->kv) if (key_is(p.first, k)) { p.first = k; p.second = v; f = true; } if (!f) m->kv.push_back({k, v}); } }
  k = Val(); check_map(vm, m);
}
OP(map_get) { // map key
  Rd r(op); P m = vm.get(r.n(), K_MAP); if (!m || m->foreign) SKIP; Val k; Data d; if (!rd_map(vm, r, d, k)) SKIP; ccs_datum_t g; ccs_bool_t ex = (ccs_bool_t)7;
  ccs_result_t e = vm.call([&] { ccs_result_t x = ccs_map_get((ccs_map_t)m->h, d.d[0], &g); return x < 0 ? x : ccs_map_exist((ccs_map_t)m->h, d.d[0], &ex); });
  const Val *w = nullptr; for (auto &p : m->kv) if (key_is(p.first, k)) w = &p.second;
  vm.out("map_get " + vm.rname(e) + (e >= 0 ? " " + dtext(g) + (ex ? " 1" : " 0") : Str())); vm.judge("map", e, true, "looking up a key"); if (e < 0 || !vm.cfg.models) return;
  if ((ex != 0) != (w != nullptr) || (w ? !dat_is(vm, g, *w) : g.type != CCS_DATA_TYPE_NONE)) vm.bad("map", "lookup of " + vtext(k) + " gave " + dtext(g) + fmt(" (exists: %d) in:", (int)ex) + kvtext(*m));
}
OP(map_del) { // map key
  Rd r(op); P m = vm.get(r.n(), K_MAP); if (!m || m->foreign) SKIP; Val k; ccs_result_t e; size_t at = m->kv.size();
  { Data d; if (!rd_map(vm, r, d, k)) SKIP; for (size_t i = 0; i < m->kv.size(); i++) if (key_is(m->kv[i].first, k)) at = i; e = vm.call([&] { return ccs_map_del((ccs_map_t)m->h, d.d[0]); }); }
  vm.out("map_del " + vm.rname(e)); vm.judge("map", e, at < m->kv.size(), "deleting a key"); k = Val(); if (e >= 0 && at < m->kv.size()) m->kv.erase(m->kv.begin() + (long)at);
  check_map(vm, m);
}
OP(map_clear) { Rd r(op); P m = vm.get(r.n(), K_MAP); if (!m || m->foreign) SKIP; ccs_result_t e = vm.call([&] { return ccs_map_clear((ccs_map_t)m->h); }); vm.out("map_clear " + vm.rname(e)); vm.judge("map", e, true, "clearing"); if (e >= 0) m->kv.clear(); check_map(vm, m); }

// ---- references and attachments ----------------------------------------------------
static int32_t refcount(VM &vm, ccs_object_t h) { int32_t n = -1; if (ccs_object_get_refcount(h, &n) < 0) { ccs_clear_thread_error(); vm.bad("alive", "the reference count cannot be read"); } return n; }
OP(retain) { // slot
  Rd r(op); int s = (int)r.n(); P o = vm.get(s, -1); if (!o) SKIP; int32_t a = refcount(vm, o->h);
  ccs_result_t e = vm.call([&] { return ccs_retain_object(o->h); }); vm.out("retain " + vm.rname(e)); vm.judge("alive", e, true, "retaining a live object"); if (e < 0) return;
  vm.srefs[s]++; int32_t b = refcount(vm, o->h); if (b != a + 1) vm.bad("alive", fmt("retain changed the reference count from %d to %d", a, b));
}
OP(alias) { Rd r(op); P o = vm.get(r.n(), -1); if (!o) SKIP; ccs_result_t e = vm.call([&] { return ccs_retain_object(o->h); }); vm.out("alias " + vm.rname(e)); if (e >= 0) vm.put(op.out, o); }
OP(release) { // slot: gives up one reference
  Rd r(op); int s = (int)r.n(); if (!vm.slots.count(s)) SKIP;
  if (vm.srefs[s] > 1) { P o = vm.slots[s]; int32_t a = refcount(vm, o->h); ccs_result_t e = ccs_release_object(o->h); vm.out("release " + vm.rname(e)); if (e < 0) { ccs_clear_thread_error(); vm.bad("alive", "release failed: " + vm.rname(e)); return; } vm.srefs[s]--; int32_t b = refcount(vm, o->h); if (b != a - 1) vm.bad("alive", fmt("release changed the reference count from %d to %d", a, b)); return; }
  vm.out("release"); vm.drop_slot(s);
}
OP(describe) { Rd r(op); P o = vm.get(r.n(), -1); if (!o) SKIP; Str s; try { s = atext(o->h, D_USERDATA); } catch (DescribeError &e) { s = "!" + vm.rname(e.r) + " " + e.where; vm.bad("alive", "a live object cannot be read: " + s); } vm.out("describe " + s); if (vm.cfg.models) vm.check_content("content", [&](const Obj &x) { return &x == o.get(); }); }
OP(destroycb) { // slot [extra registrations with the same data]
  Rd r(op); P o = vm.get(r.n(), -1); if (!o) SKIP; int more = (int)(r.n() % 4); DestroyTok *tk;
  auto t = std::make_unique<DestroyTok>(); t->obj = o; t->id = o->id; t->h = o->h; t->vm = &vm; t->order = o->ntoks;
  ccs_result_t e = vm.call([&] { return ccs_object_set_destroy_callback(o->h, vm_destroy_cb, t.get()); });
  vm.out("destroycb " + vm.rname(e)); vm.judge("alive", e, true, "registering a destroy callback"); if (e < 0) return; o->ntoks++; tk = t.get(); vm.toks.push_back(std::move(t));
  for (; more > 0; more--) { e = vm.call([&] { return ccs_object_set_destroy_callback(o->h, vm_destroy_cb, tk); }); vm.out("destroycb " + vm.rname(e)); vm.judge("alive", e, true, "registering a destroy callback again"); if (e >= 0) tk->want++; }
}
OP(udata) { // slot value
  Rd r(op); P o = vm.get(r.n(), -1); if (!o) SKIP; int64_t v = r.n(); ccs_result_t e = vm.call([&] { return ccs_object_set_user_data(o->h, (void *)(intptr_t)v); }); vm.out("udata " + vm.rname(e)); vm.judge("alive", e, true, "setting user data"); if (e >= 0) o->udata = v;
  void *p = nullptr; if (ccs_object_get_user_data(o->h, &p) < 0 || (int64_t)(intptr_t)p != o->udata) { ccs_clear_thread_error(); vm.bad("alive", "user data read back differs from what was set"); }
}
static thread_local VM *s_vm = nullptr; void obj_set_vm(VM *vm) { s_vm = vm; }
#define TAG_OBJ ((void *)0x51)
#define TAG_SER ((void *)0x52)
#define TAG_DES ((void *)0x53)
static size_t payload(int64_t u) { return 8 + (size_t)((uint64_t)u % 40) + (u % 11 == 3 ? 85 + (size_t)(u / 11 % 40) : 0) + (u % 211 == 9 ? 16340 : 0); }
static ccs_result_t ser_any(ccs_object_t o, size_t n, void *d, size_t *nr, void *ud, void *tag) {
  VM &vm = *s_vm; ccs_result_t err; if (vm.cb_should_fail(&err)) return err;
  if (ud != tag) vm.defer("cb", "a serialize callback received other user data than it was registered with");
  void *p = nullptr; ccs_result_t r = ccs_object_get_user_data(o, &p); if (r < 0) return r; int64_t u = (int64_t)(intptr_t)p; size_t need = payload(u);
  if (d) { if (n < need) { vm.defer("announce", fmt("a serialize callback that asked for %zu bytes was given %zu", need, n)); return CCS_RESULT_ERROR_INVALID_VALUE; } for (size_t i = 0; i < need; i++) ((unsigned char *)d)[i] = (unsigned char)(u * 7 + (int64_t)i); memcpy(d, &u, 8); }
  if (nr) *nr = need;
  return CCS_RESULT_SUCCESS;
}
static ccs_result_t ser_obj_cb(ccs_object_t o, size_t n, void *d, size_t *nr, void *ud) { return ser_any(o, n, d, nr, ud, TAG_OBJ); }
static ccs_result_t ser_opt_cb(ccs_object_t o, size_t n, void *d, size_t *nr, void *ud) { return ser_any(o, n, d, nr, ud, TAG_SER); }
static ccs_result_t des_opt_cb(ccs_object_t o, size_t n, const char *d, void *ud) {
  VM &vm = *s_vm; ccs_result_t err; if (vm.cb_should_fail(&err)) return err;
  if (ud != TAG_DES) vm.defer("cb", "a deserialize callback received other user data than it was registered with");
  if (vm.damaged) { unsigned x = 0; for (size_t i = 0; i < n; i++) x += (unsigned char)d[i]; return ccs_object_set_user_data(o, (void *)(intptr_t)(x + 1)); }
  int64_t u; if (n < 8) { vm.defer("roundtrip", fmt("user data came back with %zu bytes", n)); return CCS_RESULT_ERROR_INVALID_VALUE; }
  memcpy(&u, d, 8); bool ok = n == payload(u); for (size_t i = 8; ok && i < n; i++) ok = (unsigned char)d[i] == (unsigned char)(u * 7 + (int64_t)i);
  if (!ok) vm.defer("roundtrip", "the bytes of the user data came back altered");
  return ccs_object_set_user_data(o, (void *)(intptr_t)u);
}
OP(sercb) { Rd r(op); P o = vm.get(r.n(), -1); if (!o || o->kind == K_ESTACK) SKIP; ccs_result_t e = vm.call([&] { return ccs_object_set_serialize_callback(o->h, ser_obj_cb, TAG_OBJ); }); vm.out("sercb " + vm.rname(e)); if (e >= 0) o->sercb = 1; }

// ---- error stacks and refused calls ---------------------------------------------------
OP(estack) { // code nframes
  Rd r(op); ccs_result_t code = (ccs_result_t)-(r.n() % 20 + 1); int n = (int)r.n(); ccs_object_t h; Str msg = fmt("failure %d of %s", (int)code, "a subsystem with a long explanatory text");
  ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) { return ccs_create_error_stack((ccs_error_stack_t *)o, code, "failure %d of %s", (int)code, "a subsystem with a long explanatory text"); });
  vm.out("estack " + vm.rname(e)); if (e < 0) return; P o = vm.made(op, K_ESTACK, h, "");
  static const char *fn[] = {"f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7"}; 
  for (int i = 0; i < n; i++) if (ccs_error_stack_push((ccs_error_stack_t)h, "file.c", 100 + i, fn[i & 7]) < 0) ccs_clear_thread_error();
  Str w = fmt("error(%d,\"%s\"", (int)code, msg.c_str()); for (int i = 0; i < n; i++) w += fmt(" %s:%d", fn[i & 7], 100 + i); w += ")"; Str a = atext(h, 0); vm.out("  " + a);
  if (vm.cfg.models && a != w) vm.bad("errtrace", "an error stack reports " + a + " instead of " + w);
}
OP(bad) { // which slot
  Rd r(op); int k = (int)r.n(); P o = vm.get(r.n(), -1); if (!o) SKIP; sim::g_cnt.bad_call++; size_t n; ccs_datum_t d; ccs_object_t q = nullptr; static const char junk[64] = "this is not a serialized object";
  ccs_result_t e = vm.call([&]() -> ccs_result_t {
    switch (k % 12) {
    case 0: return ccs_release_object(nullptr);
    case 1: return o->kind == K_MAP ? ccs_tuner_suggest((ccs_tuner_t)o->h, (ccs_configuration_t *)&q) : ccs_map_get((ccs_map_t)o->h, ccs_int(1), &d);
    case 2: return o->kind == K_CSPACE ? ccs_configuration_space_get_parameter((ccs_configuration_space_t)o->h, 1000, (ccs_parameter_t *)&q) : ccs_configuration_space_get_num_parameters((ccs_configuration_space_t)o->h, &n);
    case 3: return ccs_create_map(nullptr);
    case 4: return o->kind == K_CONF ? ccs_configuration_get_value((ccs_configuration_t)o->h, 1000, &d) : ccs_configuration_get_value((ccs_configuration_t)o->h, 0, &d);
    case 5: return o->kind == K_CSPACE ? ccs_configuration_space_get_parameter_by_name((ccs_configuration_space_t)o->h, "no such parameter", (ccs_parameter_t *)&q) : ccs_configuration_space_get_parameter_by_name((ccs_configuration_space_t)o->h, "p1", (ccs_parameter_t *)&q);
    case 6: return ccs_object_deserialize(&q, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, (size_t)64, junk, CCS_DESERIALIZE_OPTION_END);
    case 7: return ccs_object_deserialize(&q, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, "no/such/file", CCS_DESERIALIZE_OPTION_END);
    case 8: { ccs_numeric_t a, b, z; a.f = 1; b.f = 0; z.f = 0; return ccs_create_uniform_distribution(CCS_NUMERIC_TYPE_FLOAT, a, b, CCS_SCALE_TYPE_LINEAR, z, (ccs_distribution_t *)&q); }
    case 9: return o->kind == K_CSPACE ? ccs_create_random_tuner("x", (ccs_configuration_space_t)o->h, (ccs_objective_space_t)o->h, (ccs_tuner_t *)&q) : ccs_create_random_tuner("x", (ccs_configuration_space_t)o->h, nullptr, (ccs_tuner_t *)&q);
    case 10: return o->kind == K_TREE ? ccs_tree_get_child((ccs_tree_t)o->h, 1000, (ccs_tree_t *)&q) : ccs_tree_get_arity((ccs_tree_t)o->h, &n);
    default: return ccs_object_serialize(o->h, CCS_SERIALIZE_FORMAT_BINARY, (ccs_serialize_operation_t)77, CCS_SERIALIZE_OPTION_END);
    } });
  vm.out("bad " + vm.rname(e));
  vm.judge("accept", e, false, fmt("an incorrect call (%d)", k % 12));
}

// ---- serialization ---------------------------------------------------------------------
static bool odd_values(const Obj &o, const Obj *space) {   // a binding whose values its space would not accept again
  if (!space) return false;
  if (o.values.size() != space->params.size()) return true;
  for (size_t i = 0; i < o.values.size(); i++) if (o.values[i].t == T_STRING && !m_in_domain(*space->params[i], o.values[i])) return true;
  return false;
}
static bool odd_eval(const Obj &e) { return odd_values(e, e.ospace.get()) || (e.conf && e.kind != K_TEVAL && odd_values(*e.conf, e.conf->space.get())) || (e.feat && odd_values(*e.feat, e.feat->space.get())); }
static bool can_ser(const Obj &o) {
  for (auto &e : o.hist) if (odd_eval(*e)) return false;
  if ((o.kind == K_CONF || o.kind == K_FEAT) && !o.foreign && odd_values(o, o.space.get())) return false;
  if ((o.kind == K_EVAL || o.kind == K_FEVAL || o.kind == K_TEVAL) && !o.foreign && odd_eval(o)) return false;
  switch (o.kind) {
  case K_ESTACK: return false;
  case K_MAP: for (auto &p : o.kv) if (p.first.t == T_OBJECT || p.second.t == T_OBJECT) return false; return true;
  case K_CONF: case K_FEAT: case K_EVAL: case K_FEVAL: case K_TCONF: case K_TEVAL: case K_EXPR: return !o.foreign;
  case K_RNG: return !o.weird;
  case K_CSPACE: case K_TSPACE: return !(o.rng && o.rng->weird);
  case K_TUNER: case K_FTUNER: return !(o.cs && o.cs->rng && o.cs->rng->weird);
  case K_TTUNER: return !(o.ts && ((o.ts->rng && o.ts->rng->weird) || (o.ts->dyn && o.ut)));
  default: return true; }
}
static Vec<P> deps_of(const Obj &o) {
  switch (o.kind) {
  case K_CONF: case K_FEAT: return {o.space};
  case K_TCONF: return {o.ts};
  case K_EVAL: return {o.ospace, o.conf->space};
  case K_FEVAL: return {o.ospace, o.conf->space, o.feat->space};
  case K_TEVAL: return {o.ospace, o.conf->ts};
  case K_EXPR: { Vec<P> r; for (auto &p : m_params_of(std::make_shared<Obj>(o))) r.push_back(p); return r; }
  default: return {}; }
}
static ccs_result_t do_ser(ccs_object_t h, int tr, bool cb, size_t n, char *buf, const char *path, int fd, void **st, size_t *psz) {
  ccs_serialize_format_t F = CCS_SERIALIZE_FORMAT_BINARY; const int E = CCS_SERIALIZE_OPTION_END, C = CCS_SERIALIZE_OPTION_CALLBACK;
  switch (tr) {
  case 4: return cb ? ccs_object_serialize(h, F, CCS_SERIALIZE_OPERATION_SIZE, psz, C, ser_opt_cb, TAG_SER, E) : ccs_object_serialize(h, F, CCS_SERIALIZE_OPERATION_SIZE, psz, E);
  case 1: return cb ? ccs_object_serialize(h, F, CCS_SERIALIZE_OPERATION_FILE, path, C, ser_opt_cb, TAG_SER, E) : ccs_object_serialize(h, F, CCS_SERIALIZE_OPERATION_FILE, path, E);
  case 2: return cb ? ccs_object_serialize(h, F, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, C, ser_opt_cb, TAG_SER, E) : ccs_object_serialize(h, F, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, E);
  case 3: return cb ? ccs_object_serialize(h, F, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, CCS_SERIALIZE_OPTION_NON_BLOCKING, st, C, ser_opt_cb, TAG_SER, E) : ccs_object_serialize(h, F, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, CCS_SERIALIZE_OPTION_NON_BLOCKING, st, E);
  default: return cb ? ccs_object_serialize(h, F, CCS_SERIALIZE_OPERATION_MEMORY, n, buf, C, ser_opt_cb, TAG_SER, E) : ccs_object_serialize(h, F, CCS_SERIALIZE_OPERATION_MEMORY, n, buf, E); }
}
struct DesArgs { int tr; bool cb; size_t n; const char *buf; const char *path; int fd; void **st; ccs_map_t map; void *vec; void *data; };
static ccs_result_t do_des(ccs_object_t *h, const DesArgs &a) {
  ccs_serialize_format_t F = CCS_SERIALIZE_FORMAT_BINARY; const int E = CCS_DESERIALIZE_OPTION_END, M = CCS_DESERIALIZE_OPTION_HANDLE_MAP, V = CCS_DESERIALIZE_OPTION_VECTOR, D = CCS_DESERIALIZE_OPTION_DATA, N = CCS_DESERIALIZE_OPTION_NON_BLOCKING, C = CCS_DESERIALIZE_OPTION_CALLBACK;
#define DES_TAIL(...) \
  (a.map ? (a.vec ? (a.cb ? ccs_object_deserialize(h, F, __VA_ARGS__, M, a.map, V, a.vec, D, a.data, C, des_opt_cb, TAG_DES, E) : ccs_object_deserialize(h, F, __VA_ARGS__, M, a.map, V, a.vec, D, a.data, E)) \
                  : (a.cb ? ccs_object_deserialize(h, F, __VA_ARGS__, M, a.map, C, des_opt_cb, TAG_DES, E) : ccs_object_deserialize(h, F, __VA_ARGS__, M, a.map, E))) \
         : (a.vec ? (a.cb ? ccs_object_deserialize(h, F, __VA_ARGS__, V, a.vec, D, a.data, C, des_opt_cb, TAG_DES, E) : ccs_object_deserialize(h, F, __VA_ARGS__, V, a.vec, D, a.data, E)) \
                  : (a.cb ? ccs_object_deserialize(h, F, __VA_ARGS__, C, des_opt_cb, TAG_DES, E) : ccs_object_deserialize(h, F, __VA_ARGS__, E))))
  switch (a.tr) {
  case 1: return DES_TAIL(CCS_SERIALIZE_OPERATION_FILE, a.path);
  case 2: return DES_TAIL(CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, a.fd);
  case 3: return DES_TAIL(CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, a.fd, N, a.st);
  default: return DES_TAIL(CCS_SERIALIZE_OPERATION_MEMORY, a.n, a.buf); }
}
static Str text_or(VM &vm, ccs_object_t h, int fl);
static Str dep_sig(VM &vm, const VM::Image &im) { Str s; for (auto &d : im.deps) { P x = d.second.lock(); if (x) s += text_or(vm, x->h, 0) + "\n"; } return s; }   // a binding is restored into the space as it was
static Str text_or(VM &vm, ccs_object_t h, int fl) { try { return atext(h, fl); } catch (DescribeError &e) { return "!" + vm.rname(e.r) + " " + e.where; } }
static void keep_image(VM &vm, int idx, const P &o, bool cb, const Str &bytes, const Str &text, const Str &utext) {
  VM::Image im; im.bytes = bytes; im.kind = o->kind; im.cb = cb; im.text = text; im.utext = utext; im.orig = o->h; im.user = (o->ut && (o->kind == K_TUNER || o->kind == K_FTUNER || o->kind == K_TTUNER)) || o->dyn; im.top_cb = o->sercb; im.top_u = o->udata;
  im.vec = o->ut && o->kind != K_TSPACE ? (int)o->kind | o->ut->opt << 8 : 0;
  if (o->kind == K_TSPACE && o->dyn) im.vec = K_TSPACE | (o->ut ? o->ut->opt << 8 : 0);
  if (o->kind == K_TTUNER && o->ts && o->ts->dyn) im.vec = K_TSPACE | (o->ts->ut ? o->ts->ut->opt << 8 : 0);
  if (o->foreign) { im.vec = o->fvec; }
  if (!o->foreign) for (auto &d : deps_of(*o)) { im.deps.push_back({d->h, d}); }
  im.depsig = dep_sig(vm, im);
  im.orig_bytes = bytes; im.foreign_u = o->foreign; vm.images[idx] = im;
}
static void ser_done(VM &vm, const Str &bytes, size_t announced, const char *how) {
  if (bytes.size() != announced) vm.bad("announce", fmt("%s serialization produced %zu bytes but %zu were announced", how, bytes.size(), announced));
}
OP(ser) { // slot image transport cb [delta]
  Rd r(op); P o = vm.get(r.n(), -1); int idx = (int)r.n(), tr = (int)r.n(); bool cb = r.n(); size_t delta = (size_t)r.n(1); if (!o || !can_ser(*o)) SKIP;
  if (vm.xfers.count(idx)) SKIP;
  Str t0 = text_or(vm, o->h, D_RNGSTATE), u0 = text_or(vm, o->h, D_RNGSTATE | D_USERDATA); size_t sz = 0; Str path = fmt("f%d", idx), bytes;
  auto qs = [&](size_t *p) { return do_ser(o->h, 4, cb, 0, nullptr, nullptr, 0, nullptr, p); };
  if (tr == 4) { ccs_result_t e = vm.call([&] { return qs(&sz); }); vm.out("ser_size " + vm.rname(e) + (e >= 0 ? fmt(" %zu", sz) : Str())); vm.judge("announce", e, true, "asking for the serialized size"); return; }
  { ccs_result_t e = qs(&sz); if (e < 0) { ccs_clear_thread_error(); vm.bad("announce", "asking for the serialized size failed: " + vm.rname(e)); return; } }
  ccs_result_t e = CCS_RESULT_SUCCESS; int fd = -1;
  if (tr == 0 || tr == 5 || tr == 6) {
    size_t n = tr == 5 ? sz - std::min(sz, std::max<size_t>(1, delta)) : tr == 6 ? sz + delta : sz; std::unique_ptr<char[]> b(new char[n ? n : 1]); // exact heap block: overruns are caught
    e = vm.call([&] { memset(b.get(), 0x77, n); return do_ser(o->h, 0, cb, n, b.get(), nullptr, 0, nullptr, nullptr); });
    if (tr == 5) { vm.out("ser_small " + vm.rname(e)); vm.judge("announce", e, false, "serializing into a buffer that is too small"); return; }
    if (e >= 0 && tr == 6) for (size_t i = sz; i < n; i++) if (b[i] != 0x77) { vm.bad("announce", "serialization wrote beyond the announced size"); break; }
    if (e >= 0) bytes.assign(b.get(), sz);
  } else if (tr == 1) {
    // the file may exist already, with longer or shorter content
    if (delta % 3 == 0) vm.ctx->files.erase(path); else vm.ctx->files[path].data.assign(delta % 3 == 1 ? sz + delta : sz / 2, 'J');
    e = vm.call([&] { return do_ser(o->h, 1, cb, 0, nullptr, path.c_str(), 0, nullptr, nullptr); });
    if (e >= 0) { auto &d = vm.ctx->files[path].data; bytes.assign(d.begin(), d.end()); }
  } else {
    fd = sim::open_stream(*vm.ctx); void *st = nullptr; vm.ctx->nonblock = tr == 3;
    e = vm.call([&] { vm.ctx->streams[fd].clear(); st = nullptr; ccs_result_t x; do x = do_ser(o->h, tr, cb, 0, nullptr, nullptr, fd, &st, nullptr); while (x == CCS_RESULT_AGAIN && tr == 3);
      if (st) { vm.defer("announce", "the state of a finished non-blocking transfer was not given back"); } return x; });
    vm.ctx->nonblock = false; auto &s = vm.ctx->streams[fd]; if (e >= 0) bytes.assign(s.begin(), s.end());
    vm.ctx->fds[fd].open = false; vm.ctx->streams.erase(fd);
  }
  vm.out("ser " + vm.rname(e)); vm.judge("roundtrip", e, true, "serializing"); if (e < 0) return;
  vm.out(fmt("  %zu bytes", bytes.size())); ser_done(vm, bytes, sz, tr == 1 ? "file" : tr >= 2 && tr <= 3 ? "descriptor" : "memory");
  Str t1 = text_or(vm, o->h, D_RNGSTATE | D_USERDATA); if (t1 != u0) vm.bad("roundtrip", "serializing changed the object:\n" + u0 + "\n---\n" + t1);
  keep_image(vm, idx, o, cb, bytes, t0, u0);
}
static bool fill_map(VM &vm, const VM::Image &im, ccs_map_t *m) {
  *m = nullptr; if (ccs_create_map(m) < 0) return false;
  for (auto &d : im.deps) { P x = d.second.lock(); ccs_datum_t k = ccs_object(d.first); k.flags |= CCS_DATUM_FLAG_ID; if (!x || ccs_map_set(*m, k, ccs_object(x->h)) < 0) { ccs_release_object(*m); *m = nullptr; ccs_clear_thread_error(); return false; } }
  (void)vm; return true;
}
static size_t map_n(ccs_map_t m) { size_t n = 0; if (m) ccs_map_get_keys(m, 0, nullptr, &n); return n; }
// adopt a restored object and compare it with what was serialized
static void take_restored(VM &vm, const Op &op, const VM::Image &im, ccs_object_t h, bool cb, std::shared_ptr<UserTuner> u, ccs_map_t map) {
  ccs_object_type_t ty = CCS_OBJECT_TYPE_MAX; ccs_object_get_type(h, &ty);
  if ((int)ty != im.kind) { vm.bad("roundtrip", fmt("the restored object has type %d instead of %d", (int)ty, im.kind)); return; }
  P o = vm.made(op, (Kind)im.kind, h, ""); o->foreign = true; o->ut = u; o->fvec = im.vec; if (u) u->obj = o.get(); for (auto &d : im.deps) if (P x = d.second.lock()) o->refs.push_back(x);
  if ((im.vec & 255) == K_TSPACE) o->dyn = true;
  bool both = cb && im.cb; Str w = both ? im.utext : im.text, t = text_or(vm, h, D_RNGSTATE | (both ? D_USERDATA : 0));
  if (t != w && dep_sig(vm, im) == im.depsig) vm.bad("roundtrip", "the restored object differs:\n--- serialized\n" + w + "\n--- restored\n" + t);
  void *p = nullptr; ccs_object_get_user_data(h, &p); int64_t want = cb && (im.cb || im.top_cb) ? im.top_u : 0; if (im.foreign_u) want = (int64_t)(intptr_t)p;
  if ((int64_t)(intptr_t)p != want) vm.bad("roundtrip", fmt("the user data of the restored object is %ld instead of %ld", (long)(intptr_t)p, (long)want));
  o->udata = want;
  if (map) {
    ccs_datum_t k = ccs_object(im.orig), d; k.flags |= CCS_DATUM_FLAG_ID; ccs_bool_t ex = CCS_FALSE; ccs_result_t e = ccs_map_exist(map, k, &ex); if (e >= 0) e = ccs_map_get(map, k, &d);
    if (e < 0 || !ex || d.type != CCS_DATA_TYPE_OBJECT || d.value.o != h) { ccs_clear_thread_error(); vm.bad("roundtrip", "the handle map does not map the original handle to the restored object"); }
  }
  vm.out("  " + t);
}
OP(deser) { // image transport cb usemap
  Rd r(op); int idx = (int)r.n(), tr = (int)r.n(); bool cb = r.n(), um = r.n(); auto it = vm.images.find(idx); if (it == vm.images.end() || it->second.dirty) SKIP; VM::Image im = it->second;
  for (auto &d : im.deps) if (d.second.expired()) SKIP;
  if (dep_sig(vm, im) != im.depsig) SKIP;
  if (!im.deps.empty()) um = true;
  ccs_map_t map = nullptr; std::shared_ptr<UserTuner> u; if (im.vec) u = ut_make(vm, im.vec, 0);
  if (um && !fill_map(vm, im, &map)) SKIP;
  ccs_object_t h; Str path = fmt("g%d", idx); int fd = -1; void *st = nullptr; std::unique_ptr<char[]> b; static const char sent[8] = {'\x5a', '\x5a', '\x5a', '\x5a', '\x5a', '\x5a', '\x5a', '\x5a'};
  auto feed = [&] { if (fd >= 0) { auto &s = vm.ctx->streams[fd]; s.assign(im.bytes.begin(), im.bytes.end()); s.insert(s.end(), sent, sent + 8); } };
  if (tr == 0) { b.reset(new char[im.bytes.size()]); memcpy(b.get(), im.bytes.data(), im.bytes.size()); }
  else if (tr == 1) vm.ctx->files[path].data.assign(im.bytes.begin(), im.bytes.end());
  else { fd = sim::open_stream(*vm.ctx); vm.ctx->nonblock = tr == 3; }
  DesArgs a{tr, cb, im.bytes.size(), b.get(), path.c_str(), fd, &st, nullptr, im.vec ? ut_vector(im.vec) : nullptr, u.get()};
  if (u) u->obj = nullptr;
  ccs_object_t keep = nullptr;
  ccs_result_t e = vm.create(&h, [&](ccs_object_t *o) { keep = *o; feed(); st = nullptr; a.map = map; size_t nm = map_n(map); if (u) { u->dels = 0; u->counter = 0; u->shape = 0; } ccs_result_t x; do x = do_des(o, a); while (x == CCS_RESULT_AGAIN && tr == 3); if (st) vm.defer("announce", "the state of a finished non-blocking transfer was not given back");
      if (x < 0 && map_n(map) != nm) vm.defer(vm.damaged ? "damaged" : "unchanged", "a failed deserialization left entries in the handle map");
      if (x < 0 && *o != keep && *o != nullptr) vm.defer(vm.damaged ? "damaged" : "unchanged", "a failed deserialization returned an object"); return x; });
  vm.ctx->nonblock = false; Str left; if (fd >= 0) { auto &s = vm.ctx->streams[fd]; left.assign(s.begin(), s.end()); vm.ctx->fds[fd].open = false; vm.ctx->streams.erase(fd); }
  vm.out("deser " + vm.rname(e)); vm.judge("roundtrip", e, true, "deserializing");
  if (e >= 0) {
    if (fd >= 0 && left != Str(sent, 8)) vm.bad("roundtrip", fmt("deserialization from a descriptor left %zu of the 8 bytes that follow the object", left.size()));
    take_restored(vm, op, im, h, cb, u, map);
  } else if (u && u->dels > 1) vm.bad("cb", "the del callback ran more than once");
  if (map) ccs_release_object(map);
}
// ---- transfers suspended across other operations -------------------------------------------
// one step of a suspended transfer; true when it is over
static bool xfer_step(VM &vm, Xfer &x, const Op &op, bool final) {
  vm.ctx->nonblock = true; ccs_result_t e; ccs_object_t h = nullptr;
  auto step = [&]() -> ccs_result_t { if (x.ser) return do_ser(x.obj, 3, x.cb, 0, nullptr, nullptr, x.fd, &x.state, nullptr); DesArgs a{3, x.cb, 0, nullptr, nullptr, x.fd, &x.state, x.map, x.im.vec ? ut_vector(x.im.vec) : nullptr, x.u.get()}; return do_des(&h, a); };
  if (final) { vm.ctx->io_calls = 0; vm.ctx->io_budget = 200000; vm.ctx->plan.clear(); e = step(); vm.ctx->io_budget = 0; vm.settle(); if (e < 0) ccs_clear_thread_error(); } else e = vm.call(step);
  vm.ctx->nonblock = false; if (!final) vm.out("step " + vm.rname(e)); if (e == CCS_RESULT_AGAIN) { if (!x.state) vm.bad("roundtrip", "a suspended transfer has no state to resume from"); return false; }
  auto &s = vm.ctx->streams[x.fd]; Str data(s.begin(), s.end()); vm.ctx->fds[x.fd].open = false; vm.ctx->streams.erase(x.fd);
  if (x.state) vm.bad("announce", "the state of a finished non-blocking transfer was not given back");
  if (e < 0) { if (x.map) ccs_release_object(x.map); vm.bad("roundtrip", "resuming a transfer failed: " + vm.rname(e)); return true; }
  if (x.ser) { ser_done(vm, data, x.announced, "suspended descriptor"); if (x.keep) { keep_image(vm, x.idx, x.keep, x.cb, data, x.expect, x.uexpect); auto &im = vm.images[x.idx]; im.top_cb = x.top_cb; im.top_u = x.top_u; im.depsig = x.im.depsig; } x.keep = nullptr; }
  else {
    if (data != Str(8, '\x5a')) vm.bad("roundtrip", fmt("a suspended deserialization left %zu of the 8 bytes that follow the object", data.size()));
    Op o2 = op; o2.out = x.out; take_restored(vm, o2, x.im, h, x.cb, x.u, x.map); if (x.map) ccs_release_object(x.map); x.map = nullptr;
  }
  return true;
}
void Xfer::abort(VM &vm) { Op o; bool done = false; for (int i = 0; i < 4 && !done; i++) done = xfer_step(vm, *this, o, true); if (!done) vm.bad("hang", "a suspended transfer does not finish although the descriptor is ready"); }
OP(ser_nb) { // slot image cb
  Rd r(op); P o = vm.get(r.n(), -1); int idx = (int)r.n(); bool cb = r.n(); if (!o || !can_ser(*o) || vm.xfers.count(idx) || vm.xfers.count(idx + 1000)) SKIP;
  Xfer x; x.active = true; x.ser = true; x.cb = cb; x.idx = idx; x.obj = o->h; x.keep = o; x.top_cb = o->sercb; x.top_u = o->udata; if (!o->foreign) for (auto &d : deps_of(*o)) x.im.deps.push_back({d->h, d}); x.im.depsig = dep_sig(vm, x.im); x.expect = text_or(vm, o->h, D_RNGSTATE); x.uexpect = text_or(vm, o->h, D_RNGSTATE | D_USERDATA);
  ccs_result_t e = do_ser(o->h, 4, cb, 0, nullptr, nullptr, 0, nullptr, &x.announced); if (e < 0) { ccs_clear_thread_error(); vm.bad("announce", "asking for the serialized size failed: " + vm.rname(e)); return; }
  x.fd = sim::open_stream(*vm.ctx); x.hold = true; ccs_retain_object(o->h);
  bool done = xfer_step(vm, x, op, false); if (!done) vm.xfers[idx] = x; else ccs_release_object(o->h);
}
OP(deser_nb) { // image cb usemap
  Rd r(op); int idx = (int)r.n(); bool cb = r.n(), um = r.n(); auto it = vm.images.find(idx); if (it == vm.images.end() || it->second.dirty || vm.xfers.count(idx + 1000)) SKIP; VM::Image im = it->second;
  for (auto &d : im.deps) if (d.second.expired()) SKIP;
  if (dep_sig(vm, im) != im.depsig) SKIP;
  Xfer x; x.active = true; x.cb = cb; x.idx = idx; x.im = im; x.out = op.out; if (im.vec) x.u = ut_make(vm, im.vec, 0);
  if ((um || !im.deps.empty()) && !fill_map(vm, im, &x.map)) SKIP;
  x.fd = sim::open_stream(*vm.ctx); auto &s = vm.ctx->streams[x.fd]; s.assign(im.bytes.begin(), im.bytes.end()); s.insert(s.end(), 8, '\x5a');
  bool done = xfer_step(vm, x, op, false); if (!done) vm.xfers[idx + 1000] = x;
}
OP(xfer_go) { // key
  Rd r(op); int k = (int)r.n(); auto it = vm.xfers.find(k); if (it == vm.xfers.end()) SKIP; Xfer x = it->second; vm.xfers.erase(it); ccs_object_t held = x.hold ? x.obj : nullptr; P kp = x.keep;
  bool done = xfer_step(vm, x, op, false); if (!done) vm.xfers[k] = x; else if (held) { kp = nullptr; x.keep = nullptr; ccs_release_object(held); }
}
// ---- damaged images ---------------------------------------------------------------------------
OP(mut) { // image kind a b
  Rd r(op); int idx = (int)r.n(), k = (int)r.n(); uint64_t a = (uint64_t)r.n(), b = (uint64_t)r.n(); auto it = vm.images.find(idx); if (it == vm.images.end()) SKIP; auto &im = it->second; Str &s = im.bytes; if (s.empty()) SKIP;
  size_t n = s.size(); if (!im.full) im.full = n; im.dirty = true; size_t hdr = std::min<size_t>(n, 24);
  switch (k) {
  case 99: im.bytes = im.orig_bytes; im.dirty = false; vm.out("mut reset"); return;
  case 0: s.resize(a % n); sim::g_cnt.truncation++; break;
  case 1: { size_t p = a % n; s[p] = (char)(s[p] ^ (1 << (b % 8))); sim::g_cnt.bitflip++; break; }
  case 2: { size_t p = a % n, m = std::min<size_t>(n - p, 1 + b % 64); for (size_t i = 0; i < m; i++) s[p + i] = 0; sim::g_cnt.torn++; break; }
  case 3: { size_t p = a % n; s[p] = (char)b; sim::g_cnt.bitflip++; break; }
  case 4: { size_t p = a % n, q = b % n, m = std::min<size_t>({(size_t)32, n - p, n - q}); memmove(&s[p], Str(s, q, m).data(), m); sim::g_cnt.torn++; break; }      // stale sector
  case 5: { size_t p = n > hdr + 8 ? hdr + a % (n - hdr - 8) : 0; if (p + 8 <= n) { static const uint64_t v[] = {~0ull, 1ull << 63, 0x7fffffffull, 0xffffffffull, 1ull << 32, 0x100000000000001ull, 0, 0x7ff8000000000000ull}; memcpy(&s[p], &v[b % 8], 8); } sim::g_cnt.bitflip++; break; }
  case 6: s += Str(1 + b % 40, (char)a); break;                                        // trailing bytes
  case 7: { size_t p = a % n; for (size_t i = p; i < n; i++) s[i] = 0; sim::g_cnt.torn++; break; }  // tail never reached the disk
  case 8: { size_t p = a % n; uint8_t c = (uint8_t)(b % 5); for (size_t i = 0; i < 9 && p + i < n; i++) s[p + i] = (char)(i < 8 ? 0xff : c); sim::g_cnt.bitflip++; break; } // huge variable-length count
  case 9: { size_t p = a % n, m = 1 + b % 16; s.erase(p, m); sim::g_cnt.torn++; break; }  // lost bytes in the middle
  case 10: {                                                                            // the identity of one object over that of another
    std::map<size_t, Str> at; for (auto &h : vm.handles) { Str e; uint64_t x = (uint64_t)(uintptr_t)h.first; do { e += (char)((x & 0x7f) | (x > 0x7f ? 0x80 : 0)); x >>= 7; } while (x); if (e.size() > 4) for (size_t p = s.find(e); p != Str::npos; p = s.find(e, p + 1)) at[p] = e; }
    if (at.size() < 2) break; auto p = at.begin(), q = at.begin(); std::advance(p, a % at.size()); std::advance(q, b % at.size()); s.replace(p->first, p->second.size(), q->second); sim::g_cnt.bitflip++; break; }
  }
  vm.out(fmt("mut %zu", s.size()));
}
static Vec<Str> rng_tokens(const Str &t) { Vec<Str> r; size_t p = 0; while ((p = t.find("rng(", p)) != Str::npos) { size_t e = t.find(')', p); r.push_back(t.substr(p, e - p)); p += 4; } return r; }
static void sweep(VM &vm, const P &o, const Str &was) {
  ccs_object_t h = o->h; Str t; int fl = D_RNGSTATE | D_USERDATA | D_HASH;
  try { t = atext(h, fl); } catch (DescribeError &e) { vm.bad("damaged", "an object accepted from a damaged image cannot be read: " + vm.rname(e.r) + " from " + e.where); }
  // The state of a generator is an opaque image of the GSL's memory: nothing can tell whether it was damaged, and drawing from a
  // damaged one is not safe. Noted, and the object is not made to draw numbers.
  bool draw = true; Vec<Str> ta = rng_tokens(was), tb = rng_tokens(t); for (auto &x : tb) if (std::find(ta.begin(), ta.end(), x) == ta.end()) draw = false;
  if (!draw && vm.foreign.size() < 8) vm.foreign.push_back({"rngstate", "a damaged generator state was accepted"});
  // a normal distribution far away from the values it may produce is legal, and rejection sampling from it does not end
  if (t.find("normal(") != Str::npos && atext(h, D_RNGSTATE) != was) draw = false;
  if (draw) { ccs_configuration_t c[3] = {nullptr, nullptr, nullptr}; ccs_tree_configuration_t tc[3] = {nullptr, nullptr, nullptr}; size_t got = 0; ccs_bool_t b;   // what could be sampled is given back even when the rest could not
  switch (o->kind) {
  case K_RNG: { unsigned long v; ccs_rng_get((ccs_rng_t)h, &v); double f; ccs_rng_uniform((ccs_rng_t)h, &f); break; }
  case K_DIST: { size_t dim = 0; ccs_rng_t g = nullptr; if (ccs_distribution_get_dimension((ccs_distribution_t)h, &dim) >= 0 && dim < 100000 && ccs_create_rng(&g) >= 0) { Vec<ccs_numeric_t> v(dim * 4 + 1); ccs_distribution_samples((ccs_distribution_t)h, g, 4, v.data()); Vec<ccs_interval_t> iv(dim + 1); ccs_distribution_get_bounds((ccs_distribution_t)h, iv.data()); ccs_release_object(g); } break; }
  case K_PARAM: { ccs_datum_t d; ccs_rng_t g = nullptr; ccs_distribution_t ds = nullptr; if (ccs_parameter_get_default_value((ccs_parameter_t)h, &d) >= 0) ccs_parameter_check_value((ccs_parameter_t)h, d, &b); if (ccs_create_rng(&g) >= 0) { if (ccs_parameter_get_default_distribution((ccs_parameter_t)h, &ds) >= 0) { ccs_datum_t v[3]; ccs_parameter_samples((ccs_parameter_t)h, ds, g, 3, v); ccs_release_object(ds); } ccs_release_object(g); } break; }
  case K_EXPR: { ccs_datum_t d; ccs_expression_eval((ccs_expression_t)h, 0, nullptr, &d); size_t n = 0; ccs_expression_list_eval_node((ccs_expression_t)h, 0, nullptr, 0, &d); (void)n; break; }
  case K_CSPACE: for (int k = 0; k < 2; k++) if (ccs_configuration_space_sample((ccs_configuration_space_t)h, &c[k]) >= 0) { ccs_configuration_check(c[k], &b); ccs_release_object(c[k]); } break;
  case K_TUNER: ccs_tuner_ask((ccs_tuner_t)h, 2, c, &got); for (size_t i = 0; i < 2; i++) if (c[i]) ccs_release_object(c[i]); c[0] = nullptr; if (ccs_tuner_suggest((ccs_tuner_t)h, c) >= 0) ccs_release_object(c[0]); break;
  case K_TTUNER: ccs_tree_tuner_ask((ccs_tree_tuner_t)h, 2, tc, &got); for (size_t i = 0; i < 2; i++) if (tc[i]) ccs_release_object(tc[i]); tc[0] = nullptr; if (ccs_tree_tuner_suggest((ccs_tree_tuner_t)h, tc) >= 0) ccs_release_object(tc[0]); break;
  case K_TSPACE: for (int k = 0; k < 2; k++) if (ccs_tree_space_sample((ccs_tree_space_t)h, &tc[0]) >= 0) { ccs_tree_configuration_check(tc[0], &b); ccs_release_object(tc[0]); } break;
  case K_CONF: ccs_configuration_check((ccs_configuration_t)h, &b); break;
  case K_FEAT: ccs_features_check((ccs_features_t)h, &b); break;
  case K_EVAL: ccs_evaluation_check((ccs_evaluation_t)h, &b); break;
  case K_FEVAL: ccs_features_evaluation_check((ccs_features_evaluation_t)h, &b); break;
  case K_TEVAL: ccs_tree_evaluation_check((ccs_tree_evaluation_t)h, &b); break;
  case K_TCONF: ccs_tree_configuration_check((ccs_tree_configuration_t)h, &b); break;
  case K_TREE: { ccs_rng_t g = nullptr; if (ccs_create_rng(&g) >= 0) { size_t v[4]; ccs_tree_samples((ccs_tree_t)h, g, 4, v); ccs_release_object(g); } break; }
  case K_MAP: { size_t n = 0; if (ccs_map_get_keys((ccs_map_t)h, 0, nullptr, &n) >= 0 && n && n < 100000) { Vec<ccs_datum_t> k(n); ccs_map_get_keys((ccs_map_t)h, n, k.data(), nullptr); ccs_datum_t d; for (auto &x : k) ccs_map_get((ccs_map_t)h, x, &d); } ccs_map_set((ccs_map_t)h, ccs_int(4242), ccs_float(1)); break; }
  default: break;
  } }
  ccs_clear_thread_error();
  // it can be serialized again
  size_t sz = 0; ccs_result_t e = do_ser(h, 4, false, 0, nullptr, nullptr, 0, nullptr, &sz);
  if (e >= 0 && sz < (1u << 24)) { std::unique_ptr<char[]> buf(new char[sz]); e = do_ser(h, 0, false, sz, buf.get(), nullptr, 0, nullptr, nullptr); if (e < 0) { ccs_clear_thread_error(); vm.bad("damaged", "an object accepted from a damaged image cannot be serialized again: " + vm.rname(e)); } }
  ccs_clear_thread_error(); vm.out("  accepted");
}
OP(deser_bad) { // image transport cb usemap
  Rd r(op); int idx = (int)r.n(), tr = (int)r.n(); bool cb = r.n(), um = r.n(); auto it = vm.images.find(idx); if (it == vm.images.end()) SKIP; VM::Image &im = it->second;
  for (auto &d : im.deps) if (d.second.expired()) SKIP;
  if (dep_sig(vm, im) != im.depsig) SKIP;
  ccs_map_t map = nullptr; std::shared_ptr<UserTuner> u; if (im.vec) u = ut_make(vm, im.vec, 0); if ((um || !im.deps.empty()) && !fill_map(vm, im, &map)) SKIP;
  Str path = fmt("h%d", idx); int fd = -1; void *st = nullptr; std::unique_ptr<char[]> b; size_t n = im.bytes.size();
  if (tr == 0) { b.reset(new char[n ? n : 1]); memcpy(b.get(), im.bytes.data(), n); }
  else if (tr == 1) vm.ctx->files[path].data.assign(im.bytes.begin(), im.bytes.end());
  else { fd = sim::open_stream(*vm.ctx); vm.ctx->nonblock = tr == 3; vm.ctx->stream_eof = true; vm.ctx->streams[fd].assign(im.bytes.begin(), im.bytes.end()); }
  DesArgs a{tr, cb, n, b.get(), path.c_str(), fd, &st, map, im.vec ? ut_vector(im.vec) : nullptr, u.get()};
  static char mark; ccs_object_t h = (ccs_object_t)&mark; vm.damaged = true; int fds0 = sim::n_open_fds(*vm.ctx); size_t maps0 = vm.ctx->maps.size(), nm = map_n(map);
  ccs_result_t e = vm.call([&] { ccs_result_t x; do x = do_des(&h, a); while (x == CCS_RESULT_AGAIN && tr == 3); return x; });
  if (sim::n_open_fds(*vm.ctx) != fds0 || vm.ctx->maps.size() != maps0) vm.bad("damaged", "a descriptor or mapping stayed open");
  vm.ctx->nonblock = false; vm.ctx->stream_eof = false; if (fd >= 0) { vm.ctx->fds[fd].open = false; vm.ctx->streams.erase(fd); }
  vm.out("deser_bad " + vm.rname(e));
  if (e < 0 && map_n(map) != nm) vm.bad("damaged", "a failed deserialization left entries in the handle map");
  if (e < 0 && h != (ccs_object_t)&mark && h != nullptr) vm.bad("damaged", "a failed deserialization returned an object");
  if (e >= 0 && im.full && n < im.full && im.dirty && im.trunc_only()) { vm.bad("damaged", fmt("an image cut from %zu to %zu bytes was accepted", im.full, n)); }
  if (e >= 0 && (h == (ccs_object_t)&mark || !h)) vm.bad("damaged", "a successful deserialization returned no object");
  if (e >= 0) { ccs_object_type_t ty = CCS_OBJECT_TYPE_MAX; if (ccs_object_get_type(h, &ty) < 0 || ty >= CCS_OBJECT_TYPE_MAX) vm.bad("damaged", "the returned object has no type"); P o = vm.made(op, (Kind)ty, h, ""); o->foreign = true; o->ut = u; sweep(vm, o, im.text); o.reset(); if (map) ccs_release_object(map); map = nullptr; vm.drop_slot(op.out); }
  if (map) ccs_release_object(map);
  vm.damaged = false; vm.settle();
}
