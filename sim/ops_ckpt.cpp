// A tuning session that survives crashes through checkpoints (C02). The session
// only holds what a client really keeps: the tuner handle, the values of the
// configurations handed out, the features of its own choosing. A crash drops the
// whole simulated process; only files (and the clients' own notes as of the last
// completed checkpoint) survive.
#include "gen.h"
#include "session.h"
std::shared_ptr<UserTuner> ut_make(VM &vm, int kind, int64_t shape);

static Str tx(VM &vm, ccs_object_t h, int fl) { try { return atext(h, fl); } catch (DescribeError &e) { return "!" + vm.rname(e.r) + " " + e.where; } }
static ccs_configuration_space_t s_cs(Session &s) { ccs_configuration_space_t c = nullptr; if (s.kind == K_TUNER) ccs_tuner_get_configuration_space((ccs_tuner_t)s.t, &c); else ccs_features_tuner_get_configuration_space((ccs_features_tuner_t)s.t, &c); return c; }
static ccs_objective_space_t s_os(Session &s) { ccs_objective_space_t o = nullptr; if (s.kind == K_TUNER) ccs_tuner_get_objective_space((ccs_tuner_t)s.t, &o); else if (s.kind == K_FTUNER) ccs_features_tuner_get_objective_space((ccs_features_tuner_t)s.t, &o); else ccs_tree_tuner_get_objective_space((ccs_tree_tuner_t)s.t, &o); return o; }
static Vec<ccs_datum_t> data_of(const Vec<Val> &v) { Vec<ccs_datum_t> d; for (auto &x : v) d.push_back(datum_of(x)); return d; }
static ccs_features_t s_feat(Session &s, int64_t k) {
  if (s.kind != K_FTUNER || s.feats.empty()) return nullptr; ccs_features_space_t fs = nullptr; if (ccs_features_tuner_get_features_space((ccs_features_tuner_t)s.t, &fs) < 0) return nullptr;
  auto d = data_of(s.feats[(size_t)(k % (int64_t)s.feats.size())]); ccs_features_t f = nullptr; if (ccs_create_features(fs, d.size(), d.data(), &f) < 0) { ccs_clear_thread_error(); return nullptr; } return f;
}
static void note_conf(VM &vm, Session &s, ccs_object_t c, int64_t feat) {
  Session::Pend p; p.feat = feat;
  if (s.kind == K_TTUNER) { size_t n = 0; ccs_tree_configuration_get_position((ccs_tree_configuration_t)c, 0, nullptr, &n); p.pos.resize(n); if (n) ccs_tree_configuration_get_position((ccs_tree_configuration_t)c, n, p.pos.data(), nullptr); }
  else { size_t n = 0; ccs_configuration_get_values((ccs_configuration_t)c, 0, nullptr, &n); Vec<ccs_datum_t> d(n); if (n) ccs_configuration_get_values((ccs_configuration_t)c, n, d.data(), nullptr); for (auto &x : d) p.vals.push_back(val_of(vm, x)); }
  s.pend.push_back(p); if (s.pend.size() > 24) s.pend.erase(s.pend.begin());
}
OP(c2_begin) { // tuner feat...
  Rd r(op); P t = vm.get(r.n(), -1); if (!t || (t->kind != K_TUNER && t->kind != K_FTUNER && t->kind != K_TTUNER) || t->foreign || vm.sess) SKIP;
  auto s = std::make_shared<Session>(); s->t = t->h; s->kind = t->kind; s->vec = t->ut ? (int)t->kind | t->ut->opt << 8 : 0; if (t->kind == K_TTUNER && t->ts && t->ts->dyn) { if (t->ut) SKIP; s->vec = K_TSPACE | (t->ts->ut ? t->ts->ut->opt << 8 : 0); }
  while (r.more()) { P f = vm.get(r.n(), K_FEAT); if (f && f->space == t->fs) s->feats.push_back(f->values); }
  if (t->kind == K_FTUNER && s->feats.empty()) SKIP;
  s->ut = t->ut; if (ccs_retain_object(s->t) < 0) SKIP; vm.sess = s; vm.out("begin"); s->first = vm.cur_op;
}
OP(c2_ask) { // n feat
  if (!vm.sess) SKIP; Session &s = *vm.sess; Rd r(op); size_t n = (size_t)r.n(1), got = 0; int64_t fk = r.n(); Vec<ccs_object_t> c(n, nullptr); ccs_features_t f = s_feat(s, fk);
  ccs_result_t e = vm.call([&] { switch (s.kind) { case K_TUNER: return ccs_tuner_ask((ccs_tuner_t)s.t, n, (ccs_configuration_t *)c.data(), &got); case K_FTUNER: return ccs_features_tuner_ask((ccs_features_tuner_t)s.t, f, n, (ccs_configuration_t *)c.data(), &got); default: return ccs_tree_tuner_ask((ccs_tree_tuner_t)s.t, n, (ccs_tree_configuration_t *)c.data(), &got); } });
  vm.out("ask " + vm.rname(e)); if (f) ccs_release_object(f);
  for (size_t i = 0; i < n; i++) if (c[i]) { if (e >= 0 && i < got) { vm.out("  " + tx(vm, c[i], 0)); note_conf(vm, s, c[i], fk); } ccs_release_object(c[i]); }
}
OP(c2_suggest) { // feat
  if (!vm.sess) SKIP; Session &s = *vm.sess; Rd r(op); int64_t fk = r.n(); ccs_object_t c = nullptr; ccs_features_t f = s_feat(s, fk);
  ccs_result_t e = vm.call([&] { switch (s.kind) { case K_TUNER: return ccs_tuner_suggest((ccs_tuner_t)s.t, (ccs_configuration_t *)&c); case K_FTUNER: return ccs_features_tuner_suggest((ccs_features_tuner_t)s.t, f, (ccs_configuration_t *)&c); default: return ccs_tree_tuner_suggest((ccs_tree_tuner_t)s.t, (ccs_tree_configuration_t *)&c); } });
  vm.out("suggest " + vm.rname(e)); if (f) ccs_release_object(f); if (e >= 0 && c) { vm.out("  " + tx(vm, c, 0)); note_conf(vm, s, c, fk); ccs_release_object(c); }
}
OP(c2_tell) { // pending result keep vseed
  if (!vm.sess || vm.sess->pend.empty()) SKIP; Session &s = *vm.sess; Rd r(op); size_t k = (size_t)r.n() % s.pend.size(); int64_t res = r.n(); bool keep = r.n(); Rng64 g((uint64_t)r.n()); Session::Pend p = s.pend[k];
  ccs_objective_space_t os = s_os(s); size_t np = 0; ccs_objective_space_get_parameters(os, 0, nullptr, &np); Vec<ccs_parameter_t> ps(np); if (np) ccs_objective_space_get_parameters(os, np, ps.data(), nullptr); Vec<ccs_datum_t> vals;
  for (auto h : ps) {                     // a value inside the domain, few distinct ones so that ties and dominance both occur
    ccs_parameter_type_t ty; ccs_datum_t d = ccs_none; ccs_parameter_get_type(h, &ty); int64_t x = g.below(5);
    if (ty == CCS_PARAMETER_TYPE_NUMERICAL) { ccs_numeric_type_t nt; ccs_numeric_t lo, hi, q; ccs_numerical_parameter_get_properties(h, &nt, &lo, &hi, &q); if (nt == CCS_NUMERIC_TYPE_INT) { int64_t m = std::max<int64_t>(1, std::min<int64_t>(5, hi.i - lo.i)); d = ccs_int(lo.i + x % m); } else d = ccs_float(lo.f + (hi.f - lo.f) * (double)x / 8); }
    else ccs_parameter_get_default_value(h, &d);
    vals.push_back(d);
  }
  ccs_object_t conf = nullptr, ev = nullptr; ccs_features_t f = nullptr; ccs_result_t e; auto d = data_of(p.vals);
  if (s.kind == K_TTUNER) { ccs_tree_space_t ts = nullptr; ccs_tree_tuner_get_tree_space((ccs_tree_tuner_t)s.t, &ts); e = ccs_create_tree_configuration(ts, p.pos.size(), p.pos.data(), (ccs_tree_configuration_t *)&conf); }
  else e = ccs_create_configuration(s_cs(s), d.size(), d.data(), (ccs_configuration_t *)&conf);
  if (e >= 0) { if (s.kind == K_TUNER) e = ccs_create_evaluation(os, (ccs_configuration_t)conf, (ccs_evaluation_result_t)res, vals.size(), vals.data(), (ccs_evaluation_t *)&ev); else if (s.kind == K_TTUNER) e = ccs_create_tree_evaluation(os, (ccs_tree_configuration_t)conf, (ccs_evaluation_result_t)res, vals.size(), vals.data(), (ccs_tree_evaluation_t *)&ev); else { f = s_feat(s, p.feat); e = ccs_create_features_evaluation(os, (ccs_configuration_t)conf, f, (ccs_evaluation_result_t)res, vals.size(), vals.data(), (ccs_features_evaluation_t *)&ev); } }
  if (e < 0) { ccs_clear_thread_error(); vm.bad("differs", "a configuration handed out earlier cannot be evaluated any more: " + vm.rname(e)); }
  if (e >= 0) { e = vm.call([&] { switch (s.kind) { case K_TUNER: return ccs_tuner_tell((ccs_tuner_t)s.t, 1, (ccs_evaluation_t *)&ev); case K_FTUNER: return ccs_features_tuner_tell((ccs_features_tuner_t)s.t, 1, (ccs_features_evaluation_t *)&ev); default: return ccs_tree_tuner_tell((ccs_tree_tuner_t)s.t, 1, (ccs_tree_evaluation_t *)&ev); } }); vm.out("tell " + vm.rname(e) + " " + tx(vm, ev, 0)); }
  if (ev) ccs_release_object(ev); if (f) ccs_release_object(f); if (conf) ccs_release_object(conf); if (!keep) s.pend.erase(s.pend.begin() + (long)k); else sim::g_cnt.msg_dup++; if (res) sim::g_cnt.msg_fail++; if (k) sim::g_cnt.msg_reorder++;
}
OP(c2_query) { if (!vm.sess) SKIP; vm.out("query " + tx(vm, vm.sess->t, D_RNGSTATE)); }
static int c2_ser(ccs_object_t t, int tr, const char *path, int fd, size_t n, char *b) {
  if (tr == 0) return ccs_object_serialize(t, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE, path, CCS_SERIALIZE_OPTION_END);
  if (tr == 1) return ccs_object_serialize(t, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd, CCS_SERIALIZE_OPTION_END);
  return ccs_object_serialize(t, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_MEMORY, n, b, CCS_SERIALIZE_OPTION_END);
}
OP(c2_ckpt) { // transport failcall failnth: the write may be cut short by a failing system call; then this checkpoint never completed
  if (!vm.sess) SKIP; Session &s = *vm.sess; Rd r(op); int tr = (int)r.n(), fc = (int)r.n(-1), fn = (int)r.n(); Str path = fmt("ck%d", (int)(s.nck % 2)); Str before = tx(vm, s.t, D_RNGSTATE); ccs_result_t e = CCS_RESULT_SUCCESS; Str bytes;
  if (tr == 0) {
    vm.ctx->fail_call = fc; vm.ctx->fail_nth = fn; vm.ctx->fail_errno = 5; e = vm.call([&] { return (ccs_result_t)c2_ser(s.t, 0, path.c_str(), 0, 0, nullptr); }); vm.ctx->fail_call = -1;
    if (e >= 0) { auto &d = vm.ctx->files[path].data; bytes.assign(d.begin(), d.end()); }
  } else if (tr == 1) {
    int fd = sim::open_stream(*vm.ctx); vm.ctx->fail_call = fc; vm.ctx->fail_nth = fn; vm.ctx->fail_errno = 5; e = vm.call([&] { return (ccs_result_t)c2_ser(s.t, 1, nullptr, fd, 0, nullptr); }); vm.ctx->fail_call = -1;
    auto &d = vm.ctx->streams[fd]; bytes.assign(d.begin(), d.end()); vm.ctx->fds[fd].open = false; vm.ctx->streams.erase(fd); vm.ctx->files[path].data.assign(bytes.begin(), bytes.end());
  } else {
    size_t n = 0; e = ccs_object_serialize(s.t, CCS_SERIALIZE_FORMAT_BINARY, CCS_SERIALIZE_OPERATION_SIZE, &n, CCS_SERIALIZE_OPTION_END); std::unique_ptr<char[]> b(new char[n + 1]);
    e = vm.call([&] { return (ccs_result_t)c2_ser(s.t, 2, nullptr, 0, n, b.get()); }); if (e >= 0) { bytes.assign(b.get(), n); vm.ctx->files[path].data.assign(bytes.begin(), bytes.end()); }
  }
  Str after = tx(vm, s.t, D_RNGSTATE); if (before != after) vm.bad("differs", "taking a checkpoint changed the tuner:\n--- before\n" + before + "\n--- after\n" + after);
  if (e < 0) { sim::g_cnt.torn++; return; }
  s.nck++; s.ck.path = path; s.ck.tr = tr; s.ck.text = after; s.ck.pend = s.pend; s.ck.has = true; s.ck.op = vm.cur_op; s.ck.bytes = bytes;
}
OP(c2_crash) { // transport
  if (!vm.sess || !vm.sess->ck.has) SKIP; Session &s = *vm.sess; Rd r(op); int tr = (int)r.n();
  for (int i = s.ck.op + 1; i < vm.cur_op; i++) s.lost.insert(i);
  vm.crash(); ut_set_vm(&vm); obj_set_vm(&vm); s.t = nullptr; s.ut = nullptr;
  std::shared_ptr<UserTuner> u; if (s.vec) u = ut_make(vm, s.vec, 0);
  ccs_object_t h = nullptr; auto &fdta = vm.ctx->files[s.ck.path].data; Str bytes(fdta.begin(), fdta.end()); std::unique_ptr<char[]> b(new char[bytes.size() + 1]); memcpy(b.get(), bytes.data(), bytes.size()); int fd = -1;
  if (bytes != s.ck.bytes) vm.bad("differs", "a completed checkpoint changed on disk");
  if (tr == 1) { fd = sim::open_stream(*vm.ctx); vm.ctx->streams[fd].assign(bytes.begin(), bytes.end()); }
#define C2DES(...) (s.vec ? ccs_object_deserialize(&h, CCS_SERIALIZE_FORMAT_BINARY, __VA_ARGS__, CCS_DESERIALIZE_OPTION_VECTOR, ut_vector(s.vec), CCS_DESERIALIZE_OPTION_DATA, u.get(), CCS_DESERIALIZE_OPTION_END) : ccs_object_deserialize(&h, CCS_SERIALIZE_FORMAT_BINARY, __VA_ARGS__, CCS_DESERIALIZE_OPTION_END))
  ccs_result_t e = vm.call([&] { return tr == 0 ? C2DES(CCS_SERIALIZE_OPERATION_FILE, s.ck.path.c_str()) : tr == 1 ? C2DES(CCS_SERIALIZE_OPERATION_FILE_DESCRIPTOR, fd) : C2DES(CCS_SERIALIZE_OPERATION_MEMORY, bytes.size(), b.get()); });
  if (fd >= 0) { vm.ctx->fds[fd].open = false; vm.ctx->streams.erase(fd); }
  if (e < 0) { vm.bad("roundtrip", "restoring a completed checkpoint failed: " + vm.rname(e)); vm.sess = nullptr; return; }
  s.t = h; s.ut = u; s.pend = s.ck.pend; Str t = tx(vm, h, D_RNGSTATE);
  if (t != s.ck.text) vm.bad("roundtrip", "the restored tuner differs from the checkpointed one:\n--- checkpointed\n" + s.ck.text + "\n--- restored\n" + t);
}
OP(c2_end) { if (!vm.sess) SKIP; vm.out("end " + tx(vm, vm.sess->t, D_RNGSTATE)); ccs_release_object(vm.sess->t); vm.sess->t = nullptr; vm.settle(); }

void gen_ckpt(Gen &g) {
  int n = (int)g.r.range(10, (int64_t)g.c.get("len", 60)); int kind = (int)g.r.below(3); bool user = g.r.chance(35);
  int t = g.tuner(kind, user); if (t < 0) return; P tp = g.obj(t); Vec<int64_t> a = {t};
  if (kind == 1) { int fsl = -1; for (auto &kv : g.vm.slots) if (kv.second == tp->fs) fsl = kv.first; for (int i = 0; i < 3; i++) { int f = g.feat(fsl); if (f >= 0) { bool ok = true; P fo = g.obj(f); for (size_t j = 0; j < fo->values.size(); j++) ok = ok && m_in_domain(*tp->fs->params[j], fo->values[j]); if (ok) a.push_back(f); } } }
  tp = nullptr; g.emit("c2_begin", -1, a); if (!g.vm.sess) return;
  int wa = (int)g.r.range(1, 6), wt = (int)g.r.range(3, 12), wq = 2, ws = (int)g.r.range(0, 4), wk = (int)g.r.range(1, 4), wc = (int)g.r.range(1, 3), tot = wa + wt + wq + ws + wk + wc;
  for (int i = 0; i < n; i++) {
    int64_t k = g.r.below(tot);
    if ((k -= wa) < 0) g.emit("c2_ask", -1, {g.r.range(1, 4), g.r.below(3)}, g.plan(2));
    else if ((k -= wt) < 0) g.emit("c2_tell", -1, {g.r.below(64), g.r.chance(80) ? 0 : g.r.chance(25) ? g.r.range(1, 3) : -g.r.range(1, 3), g.r.chance(30), g.r.below(1 << 20)});
    else if ((k -= wq) < 0) g.emit("c2_query", -1, {});
    else if ((k -= ws) < 0) g.emit("c2_suggest", -1, {g.r.below(3)});
    else if ((k -= wk) < 0) { bool cut = g.r.chance(20); int64_t tr = g.r.below(3); static const int calls[] = {sim::IO_OPEN, sim::IO_FTRUNC, sim::IO_MMAP, sim::IO_MSYNC}; g.emit("c2_ckpt", -1, {tr, !cut || tr == 2 ? -1 : tr == 1 ? (int64_t)sim::IO_WRITE : calls[g.r.below(4)], tr == 1 ? g.r.range(1, 3) : 1}, g.plan(6)); if (cut) g.emit("c2_crash", -1, {g.r.below(3)}, g.plan(8)); }
    else g.emit("c2_crash", -1, {g.r.below(3)}, g.plan(8));
    if (!g.vm.sess) return;
  }
  g.emit("c2_query", -1, {}); g.emit("c2_end", -1, {});
}
