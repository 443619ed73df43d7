// VM core: executing operations with faults, liveness, leaks, case files.
#include "vm.h"
#include <gsl/gsl_rng.h>
#include <algorithm>
#include <sstream>
#include <stdlib.h>

Vec<OpDef> &op_table() { static Vec<OpDef> t; return t; }
int op_code(const Str &n) { auto &t = op_table(); for (size_t i = 0; i < t.size(); i++) if (n == t[i].name) return (int)i; return -1; }

// ---- case files --------------------------------------------------------------
static void case_text_rec(const Case &c, Str &s, const Str &ind) {
  for (auto &kv : c.cfg) s += ind + "cfg " + kv.first + " " + std::to_string(kv.second) + "\n";
  for (auto &o : c.ops) {
    s += ind + "op " + op_table()[o.code].name + fmt(" -> %d :", o.out);
    for (auto x : o.a) s += " " + std::to_string(x);
    if (o.io.size()) { s += " | io"; for (auto &d : o.io) s += fmt(" %d,%ld", d.act, (long)d.arg); }
    for (auto &f : o.faults) s += fmt(" | fault %d %ld %ld %ld", f.kind, (long)f.a, (long)f.b, (long)f.c);
    s += "\n";
  }
  if (c.sched.size()) { s += ind + "sched"; for (auto x : c.sched) s += fmt(" %d", x); s += "\n"; }
  for (auto &k : c.sub) { s += ind + "sub\n"; case_text_rec(k, s, ind + "  "); s += ind + "end\n"; }
}
Str case_text(const Case &c) {
  Str s = "case " + c.prop + " " + c.mode + " " + std::to_string(c.seed) + "\n";
  case_text_rec(c, s, ""); return s;
}
bool case_parse(const Str &text, Case &c, Str &err) {
  std::istringstream in(text); Str line; Vec<Case *> st; st.push_back(&c);
  while (std::getline(in, line)) {
    std::istringstream l(line); Str w; if (!(l >> w) || w[0] == '#') continue;
    Case &k = *st.back();
    if (w == "case") l >> k.prop >> k.mode >> k.seed;
    else if (w == "cfg") { Str n; int64_t v; l >> n >> v; k.cfg[n] = v; }
    else if (w == "sched") { int x; while (l >> x) k.sched.push_back(x); }
    else if (w == "sub") { k.sub.emplace_back(); st.push_back(&k.sub.back()); }
    else if (w == "end") st.pop_back();
    else if (w == "op") {
      Op o; Str n, t; l >> n; o.code = op_code(n); if (o.code < 0) { err = "unknown op " + n; return false; }
      l >> t >> o.out >> t;
      int mode = 0; Fault *f = nullptr; int fi = 0;
      while (l >> t) {
        if (t == "|") { l >> t; if (t == "io") mode = 1; else { mode = 2; o.faults.emplace_back(); f = &o.faults.back(); fi = 0; } continue; }
        if (mode == 0) o.a.push_back(strtoll(t.c_str(), nullptr, 10));
        else if (mode == 1) { size_t p = t.find(','); o.io.push_back({atoi(t.c_str()), strtoll(t.c_str() + p + 1, nullptr, 10)}); }
        else { int64_t v = strtoll(t.c_str(), nullptr, 10); if (fi == 0) f->kind = (int)v; else if (fi == 1) f->a = v; else if (fi == 2) f->b = v; else f->c = v; fi++; }
      }
      k.ops.push_back(o);
    } else { err = "bad line " + line; return false; }
  }
  return true;
}

// ---- violations ---------------------------------------------------------------
static const char *always[] = {"memory", "exit", "hang", "crash"};
void VM::bad(const char *cls, const Str &msg) {
  bool mine = cfg.classes.empty() || cfg.classes.count(cls);
  for (auto a : always) if (!strcmp(a, cls)) mine = true;
  sim::Violation v{cls, fmt("op %d%s%s: ", cur_op, op ? " " : "", op ? op_table()[op->code].name : "") + msg};
  if (mine) throw v;
  if (foreign.size() < 8) foreign.push_back(v);
}

// ---- objects ------------------------------------------------------------------
void vm_destroy_cb(ccs_object_t o, void *ud) {
  DestroyTok *t = (DestroyTok *)ud; t->fired++; t->seq = ++t->vm->destroy_seq;
  if (o != t->h) t->fired += 100;
}
void VM::put(int slot, const P &o, int refs) { auto it = slots.find(slot); if (it != slots.end()) drop_slot(slot); slots[slot] = o; srefs[slot] = refs; }
bool VM::attach_tok(const P &o) {
  auto t = std::make_unique<DestroyTok>(); t->obj = o; t->id = o->id; t->h = o->h; t->vm = this; t->order = (int)(o->ntoks++);
  ccs_result_t r = ccs_object_set_destroy_callback(o->h, vm_destroy_cb, t.get());
  if (r < 0) { ccs_clear_thread_error(); return false; }
  toks.push_back(std::move(t)); return true;
}
P VM::adopt(Kind k, ccs_object_t h, const Str &name) {
  P o = std::make_shared<Obj>(); o->kind = k; o->h = h; o->id = next_id++; o->name = name;
  handles[h] = o;
  if (!cfg.no_destroy_cb) attach_tok(o);
  return o;
}
P VM::find_handle(ccs_object_t h) { auto it = handles.find(h); if (it == handles.end()) return nullptr; return it->second.lock(); }
void VM::drop_slot(int slot) {
  auto it = slots.find(slot); if (it == slots.end()) return;
  ccs_object_t h = it->second->h; int n = srefs[slot]; slots.erase(it); srefs.erase(slot);     // the model lets go first: only handles below
  for (; n > 0; n--) { ccs_result_t r = ccs_release_object(h); if (r < 0) { ccs_clear_thread_error(); bad("alive", "release of a held object failed: " + rname(r)); return; } }
  settle(); check_alive();
}
void VM::check_alive() {
  if (!cfg.check_alive) return;
  for (size_t i = 0; i < toks.size(); ) {
    DestroyTok &t = *toks[i];
    bool gone = t.obj.expired();
    if (!gone && t.fired) { P o = t.obj.lock(); bad("alive", fmt("%s #%d was destroyed while still referenced", kind_name[o->kind], t.id)); }
    if (gone && !t.fired && !t.reported) { t.reported = true; bad("alive", fmt("object #%d was not destroyed when its last reference went away", t.id)); }
    if (t.fired > t.want) bad("alive", fmt("destroy callback of object #%d ran %d times or with the wrong object", t.id, t.fired));
    if (gone && t.fired && t.fired < t.want && !t.reported) { t.reported = true; bad("alive", fmt("a destroy callback registered %d times on object #%d ran %d times", t.want, t.id, t.fired)); }
    if (gone && t.fired == t.want) {
      // reverse order of registration (documented): a later registration of the same object must have a smaller sequence number
      for (auto &u : toks) if (u->id == t.id && u->order > t.order && u->fired && u->seq > t.seq) bad("alive", fmt("destroy callbacks of object #%d did not run in reverse order of registration", t.id));
      for (auto &u : toks) if (u.get() != &t && u->id == t.id && !u->fired && u->obj.expired()) bad("alive", fmt("a destroy callback of object #%d was not called", t.id));
      ended++; dead_toks.push_back(std::move(toks[i])); toks.erase(toks.begin() + i); continue;
    }
    i++;
  }
  for (auto &t : dead_toks) if (t->fired > t->want) bad("alive", fmt("destroy callback of object #%d ran again after destruction", t->id));
}
Str VM::rname(ccs_result_t r) {
  const char *n = nullptr; if (ccs_get_result_name(r, &n) < 0 || !n) { ccs_clear_thread_error(); return fmt("result%d", (int)r); }
  Str s = n; if (s.rfind("CCS_RESULT_", 0) == 0) s = s.substr(11); return s;
}

// ---- generators: raw state of every random generator reachable from the slots -----
void VM::each_rng(const std::function<void(ccs_rng_t)> &f) {
  std::set<ccs_rng_t> seen;
  auto add = [&](ccs_rng_t r) { if (r && seen.insert(r).second) f(r); };
  for (auto &kv : slots) {
    const P &o = kv.second; ccs_rng_t r = nullptr; ccs_configuration_space_t cs = nullptr; ccs_tree_space_t ts = nullptr;
    switch (o->kind) {
    case K_RNG: r = (ccs_rng_t)o->h; break;
    case K_CSPACE: ccs_configuration_space_get_rng((ccs_configuration_space_t)o->h, &r); break;
    case K_TSPACE: ccs_tree_space_get_rng((ccs_tree_space_t)o->h, &r); break;
    case K_TUNER: if (ccs_tuner_get_configuration_space((ccs_tuner_t)o->h, &cs) == 0) ccs_configuration_space_get_rng(cs, &r); break;
    case K_FTUNER: if (ccs_features_tuner_get_configuration_space((ccs_features_tuner_t)o->h, &cs) == 0) ccs_configuration_space_get_rng(cs, &r); break;
    case K_TTUNER: if (ccs_tree_tuner_get_tree_space((ccs_tree_tuner_t)o->h, &ts) == 0) ccs_tree_space_get_rng(ts, &r); break;
    default: break;
    }
    add(r);
  }
}
void VM::rng_save(RngSave &s) {
  s.clear();
  each_rng([&](ccs_rng_t r) { gsl_rng *g; if (ccs_rng_get_gsl_rng(r, &g) == 0) s.push_back({(ccs_object_t)r, Str((char *)gsl_rng_state(g), gsl_rng_size(g))}); });
}
void VM::rng_restore(const RngSave &s) {
  for (auto &x : s) { gsl_rng *g; if (ccs_rng_get_gsl_rng((ccs_rng_t)x.first, &g) == 0 && gsl_rng_size(g) == x.second.size()) memcpy(gsl_rng_state(g), x.second.data(), x.second.size()); }
}
static bool reaches_dyn(const P &o, int depth = 0) {
  if (!o || depth > 8) return false;
  if (o->dyn) return true;
  if (o->kind == K_TREE) { for (Obj *p = o.get(); p; p = p->parent) if (p->dyn) return true; for (auto &k : o->kids) if (k && reaches_dyn(k, depth)) return true; }
  if (reaches_dyn(o->ts, depth + 1) || reaches_dyn(o->tree, depth + 1) || reaches_dyn(o->space, depth + 1) || reaches_dyn(o->conf, depth + 1)) return true;
  for (auto &kv : o->kv) if (reaches_dyn(kv.first.o, depth + 1) || reaches_dyn(kv.second.o, depth + 1)) return true;
  return false;
}
void VM::snapshot(Vec<std::pair<P, Str>> &s) {
  s.clear();
  Vec<std::pair<int, P>> v(slots.begin(), slots.end());
  for (auto &kv : v) {
    const P &o = kv.second;
    if (reaches_dyn(o)) continue;
    Str t; try { t = atext(o->h, D_USERDATA); } catch (DescribeError &e) { t = "!" + rname(e.r) + " " + e.where; ccs_clear_thread_error(); }
    s.push_back({o, t});
  }
}
bool VM::cb_should_fail(ccs_result_t *err) {
  cb_count++;
  if (cb_fail_at > 0 && --cb_fail_at == 0) { cb_fired = true; if (cb_persist) cb_fail_at = 1; *err = (ccs_result_t)cb_fail_err; sim::g_cnt.cb_fail++; return true; }
  return false;
}
extern "C" bool simthr_api(Str &api, std::set<Str> &second) __attribute__((weak));
static Str mask_ptr(const char *m) { Str s; for (const char *p = m; *p;) { if (p[0] == '0' && p[1] == 'x') { p += 2; while (isxdigit((unsigned char)*p)) p++; s += "0x*"; } else s += *p++; } return s; }
void VM::after_error(ccs_result_t r) {
  failed_calls++;
  ccs_error_stack_t e = ccs_get_thread_error();
  if (cfg.trace_err) {
    Str s = "  trace";
    if (!e) s += " none"; else {
      ccs_result_t c; size_t n; ccs_error_stack_elem_t *el; const char *m;
      if (ccs_error_stack_get_code(e, &c) == 0 && ccs_error_stack_get_elems(e, &n, &el) == 0 && ccs_error_stack_get_message(e, &m) == 0) {
        s += " " + rname(c); for (size_t i = 0; i < n; i++) s += fmt(" %s", el[i].func); s += Str(" msg=") + (m ? mask_ptr(m) : "(null)");
        if (!last_api.empty() && n > 0 && last_api != el[n - 1].func && !last_second.count(el[n - 1].func)) { Str t; for (size_t i = 0; i < n; i++) t += fmt(" %s", el[i].func); out(s); ccs_release_object(e); bad("errtrace", "the error trace of " + last_api + " does not lead to that call: (innermost first)" + t); return; }
        if (n == 0) { ccs_release_object(e); bad("errtrace", "the error trace of " + last_api + " has no location"); return; }
      }
    }
    out(s);
  }
  if (e) {
    ccs_result_t c = CCS_RESULT_SUCCESS; ccs_error_stack_get_code(e, &c);
    if ((cfg.trace_err || cfg.keep_err) && c == r && cur_op >= 0 && cur_op % 3 == 1) {        // the user looks at the error and leaves it in place
      if (ccs_get_thread_error()) bad("errtrace", "an error trace is still present after it was taken");
      if (ccs_set_thread_error(e) < 0) bad("errtrace", "the error trace taken from the library is not accepted back");
      kept = true; return;
    }
    ccs_release_object(e); ccs_clear_thread_error();
    if (c != r) bad("errtrace", "the error trace of a failed call carries " + rname(c) + " while the call returned " + rname(r));
    if (ccs_get_thread_error()) bad("errtrace", "an error trace is still present after clearing it");
  }
}
static const char *fault_names[] = {"none", "allocation failure", "I/O error", "callback error"};
ccs_result_t VM::call(const std::function<ccs_result_t()> &f, const std::function<void(ccs_result_t)> &on_fail) {
  ccs_result_t r;
  auto run1 = [&](bool plan) {
    if (!kept || cur_op % 2) { ccs_clear_thread_error(); kept = false; } ctx->io_calls = 0; ctx->io_budget = 200000 + 0; if (plan) ctx->plan.assign(op->io.begin(), op->io.end()); else ctx->plan.clear();
    ccs_result_t x = f(); if (cfg.trace_err && simthr_api) { last_api.clear(); last_second.clear(); simthr_api(last_api, last_second); } ctx->io_budget = 0; ctx->plan.clear(); settle(); return x;
  };
  if (op && !op->faults.empty() && faults_on && !in_call) {
    in_call = true;
    for (auto &ft : op->faults) {
      Vec<std::pair<P, Str>> before; snapshot(before); RngSave rs; rng_save(rs);
      uint64_t fired0 = ctx->nfired, io0 = sim::g_cnt.io_err; int fds0 = sim::n_open_fds(*ctx); size_t maps0 = ctx->maps.size(); cb_fired = false; int64_t ci0 = (int64_t)ctx->io_zero;
      if (ft.kind == F_ALLOC) { ctx->fail_at = ft.a; ctx->fail_persist = ft.b; }
      else if (ft.kind == F_IO) { if (ft.a == 100) { ctx->eof_now = true; ctx->eof_after = ft.b; } else if (ft.a == 102) ctx->eof_size = ft.b; else if (ft.a == 103) ctx->wb_fail = true; else if (ft.a == 101) ctx->zero_writes = ft.b; else { ctx->fail_call = (int)ft.a; ctx->fail_nth = (int)ft.b; ctx->fail_errno = (int)ft.c; ctx->fail_persistent = false; } }
      else if (ft.kind == F_CB) { cb_fail_at = ft.a; cb_fail_err = ft.b; cb_persist = false; }
      r = run1(true);
      ctx->fail_at = 0; ctx->fail_persist = false; ctx->fail_call = -1; ctx->fail_nth = 0; ctx->eof_now = false; ctx->eof_size = INT64_MIN; ctx->wb_fail = false; ctx->zero_writes = 0; cb_fail_at = 0;
      bool fired = ft.kind == F_ALLOC ? ctx->nfired > fired0 : ft.kind == F_IO ? (sim::g_cnt.io_err > io0 || (int64_t)ctx->io_zero > ci0) : cb_fired;
      if (!fired) { in_call = false; return r; }
      faults_hit++;
      if (r >= 0) {
        if (ft.kind == F_CB) bad("cb", fmt("callback failed with %s but the enclosing call returned %s", rname((ccs_result_t)ft.b).c_str(), rname(r).c_str()));
        if (ft.kind == F_IO && ft.a != sim::IO_CLOSE && ft.a != sim::IO_MUNMAP) bad("iofault", fmt("a system call failed (call kind %ld) but the library reported %s", (long)ft.a, rname(r).c_str()));
        in_call = false; return r;
      }
      if (ft.kind == F_CB && r != (ccs_result_t)ft.b) bad("cb", fmt("callback failed with %s but the enclosing call returned %s", rname((ccs_result_t)ft.b).c_str(), rname(r).c_str()));
      bool q = quiet; quiet = true; after_error(r); quiet = q;
      if (on_fail) on_fail(r);
      if (sim::n_open_fds(*ctx) != fds0) bad(ft.kind == F_IO ? "iofault" : "unchanged", "a descriptor stayed open after the failed call");
      if (ctx->maps.size() != maps0) bad(ft.kind == F_IO ? "iofault" : "unchanged", "a mapping stayed after the failed call");
      check_alive();
      Vec<std::pair<P, Str>> now; snapshot(now);
      for (auto &b : before) for (auto &n : now) if (n.first == b.first && n.second != b.second)
        bad("unchanged", fmt("%s (%s) changed %s #%d although the call failed with %s:\n--- before\n", fault_names[ft.kind], ft.kind == F_ALLOC ? fmt("allocation %ld", (long)ft.a).c_str() : fmt("%ld %ld", (long)ft.a, (long)ft.b).c_str(), kind_name[b.first->kind], b.first->id, rname(r).c_str()) + b.second + "\n--- after\n" + n.second);
      rng_restore(rs);
    }
    in_call = false;
  }
  uint64_t na = ctx->nalloc; int64_t nc = cb_count;
  r = run1(true);
  if (cur_op >= 0 && op && !in_call) {
    if ((int)op_allocs.size() <= cur_op) { op_allocs.resize(cur_op + 1); op_cbs.resize(cur_op + 1); op_iok.resize(cur_op + 1); }
    op_allocs[cur_op] = (uint32_t)(ctx->nalloc - na); op_cbs[cur_op] = (uint32_t)(cb_count - nc);
    for (int i = 0; i < sim::IO_NCALLS; i++) op_iok[cur_op][i] = ctx->io_kind[i];
    for (int i = 0; i < sim::IO_NCALLS; i++) ctx->io_kind[i] = 0;
  }
  if (r < 0 && cur_op >= 0) { if ((int)op_failed.size() <= cur_op) op_failed.resize(cur_op + 1); op_failed[cur_op] = 1; }
  if (r < 0) { after_error(r); if (on_fail) on_fail(r); }
  else { ccs_error_stack_t e = ccs_get_thread_error(); if (e) { ccs_release_object(e); ccs_clear_thread_error(); if (kept) { kept = false; out("  earlier error trace kept"); } else bad("errtrace", "a successful call left an error trace"); } }
  return r;
}
static char sentinel_obj;
ccs_result_t VM::create(ccs_object_t *h, const std::function<ccs_result_t(ccs_object_t *)> &f) {
  *h = (ccs_object_t)&sentinel_obj;
  ccs_result_t r = call([&] { *h = (ccs_object_t)&sentinel_obj; return f(h); }, [&](ccs_result_t) { *h = (ccs_object_t)&sentinel_obj; });
  if (r >= 0 && (*h == (ccs_object_t)&sentinel_obj || !*h)) bad("content", "a successful create call returned no object");
  return r;
}
void VM::exec(int idx, const Op &o) {
  cur_op = idx; op = &o; ctx->cur_op = (uint32_t)idx;
  for (int i = 0; i < sim::IO_NCALLS; i++) ctx->io_kind[i] = 0;
  size_t l0 = log.size(); uint64_t sk = skipped;
  ctx->nonblock = false; ctx->stream_eof = false;
  op_table()[o.code].fn(*this, o);
  if (skipped == sk) executed++;
  check_alive();
  if (states) {
    uint64_t h = hash_str(op_table()[o.code].name); for (size_t i = l0; i < log.size(); i++) h = hash_str(log[i], h);
    states->insert(h);
  }
  op = nullptr;
}
void VM::inspect_all() {             // read everything through the public API, discard
  Vec<std::pair<int, P>> v(slots.begin(), slots.end());
  for (auto &kv : v) try { atext(kv.second->h, D_RNGSTATE | D_USERDATA | D_HASH); } catch (DescribeError &) {}
}
// compare every live object with its model
void VM::check_content(const char *cls, const std::function<bool(const Obj &)> &sel) {
  Vec<std::pair<int, P>> v(slots.begin(), slots.end());
  for (auto &kv : v) {
    const P &o = kv.second; if (o->foreign || o->weird || (o->kind == K_TEVAL && o->conf->weird) || (sel && !sel(*o))) continue;
    Str m = mtext(*this, o); if (m.empty()) continue;
    Str a; try { a = atext(o->h, 0); } catch (DescribeError &e) { bad(cls, fmt("%s #%d cannot be read: ", kind_name[o->kind], o->id) + rname(e.r) + " from " + e.where); continue; }
    if (a != m) bad(cls, fmt("%s #%d differs from what the accepted calls imply:\n--- expected\n", kind_name[o->kind], o->id) + m + "\n--- reported\n" + a);
  }
}
void VM::finish() {
  cur_op = -1; op = nullptr; faults_on = false;
  if (cfg.models) {
    check_content("content", [](const Obj &o) { return o.kind != K_CSPACE && o.kind != K_FSPACE && o.kind != K_OSPACE && o.kind != K_TREE; });
    check_content("space", [](const Obj &o) { return o.kind == K_CSPACE || o.kind == K_FSPACE || o.kind == K_OSPACE; });
    check_content("tree", [](const Obj &o) { return o.kind == K_TREE; });
  }
  for (auto &kv : Vec<std::pair<int, P>>(slots.begin(), slots.end())) {
    if (!cfg.text_final) break;
    int fl = D_RNGSTATE | D_USERDATA;
    Str a; try { a = atext(kv.second->h, fl); } catch (DescribeError &e) { a = "!" + rname(e.r) + " " + e.where; bad("content", fmt("%s #%d cannot be read at the end: ", kind_name[kv.second->kind], kv.second->id) + a); }
    out(fmt("final %d %s", kv.first, a.c_str()));
  }
  ccs_clear_thread_error(); kept = false; release_all();
  check_leaks();
}
void VM::release_all() {
  cur_op = -1; op = nullptr;
  while (!xfers.empty()) { Xfer x = xfers.begin()->second; xfers.erase(xfers.begin()); ccs_object_t held = x.hold ? x.obj : nullptr; x.abort(*this); x.keep = nullptr; if (held) ccs_release_object(held); }
  // release in a fixed scrambled order
  Vec<int> s; for (auto &kv : slots) s.push_back(kv.first);
  Rng64 r(release_seed); for (size_t i = s.size(); i > 1; i--) std::swap(s[i - 1], s[(size_t)r.below((int64_t)i)]);
  for (int k : s) drop_slot(k);
  ccs_clear_thread_error();
}
void VM::check_leaks() {
  if (ctx->live.empty() && ctx->maps.empty() && sim::n_open_fds(*ctx) == 0) return;
  Str s = fmt("%zu block(s), %zu mapping(s), %d descriptor(s) remain after everything was released", ctx->live.size(), ctx->maps.size(), sim::n_open_fds(*ctx));
  int n = 0; std::map<uint32_t, int> by; for (auto &b : ctx->live) by[b.second.op]++;
  for (auto &x : by) if (n++ < 6) s += fmt("; %d allocated during op %u", x.second, x.first);
  bad("leak", s);
}
void VM::crash() {
  ccs_clear_thread_error(); auto files = std::move(ctx->files); unsigned char fill = ctx->fill; bool reuse = ctx->reuse; size_t skew = ctx->skew;
  slots.clear(); srefs.clear(); toks.clear(); dead_toks.clear(); handles.clear(); xfers.clear(); images.clear(); id_handles.clear(); uts.clear(); deferred.clear();
  sim::ctx_reset(*ctx); ctx->files = std::move(files); ctx->fill = fill; ctx->reuse = reuse; ctx->skew = skew; sim::g_cnt.crash_restore++;
}
VM::~VM() {}
void VM::settle() {
  for (auto &u : uts) {
    auto made = std::move(u->made); u->made.clear();
    for (auto &m : made) {
      bool dead = false; for (auto &t : toks) if (t->id == m.child->id && t->fired) dead = true;
      if (dead) continue;
      ccs_tree_t k = nullptr;
      if (ccs_tree_get_child((ccs_tree_t)m.parent->h, m.idx, &k) < 0) ccs_clear_thread_error();
      if ((ccs_object_t)k != m.child->h) { defer("unchanged", "a child made by the user callback is neither attached to the tree nor released"); continue; }
      m.parent->kids[m.idx] = m.child; m.child->parent = m.parent.get(); m.child->pidx = (int)m.idx;
    }
  }
  if (!deferred.empty()) { auto d = std::move(deferred); deferred.clear(); for (auto &v : d) bad(v.cls.c_str(), v.msg); }
}
void VM::run(const Vec<Op> &ops) {
  for (size_t i = 0; i < ops.size(); i++) exec((int)i, ops[i]);
  finish();
}
