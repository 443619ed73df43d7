#pragma once
#include "vm.h"
// Online generator: every emitted operation is executed at once on a live VM, so
// later choices depend on what the library actually answered.
struct Gen {
  VM &vm; Rng64 r; Case &c; int nslot = 1, nname = 0, nimg = 1;
  std::map<Str, int> w;                 // action weights (swarm)
  bool dupnames = false, badargs = false, weird = false, lists = true, fault_safe = false, strs = true, wide = true; int io_rate = 0;
  struct Work { int conf, tuner, feat; };
  Vec<Work> pend, done_;                // configurations handed to workers / evaluated once (for duplicates)
  struct Shared { Str key; int slot; int id; }; Vec<Shared> dpool; Vec<Vec<int64_t>> parg;   // distributions to use once more, parameters to imitate
  Vec<int> evals;                       // evaluations not told yet
  Gen(VM &v, Case &cc, uint64_t seed) : vm(v), r(seed), c(cc) {}
  int slot(int n = 1) { int s = nslot; nslot += n; return s; }
  void emit(const char *name, int out, Vec<int64_t> a, Vec<sim::IoDecision> io = {});
  int pick(int kind, bool own = true);
  int64_t big();
  P obj(int s) { return vm.get(s, -1); }
  Vec<sim::IoDecision> plan(int n);
  void enc(Vec<int64_t> &a, const Val &v);
  // builders: return the slot, or -1
  int rng(); int dist(int param, int want = -1); int mdist(); int param(int str_pct = 6); int param_num(bool isf, int64_t lo, int64_t hi); int expr_bool(int space, int depth, Vec<int> *tmp); int expr_num(int space, int depth);
  int cspace(int np); int fspace(int np); int ospace(int np, int no); int conf(int cs); int feat(int fs); int eval(int os, int conf, int feat, bool ok); int tree(int depth); int tspace(); int tuner(int kind, bool user);
  void act(const Str &a); void loop(int n); void val_for(Vec<int64_t> &a, const Obj &p, int valid_pct);
  void joint(int cs); void csmod(); void tell_flow(int t); void mapop(); void treeop(); void serop(bool nb); void refop(); void bindop(); void twins(); void deser_damaged();
};
bool gen_case(Case &c, VM &vm);        // fills c.ops for c.prop/c.mode/c.seed; false when the mode is unknown
VMConfig config_for(const Case &c);
struct Outcome { bool bad = false; sim::Violation v; uint64_t hash = 0; Vec<sim::Violation> foreign; uint64_t ops = 0, failed = 0, faults = 0; bool ref_bad = false; };
Outcome run_case(const Case &c, std::set<uint64_t> *states);
void add_faults(Case &c, VM &vm);
sim::Ctx &ctx_for(int idx);
extern thread_local Vec<Str> *g_keep_log;
