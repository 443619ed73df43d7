// The deterministic machine that drives the library: a program is a list of
// operations on numbered slots; every operation is one public API call (plus
// read-only inspection), its expected effect is tracked by a small executable
// model, and everything observable goes to an address-free log.
#pragma once
#include "seam.h"
#include <cconfigspace.h>
#include <memory>
#include <functional>
#include <set>
#include <cmath>
#include <cstring>
#include <array>
#include <algorithm>

typedef std::string Str;
struct Obj;
typedef std::shared_ptr<Obj> P;
template <class T> using Vec = std::vector<T>;

struct Rng64 {                       // splitmix64: the only source of choice in the simulator
  uint64_t s;
  explicit Rng64(uint64_t seed) : s(seed) {}
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  int64_t below(int64_t n) { return n <= 0 ? 0 : (int64_t)(next() % (uint64_t)n); }
  int64_t range(int64_t a, int64_t b) { return a + below(b - a + 1); }
  bool chance(int pct) { return below(100) < pct; }
};
uint64_t hash_str(const Str &s, uint64_t h = 1469598103934665603ULL);

// ---- values ---------------------------------------------------------------
enum { T_NONE = 0, T_INT, T_FLOAT, T_BOOL, T_STRING, T_INACTIVE, T_OBJECT };
struct Val {
  int t = T_NONE; int64_t i = 0; double f = 0; Str s; P o; bool id = false;
  bool operator==(const Val &b) const;
};
Str vtext(const Val &v);

// ---- program --------------------------------------------------------------
enum FaultKind { F_NONE, F_ALLOC, F_IO, F_CB };
struct Fault { int kind = F_NONE; int64_t a = 0, b = 0, c = 0; };
struct Op { int code = 0; int out = -1; Vec<int64_t> a; Vec<sim::IoDecision> io; Vec<Fault> faults; };
struct Case {
  Str prop, mode; uint64_t seed = 0;
  std::map<Str, int64_t> cfg;
  Vec<Op> ops;
  Vec<Case> sub;                     // thread mode: one program per thread
  Vec<int32_t> sched;                // thread mode: explicit schedule when replaying
  int64_t get(const Str &k, int64_t d) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
};
Str case_text(const Case &c);
bool case_parse(const Str &text, Case &c, Str &err);

// ---- model ----------------------------------------------------------------
enum Kind { K_RNG, K_DIST, K_PARAM, K_EXPR, K_CSPACE, K_CONF, K_OSPACE, K_EVAL, K_TUNER, K_FSPACE, K_FEAT, K_FEVAL, K_FTUNER,
            K_MAP, K_ESTACK, K_TREE, K_TSPACE, K_TCONF, K_TEVAL, K_TTUNER, K_MAX };   // same order as ccs_object_type_e
extern const char *kind_name[];
struct UserTuner;
struct Obj {
  Kind kind; ccs_object_t h = nullptr; int id = 0;     // id: creation order, address-free
  Str name;
  Vec<P> refs;                        // what this object must keep alive (besides the typed fields below)
  Str fixed;                          // API text captured at creation for immutable content
  // parameter / distribution
  int sub = 0, isf = 0; Val lo, hi, q, def; Vec<Val> vals;
  double d0 = 0, d1 = 0; int scale = 0; Vec<double> ws; Vec<P> subs;
  // expression
  int et = 0; Vec<P> nodes; Val lit; P param;
  // spaces
  Vec<P> params; Vec<P> dists; Vec<int> dix, dwrap; int nwrap = 0; Vec<P> conds; Vec<P> forb; P rng; Vec<std::pair<P, int>> objs;
  // bindings
  P space, conf, feat, ospace; Vec<Val> values; int result = 0;
  // map
  Vec<std::pair<Val, Val>> kv;
  // tree
  int arity = 0; Val tval; double weight = 1, bias = 1; Vec<P> kids; Obj *parent = nullptr; int pidx = 0; bool dyn = false;
  P tree; Vec<size_t> pos; Vec<Val> pvals;
  // tuners
  P cs, os, fs, ts; Vec<P> hist; std::shared_ptr<UserTuner> ut;
  bool told = false, user_made = true, weird = false, foreign = false;
  int64_t udata = 0; int sercb = 0; int ntoks = 0, fvec = 0;
  ~Obj() { for (auto &k : kids) if (k && k->parent == this) k->parent = nullptr; }
};

struct UserTuner {                    // state of a user-defined tuner, dynamic tree space
  class VM *vm = nullptr; int id = 0; Obj *obj = nullptr;
  int64_t counter = 0;               // user state, serialized
  Vec<ccs_object_t> hist;            // retained handles (owned by the "user")
  Vec<ccs_object_t> optima;
  int dels = 0; int kind = 0; int64_t shape = 0; bool balanced = false; int opt = 0;   // opt: 1 no suggest callback, 2 no state serializer, 4 no state deserializer
  struct Made { P parent, child; size_t idx; }; Vec<Made> made;   // dynamic tree: children created by the current call
};

struct DestroyTok { std::weak_ptr<Obj> obj; int id; int fired = 0; ccs_object_t h = nullptr; class VM *vm = nullptr; int seq = 0, order = 0, want = 1; bool reported = false; };
typedef Vec<std::pair<ccs_object_t, Str>> RngSave;
struct Image {                        // serialized bytes with what is needed to restore and judge them
  Str bytes, text, utext; int kind = 0, vec = 0; bool cb = false, user = false, dirty = false, foreign_u = false; int top_cb = 0; int64_t top_u = 0; size_t full = 0; ccs_object_t orig = nullptr;
  Vec<std::pair<ccs_object_t, std::weak_ptr<Obj>>> deps; Str depsig; Str orig_bytes; bool trunc_only() const { return orig_bytes.size() > bytes.size() && orig_bytes.compare(0, bytes.size(), bytes) == 0; }
};
struct Xfer {                         // a transfer suspended on a non-blocking descriptor
  bool active = false, ser = false, cb = false, hold = false; int fd = -1, idx = 0, out = -1; void *state = nullptr; ccs_object_t obj = nullptr; P keep; Str expect, uexpect; size_t announced = 0; Image im; ccs_map_t map = nullptr; std::shared_ptr<UserTuner> u; int top_cb = 0; int64_t top_u = 0;
  void abort(class VM &vm);
};

struct VMConfig {
  bool models = true;                 // compare with the executable models
  bool keep_err = false;              // some error traces stay where they are until the next error
  bool trace_err = false;             // log error traces (thread property)
  bool balanced_dyn = false;          // dynamic tree growth does not alter weights
  bool check_alive = true;
  bool inspect = false;               // extra read-only inspection between operations
  bool no_destroy_cb = false; bool text_final = true;
  std::set<Str> classes;              // violation classes that belong to the property being checked; empty = all
};

class VM {
public:
  sim::Ctx *ctx; VMConfig cfg;
  std::map<int, P> slots; std::map<int, int> srefs;   // srefs: references the user holds through that slot
  Vec<Str> log; Vec<int> log_op;      // observable results
  Vec<std::unique_ptr<DestroyTok>> toks, dead_toks; std::map<ccs_object_t, std::weak_ptr<Obj>> handles; uint64_t ended = 0;
  std::map<int, Xfer> xfers;
  typedef ::Image Image; std::map<int, Image> images;
  std::map<int, ccs_object_t> id_handles; bool damaged = false;
  Vec<std::shared_ptr<UserTuner>> uts;
  Vec<uint32_t> op_allocs, op_cbs; Vec<std::array<uint32_t, sim::IO_NCALLS>> op_iok; bool faults_on = false, in_call = false; uint64_t release_seed = 1;
  //       // per op: how many fault points it has
  int cur_op = -1; const Op *op = nullptr;
  int next_id = 1, destroy_seq = 0;
  // callback fault
  int64_t cb_count = 0, cb_fail_at = 0, cb_fail_err = 0; bool cb_fired = false, cb_persist = false;
  uint64_t salt = 0, skipped = 0, executed = 0, failed_calls = 0, faults_hit = 0;
  uint64_t state_hash = 0; std::set<uint64_t> *states = nullptr;
  bool quiet = false;                 // suppress logging (inspection)
  Vec<sim::Violation> foreign;
  bool kept = false; Str last_api; std::set<Str> last_second;    // thread build: the library function last entered, and what it called
  std::shared_ptr<struct Session> sess; Vec<char> op_failed;

  VM(sim::Ctx *c, const VMConfig &g) : ctx(c), cfg(g) {}
  ~VM();
  void run(const Vec<Op> &ops);       // executes everything, then the final sweep
  void exec(int idx, const Op &o);
  void finish();                      // describe everything, release everything, check leaks
  void release_all();
  void check_leaks();
  void crash();                       // the process dies: nothing but files survives

  void out(const Str &s) { if (!quiet) { log.push_back(s); log_op.push_back(cur_op); } }
  void bad(const char *cls, const Str &msg);
  void expect(bool ok, const char *cls, const Str &msg) { if (!ok) bad(cls, msg); }
  P get(int64_t slot, int kind) { auto it = slots.find((int)slot); if (it == slots.end() || (kind >= 0 && it->second->kind != kind)) return nullptr; return it->second; }
  void put(int slot, const P &o, int refs = 1);
  P made(const Op &o, Kind k, ccs_object_t h, const Str &name) { P x = adopt(k, h, name); put(o.out, x); return x; }
  void judge(const char *cls, ccs_result_t r, bool ok, const Str &what) { if (cfg.models && (r >= 0) != ok) bad(cls, what + (ok ? Str(" was refused with ") + rname(r) : Str(" was accepted although it has to be refused"))); }
  Vec<sim::Violation> deferred; void defer(const char *cls, const Str &m) { deferred.push_back({cls, m}); }
  void settle();                      // adopt or drop what callbacks created during the last call; raise deferred violations
  P adopt(Kind k, ccs_object_t h, const Str &name);       // new model object for a fresh handle
  void drop_slot(int slot);
  P find_handle(ccs_object_t h);
  // performs the call with the faults attached to the current operation
  ccs_result_t call(const std::function<ccs_result_t()> &f, const std::function<void(ccs_result_t)> &on_fail = nullptr);
  ccs_result_t create(ccs_object_t *h, const std::function<ccs_result_t(ccs_object_t *)> &f);
  void after_error(ccs_result_t r);
  bool cb_should_fail(ccs_result_t *err);
  void check_alive();
  bool attach_tok(const P &o);
  void snapshot(Vec<std::pair<P, Str>> &s);
  void each_rng(const std::function<void(ccs_rng_t)> &f);
  void rng_save(RngSave &s); void rng_restore(const RngSave &s);
  void inspect_all();
  void check_content(const char *cls, const std::function<bool(const Obj &)> &sel);
  Str rname(ccs_result_t r);
};

// ---- observation (describe.cpp): text from the public API only -------------
enum { D_RNGSTATE = 1, D_SHALLOW = 2, D_HASH = 4, D_USERDATA = 8 };
struct DescribeError { ccs_result_t r; Str where; };
Str atext(ccs_object_t h, int flags);            // throws DescribeError when the API refuses a read
Str dtext(const ccs_datum_t &d, int flags = 0);
Str mtext(VM &vm, const P &o);                   // the model's version of the same text ("" if the model has none)

// ---- independent evaluation (model.cpp) ------------------------------------
bool m_in_domain(const Obj &param, const Val &v);
bool m_eval(const P &e, const Obj &space, const Vec<Val> &values, Val &res);     // false: evaluation is an error
int  m_check(const Obj &cs, const Vec<Val> &values, Str *why);                   // 1 valid, 0 invalid, -1 evaluation error
bool m_topo(const Obj &cs, Vec<int> &order);                                     // false: cyclic
bool m_default(const Obj &cs, Vec<Val> &values);                                 // false: cyclic or evaluation error
bool m_obj_values(const Obj &ev, Vec<Val> &res);
bool m_undecided(const Obj &cs, const Vec<Val> &values);
int  m_compare(const Obj &a, const Obj &b);      // -1 a better, 0 equivalent, 1 worse, 2 not comparable, 3 error
Vec<P> m_optima(const Vec<P> &hist);
Val  val_of(VM &vm, const ccs_datum_t &d);
ccs_datum_t datum_of(const Val &v, Vec<std::unique_ptr<char[]>> *keep = nullptr);
Vec<P> m_params_of(const P &e);
double m_tree_sum(const Obj &t);

// ---- ops -------------------------------------------------------------------
typedef void (*OpFn)(VM &, const Op &);
struct OpDef { const char *name; OpFn fn; };
extern Vec<OpDef> &op_table();
int misuse_count();
extern Str g_note;                       // the incorrect call under way, for crash reports
int op_code(const Str &name);
struct OpReg { OpReg(const char *n, OpFn f) { op_table().push_back({n, f}); } };
struct Rd { const Vec<int64_t> &a; size_t i = 0; Rd(const Op &o) : a(o.a) {} int64_t n(int64_t d = 0) { return i < a.size() ? a[i++] : d; } bool more() const { return i < a.size(); } };
struct Dat { Val v; bool tr = false, ok = true; };
Dat rd_dat(VM &vm, Rd &r, const Obj *param = nullptr);
struct Data {                         // datums for one call; transient buffers die with it
  Vec<ccs_datum_t> d; Vec<std::unique_ptr<char[]>> keep;
  void add(const Dat &x);
  ~Data() { for (auto &k : keep) if (k[0]) k[0] ^= 0x55; }
};
#define SKIP do { vm.skipped++; return; } while (0)
#define OP(NAME) static void op_##NAME(VM &vm, const Op &op); static OpReg reg_##NAME(#NAME, op_##NAME); static void op_##NAME(VM &vm, const Op &op)
Str f10(double x);
inline bool is_nul(const Val &v) { return v.t == T_STRING && v.s == "(null)"; }
Str mkname(const char *prefix, int64_t n);   // some names are long
Str fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
extern const Vec<Str> &str_pool();
void vm_destroy_cb(ccs_object_t o, void *ud);
void ut_set_vm(VM *vm); void obj_set_vm(VM *vm); uint64_t ut_salt();
void *ut_vector(int kind);            // vector of callbacks: K_TUNER, K_FTUNER, K_TTUNER, K_TSPACE; + 256 * opt
const char *intern(const Str &s);

