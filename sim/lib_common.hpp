// Instrumented side of the harness: the only code that sees the library. Everything it calls in mode LIB is real library code.
#ifndef SIM_LIB_COMMON_HPP
#define SIM_LIB_COMMON_HPP
#include "kernel.hpp"
#include "model.hpp"
#include "plan.hpp"
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <ostream>
#include <streambuf>
#include <string>
#include <vector>
#include "viennamath/expression.hpp"
#include "viennamath/manipulation/apply_coordinate_system.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/latex.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/runtime/equation.hpp"
#include "viennamath/runtime/interval.hpp"
#include "viennamath/runtime/numerical_quadrature.hpp"

namespace vm = viennamath;
using model::P;
using sim::Ctx;
using sim::ModeGuard;

typedef vm::default_interface_type IF;
typedef vm::op_interface<IF> OIF;
typedef vm::rt_expr<> LE;
typedef vm::rt_unary_expr<> LU;
typedef vm::rt_binary_expr<> LB;
typedef vm::rt_vector_expr<> LV;
typedef vm::rt_equation<> LQ;
typedef vm::rt_interval<> LI;
typedef vm::rt_latex_translator<> LT;
typedef vm::rt_numerical_quadrature<> LN;
typedef vm::rt_variable<> LX;
typedef vm::rt_constant<double> LC;
typedef vm::rt_constant<int> LCI;
typedef vm::rt_function_symbol<> LF;
typedef std::vector<LE> LW;

enum SlotType { S_E, S_U, S_B, S_V, S_Q, S_I, S_T, S_N, S_W, S_X, S_C, S_CI, S_F, S_NTYPES };
enum { NSLOT = 12, SCR = 8 };   // slots 8.. are scratch objects of one operation
extern const char* const slot_letters;

struct TrState { model::Names names; };
struct Slot {
  void* p; int type; P m, m2; std::vector<P> list; model::Names names; long qkind, qparam;
  Slot() : p(0), type(0), qkind(0), qparam(0) {}
  bool present() const { return p != 0; }
};

struct Sink { char* buf; long cap; long len; int kind; long left; bool fired; };

struct World {
  Slot s[S_NTYPES][NSLOT];
  World* sh;              // objects shared with other threads, indices 100..
  bool threaded, tainted, after_fault_only, failed;   // failed: a failure was injected into an operation
  unsigned fam_result, fam_operand; long rules;
  Sink sink;
  World() : sh(0), threaded(false), tainted(false), after_fault_only(false), failed(false), fam_result(0), fam_operand(0), rules(0) { sink.cap = 1 << 15; sink.buf = (char*)malloc(sink.cap); sink.len = 0; sink.kind = 0; sink.left = 0; sink.fired = false; for (int t = 0; t < S_NTYPES; ++t) for (int i = 0; i < NSLOT; ++i) s[t][i].type = t; }
  ~World() { free(sink.buf); }
  Slot& at(int type, int i) { return i >= 100 ? sh->s[type][i - 100] : s[type][i]; }
};

template <class T> struct TypeOf;
#define SLOTTYPE(T, S) template <> struct TypeOf<T> { enum { v = S }; };
SLOTTYPE(LE, S_E) SLOTTYPE(LU, S_U) SLOTTYPE(LB, S_B) SLOTTYPE(LV, S_V) SLOTTYPE(LQ, S_Q) SLOTTYPE(LI, S_I) SLOTTYPE(LT, S_T) SLOTTYPE(LN, S_N)
SLOTTYPE(LW, S_W) SLOTTYPE(LX, S_X) SLOTTYPE(LC, S_C) SLOTTYPE(LCI, S_CI) SLOTTYPE(LF, S_F)
template <class T> inline T& obj(Slot& s) { return *static_cast<T*>(s.p); }
template <class T> inline T& obj(World& w, int i) { return *static_cast<T*>(w.at(TypeOf<T>::v, i).p); }

// ---------------------------------------------------------------- user-supplied code
struct UserStdFault : public std::exception { int where; UserStdFault(int w) : where(w) {} const char* what() const throw() { return "injected user failure"; } };

// A node class written by a user of the library. Every member function is a fault point.
class Probe : public IF {
public:
  long id_; double val_, dval_; long layers_;
  Probe(long id, double v, double d, long l) : id_(id), val_(v), dval_(d), layers_(l) {}
  IF* clone() const { sim::user_point(1); return new Probe(*this); }
  std::string deep_str() const { sim::user_point(2); char b[40]; char* q = b; for (const char* p = "probe"; *p; ++p) *q++ = *p; long v = id_; char d[24]; int n = 0; do { d[n++] = '0' + v % 10; v /= 10; } while (v); while (n) *q++ = d[--n]; return std::string(b, q - b); }
  double eval(std::vector<double> const&) const { sim::user_point(3); return val_; }
  double eval(double) const { sim::user_point(4); return val_; }
  double unwrap() const { sim::user_point(5); return val_; }
  bool shallow_equal(const IF* o) const { sim::user_point(6); return dynamic_cast<const Probe*>(o) != 0; }
  bool deep_equal(const IF* o) const { sim::user_point(7); const Probe* p = dynamic_cast<const Probe*>(o); return p && p->id_ == id_ && p->val_ == val_ && p->dval_ == dval_ && p->layers_ == layers_; }
  IF* substitute(const IF* e, const IF* r) const { sim::user_point(8); if (deep_equal(e)) return r->clone(); return clone(); }
  IF* substitute(std::vector<const IF*> const& e, std::vector<const IF*> const& r) const { sim::user_point(9); for (size_t i = 0; i < e.size(); ++i) if (deep_equal(e[i])) return r[i]->clone(); return clone(); }
  IF* simplify() const { sim::user_point(10); return new Probe(id_, val_, dval_, layers_ > 0 ? layers_ - 1 : 0); }
  bool can_simplify() const { sim::user_point(11); return layers_ > 0; }
  IF* diff(const IF*) const { sim::user_point(12); return new Probe(id_, dval_, 0, 0); }
};

// ---------------------------------------------------------------- reading library objects back
// bad: something unreadable or unknown was met
P walk(const IF* p, bool& bad, std::string* why = 0);
P walk_expr(LE const& e, bool& bad, std::string* why = 0);
IF* build_node(P const& t);           // call in mode SETUP
std::string show2(P const& t);

bool read_slot(Slot& s, P& m, P& m2, std::vector<P>& l, std::string& why);   // false: unreadable
void destroy(World& w, Slot& s);
void free_handle(Slot& s);            // releases only the handle's own memory

// ---------------------------------------------------------------- operations
struct OpCtx {
  World& w; const Op& op; int idx;
  unsigned allow; bool must_throw; bool basic; // basic: after a failure the target only has to be readable
  Slot* basic_slot; Slot* value_slot;          // value_slot: after a failure its value, not its form, is kept
  int attempts; bool retried; uint64_t opnd_hash; uint64_t dig; bool done_ok;
  unsigned last_ex; int dim;
  OpCtx(World& ww, const Op& o, int i) : w(ww), op(o), idx(i), allow(0), must_throw(false), basic(false), basic_slot(0), value_slot(0), attempts(0), retried(false), opnd_hash(0), dig(0), done_ok(false), last_ex(0), dim(3) {}
  void operand(P const& m) { if (m) opnd_hash = opnd_hash * 0x9e3779b97f4a7c15ULL + m->hash; }
  void digest(uint64_t h) { dig = dig * 0x9e3779b97f4a7c15ULL + h + 1; }
};
uint64_t hash_str(std::string const& s);
void skip(OpCtx& o, const char* why);

struct Outcome { bool ok; unsigned ex; uint64_t fired; int where; };
unsigned classify_and_check();   // inside a catch block
void begin_attempt(OpCtx& o, FaultSpec const* f, uint64_t k);
void end_attempt(OpCtx& o, FaultSpec const* f, uint64_t k, Outcome const& r);
void verify_all(OpCtx& o, bool after_failure);
void bad_result(OpCtx& o, const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
void expect_slot(OpCtx& o, Slot& s, P const& m, P const& m2, std::vector<P> const& list, const char* key);
bool match_slot(Slot& s);
std::string show_slot(Slot& s);
std::string describe_operands(OpCtx& o);
std::string describe_op(OpCtx& o);

template <class Call> Outcome attempt(OpCtx& o, FaultSpec const* f, uint64_t k, Call& call) {
  Outcome r; r.ok = false; r.ex = 0; r.fired = 0;
  begin_attempt(o, f, k);
  Ctx* c = sim::ctx();
  try { c->mode = sim::LIB; call(); c->mode = sim::OFF; r.ok = true; }
  catch (...) { c->mode = sim::OFF; r.ex = classify_and_check(); }
  r.fired = c->fired_total;
  end_attempt(o, f, k, r);
  return r;
}

// good(): called after a successful return, checks the result and commits it.  onfail(outcome): additional checks after an exception.
template <class Call, class Good, class Fail> void perform(OpCtx& o, Call call, Good good, Fail onfail) {
  for (size_t i = 0; i <= o.op.f.size(); ++i) {
    FaultSpec const* f = i < o.op.f.size() ? &o.op.f[i] : 0;
    uint64_t k = f ? f->k : 0;
    uint64_t reps = f && f->stride ? f->max : 1;
    for (uint64_t j = 0; j < reps; ++j, k += f ? f->stride : 0) {
      Outcome r = attempt(o, f, k, call);
      o.last_ex = r.ex;
      if (r.fired == 0) {
        if (r.ok) {
          if (o.must_throw) { bad_result(o, "no-exception", "returned normally although %s is required", model::ex_names(o.allow).c_str()); }
          o.done_ok = true; o.digest(1); good();
          if (o.retried) sim::stats().retries_ok++;
        } else {
          if (!(o.allow & r.ex)) bad_result(o, o.retried ? "retry-failed" : "unexpected-exception", "threw %s, expected %s", model::ex_names(r.ex).c_str(), o.must_throw ? model::ex_names(o.allow).c_str() : "normal return");
          o.digest(1000 + r.ex); onfail(r);
        }
        verify_all(o, !r.ok);
        return;
      }
      o.retried = o.w.failed = true;
      bool user = f->kind == sim::F_USER_AT || f->kind == sim::F_USER_STD_AT;
      if (r.ok) {
        if (user) { sim::violation(sim::V_FAULTRES, "failure-swallowed", "%s: the failure injected into user code did not reach the caller", describe_op(o).c_str()); }
        o.done_ok = true; o.digest(1); good();
        verify_all(o, false);
        return;
      }
      if (user && !(r.ex & (f->kind == sim::F_USER_AT ? model::X_USER : model::X_USERSTD)))
        sim::violation(sim::V_FAULTRES, "failure-replaced", "%s: a failure of user code reached the caller as %s", describe_op(o).c_str(), model::ex_names(r.ex).c_str());
      onfail(r);
      verify_all(o, true);
    }
  }
}
// overwrites the part of the stack that the previous call left behind
__attribute__((noinline)) inline void scribble() { volatile double a[256]; for (int i = 0; i < 256; ++i) a[i] = 1e300 * (i & 1 ? -1 : 1); }
struct NoFail { void operator()(Outcome const&) const {} };

// memory for a result of type T inside the simulated heap
template <class T> struct Res {
  Slot s;
  Res() { s.type = TypeOf<T>::v; s.p = sim::arena_alloc(sizeof(T), 2); if (!s.p) sim::internal_error("simulated heap is full"); }
  ~Res() { if (s.p) { ModeGuard g(sim::SETUP); sim::arena_free(s.p); } }
  void* mem() { return s.p; }
  T& get() { return *static_cast<T*>(s.p); }
};

// moves a finished result into slot `i` (mode 0), or drops it at once (1), or stores it and destroys the operand slots first (2)
void commit(OpCtx& o, Slot& res, Slot& target);
void drop_result(OpCtx& o, Slot& res);

// result of expression type: reads it back, checks it, commits it to E slot a
template <class Check> void finish_expr(OpCtx& o, Res<LE>& r, Check check, Slot* kill = 0) {
  bool bad = false; std::string why;
  P act = walk_expr(r.get(), bad, &why);
  if (bad) { bad_result(o, "result-unreadable", "the result cannot be read: %s", why.c_str()); r.s.p = 0; o.w.tainted = true; return; }
  std::string err = check(act);
  if (!err.empty()) { bad_result(o, "wrong-result", "wrong result: %s; result %s", err.c_str(), show2(act).c_str()); }
  o.digest(act ? act->hash : 7);
  r.s.m = act;
  if (kill && kill->present() && (o.op.d & 4)) {
    destroy(o.w, *kill);
    bool b2 = false; P again = walk_expr(r.get(), b2, &why);
    if (b2 || !model::same(act, again)) { bad_result(o, "result-depends-on-operand", "the result changed when the operand was destroyed: %s", b2 ? why.c_str() : show2(again).c_str()); if (b2) { r.s.p = 0; o.w.tainted = true; return; } }
  }
  if ((o.op.d & 3) == 1 || (act && act->size > 160)) drop_result(o, r.s);
  else commit(o, r.s, o.w.s[S_E][o.op.a]);
}
std::string value_err(OpCtx& o, P const& expected, P const& act, const char* what);

// scratch objects of one operation
Slot& scratch(OpCtx& o, int type, int i, P const& m, P const& m2 = P());
void build_slot(Slot& s, P const& m, P const& m2);   // SETUP mode inside; slot must be empty

#define LIVE(T, i) do { if (!o.w.at(TypeOf<T>::v, (i)).present()) { skip(o, "operand missing"); return; } } while (0)
#define NEED(c) do { if (!(c)) { skip(o, #c); return; } } while (0)

typedef void (*Executor)(OpCtx&);
extern Executor const executors[O_COUNT];
#define DECL(n, f) void x_##n(OpCtx&);
OPS(DECL)
#undef DECL
#endif
