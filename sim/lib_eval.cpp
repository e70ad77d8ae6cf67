// Evaluation, traversal, manipulation, quadrature, text output, LaTeX.
#include "lib_common.hpp"
#include <algorithm>
#include <ios>

namespace {
typedef std::vector<P> PL;
using model::mk_const; using model::mk_var; using model::mk_un; using model::mk_bin;

// ------------------------------------------------------------------ user functors
struct Rec { PL calls; int attempt; int inside; bool after_throw, unreadable, plain; long vars; long mask, salt, repl; Rec() : attempt(-1), inside(0), after_throw(false), unreadable(false), plain(true), vars(0), mask(0), salt(0), repl(0) {} };

int kind_bit(P const& m) {
  switch (m->k) {
    case model::BIN: return m->op < model::B_MULT ? 0 : 1;
    case model::UN: return model::formal(m->op) ? 3 : 2;
    case model::VAR: return 4; case model::CONST: return 5; case model::FSYM: return 6; case model::VEC: return 7; default: return 8;
  }
}
bool chosen(Rec const& r, P const& m) { if (!(r.mask >> kind_bit(m) & 1)) return false; return r.salt < 2 || (m->hash >> 7) % (unsigned long)r.salt == 0; }
P replaced(Rec const& r, P const& m) {
  switch (r.repl) { case 0: return mk_const((double)(m->hash % 64)); case 1: return mk_bin(model::B_PLUS, m, mk_const(1)); case 2: return mk_var(5); default: return mk_un(model::U_SIN, m); }
}
// called in mode LIB by the functors; returns the model of e
P see(Rec* r, const IF* e, bool record) {
  ModeGuard g(sim::OFF);
  Ctx* c = g.c;
  if (r->attempt != c->attempt) { r->attempt = c->attempt; r->calls.clear(); r->inside = 0; r->after_throw = r->unreadable = false; r->vars = 0; }
  if (r->inside) r->after_throw = true;
  bool bad = false; P m = walk(e, bad);
  if (bad) { r->unreadable = true; m = mk_var(0); }
  if (record) r->calls.push_back(m);
  return m;
}
void forget(Rec* r) { ModeGuard g(sim::OFF); r->calls.clear(); r->vars = 0; }
struct Manip : vm::rt_manipulation_interface<IF> {
  Rec* r;
  explicit Manip(Rec* x) : r(x) {}
  IF* operator()(IF const* e) const {
    bool rep; double v = 0; int kind;
    { P m = see(r, e, true); ModeGuard g(sim::OFF); rep = chosen(*r, m); kind = (int)r->repl; v = (double)(m->hash % 64); m.reset(); }
    r->inside = 1; sim::user_point(20); r->inside = 0;
    if (!rep) return e->clone();
    switch (kind) {
      case 0: return new LC(v);
      case 1: { std::auto_ptr<IF> a(e->clone()); std::auto_ptr<IF> b(new LC(1)); std::auto_ptr<OIF> o(new vm::op_binary<vm::op_plus<double>, IF>()); IF* q = new LB(a.get(), o.get(), b.get()); a.release(); b.release(); o.release(); return q; }
      case 2: return new LX(5);
      default: { std::auto_ptr<IF> a(e->clone()); std::auto_ptr<OIF> o(new vm::op_unary<vm::op_sin<double>, IF>()); IF* q = new LU(a.get(), o.get()); a.release(); o.release(); return q; }
    }
  }
  bool modifies(IF const* e) const {
    bool rep;
    { P m = see(r, e, false); ModeGuard g(sim::OFF); rep = chosen(*r, m); m.reset(); }
    r->inside = 1; sim::user_point(21); r->inside = 0;
    return rep;
  }
};
struct CountVars {   // one call-back object for all node types; each looks at the node it was given
  Rec* r;
  void seen(int i) const { ModeGuard g(sim::CHECK); r->vars += 1L << (10 * i); }
  void operator()(LX const& x) const { if (x.id() >= 0) seen(0); }
  void operator()(LB const& x) const { if (x.lhs() && x.rhs()) seen(1); }
  void operator()(LU const& x) const { if (x.lhs() && x.op()) seen(2); }
  void operator()(LF const& x) const { if (x.id() >= 0) seen(3); }
  void operator()(LV const& x) const { if (x.size() < 1000) seen(4); }
  void operator()(LC const& x) const { if (x.is_constant()) seen(5); }
};
std::string counts(long v) { std::string s; for (int i = 0; i < 6; ++i) s += (i ? "/" : "") + std::to_string((v >> (10 * i)) & 1023); return v >> 60 ? s + " and inconsistent results" : s; }
long cast_counts(PL const& calls) {
  long v = 0;
  for (size_t i = 0; i < calls.size(); ++i) { P const& m = calls[i]; int k = m->k == model::VAR ? 0 : m->k == model::BIN ? 1 : m->k == model::UN ? 2 : m->k == model::FSYM ? 3 : m->k == model::VEC ? 4 : m->k == model::CONST && m->ct == model::C_DOUBLE ? 5 : -1; if (k >= 0) v += 1L << (10 * k); }
  return v;
}
struct Any { void operator()(IF const&) const {} };
struct Counter : vm::rt_traversal_interface<IF> { long* n; explicit Counter(long* x) : n(x) {} void operator()(IF const*) const { ModeGuard g(sim::CHECK); ++*n; } };
struct Trav : vm::rt_traversal_interface<IF> {
  Rec* r;
  explicit Trav(Rec* x) : r(x) {}
  void operator()(IF const* e) const {
    { P m = see(r, e, true); ModeGuard g(sim::OFF); m.reset(); }
    int hits = vm::callback_if_castable<LX>::apply(e, mk()); hits += vm::callback_if_castable<LB>::apply(e, mk()); hits += vm::callback_if_castable<LU>::apply(e, mk());
    hits += vm::callback_if_castable<LF>::apply(e, mk()); hits += vm::callback_if_castable<LV>::apply(e, mk()); hits += vm::callback_if_castable<LC>::apply(e, mk());
    if (vm::callback_if_castable<IF>::apply(e, Any()) != true || hits > 1) { ModeGuard g(sim::CHECK); r->vars += 1L << 62; }
    r->inside = 1; sim::user_point(22); r->inside = 0;
  }
  CountVars mk() const { CountVars c; c.r = r; return c; }
  bool step_into(IF const* e) const {
    bool in;
    { P m = see(r, e, false); ModeGuard g(sim::OFF); in = !chosen(*r, m); m.reset(); }
    r->inside = 1; sim::user_point(23); r->inside = 0;
    return in;
  }
};
P manip_model(Rec const& r, P const& t, PL& calls) {
  if (t->k == model::BIN || t->k == model::UN) {
    if (chosen(r, t)) { calls.push_back(t); return replaced(r, t); }
    if (t->k == model::UN) return mk_un(t->op, manip_model(r, t->c[0], calls), t->id, t->lo, t->hi);
    P a = manip_model(r, t->c[0], calls);
    return mk_bin(t->op, a, manip_model(r, t->c[1], calls));
  }
  calls.push_back(t);
  return chosen(r, t) ? replaced(r, t) : t;
}
void trav_model(Rec const& r, P const& t, PL& calls) {
  if (t->k == model::BIN) {
    bool in = !chosen(r, t);
    if (in) trav_model(r, t->c[0], calls);
    calls.push_back(t);
    if (in) trav_model(r, t->c[1], calls);
  } else {
    calls.push_back(t);
    if (t->k == model::UN && !chosen(r, t)) trav_model(r, t->c[0], calls);
  }
}
long count_nodes(P const& t) { return t->k == model::BIN ? 1 + count_nodes(t->c[0]) + count_nodes(t->c[1]) : t->k == model::UN ? 1 + count_nodes(t->c[0]) : 1; }
bool by_hash(P const& a, P const& b) { return a->hash < b->hash; }
std::string show_list(PL const& l) { std::string s; for (size_t i = 0; i < l.size() && s.size() < 600; ++i) s += (i ? " ; " : "") + show2(l[i]); return s; }
bool same_list(PL const& a, PL const& b, size_t n) { for (size_t i = 0; i < n; ++i) if (!model::same(a[i], b[i])) return false; return true; }
}

void x_MANIP(OpCtx& o) {
  Op const& p = o.op; NEED(p.a < SCR);
  Slot& e = o.w.at(S_E, p.b); NEED(e.present() && e.m); P m = e.m; o.operand(m);
  Rec rec; rec.mask = p.n[0]; rec.salt = p.n[1]; rec.repl = p.n[2];
  PL calls; P exp = manip_model(rec, m, calls); NEED(exp->size < 500);
  std::sort(calls.begin(), calls.end(), by_hash);
  Res<LE> r;
  perform(o, [&] {
    vm::rt_manipulation_wrapper<IF> fw(new Manip(&rec));
    if (p.n[3] & 1) vm::rt_manipulation_wrapper<IF> unused(new Manip(&rec));
    if (p.n[3] & 2) { LE twice(obj<LE>(e).get()->recursive_manipulation(fw)); forget(&rec); }
    if (p.n[3] & 4) {   // the functor that claims nothing gives a copy
      vm::rt_manipulation_wrapper<IF> plain(new vm::rt_manipulation_interface<IF>());
      LE copy(obj<LE>(e).get()->recursive_manipulation(plain)); { P c = see(&rec, copy.get(), false); ModeGuard g(sim::OFF); rec.plain = model::same(c, m); c.reset(); }
    }
    const IF* root = obj<LE>(e).get();
    new (r.mem()) LE(root->recursive_manipulation(fw));
  }, [&] {
    if (rec.attempt != sim::ctx()->attempt) rec.calls.clear();
    PL got = rec.calls; std::sort(got.begin(), got.end(), by_hash);
    if (rec.unreadable) bad_result(o, "functor-argument", "the functor was called with an object that cannot be read");
    else if (!rec.plain) bad_result(o, "default-functor", "the functor that claims no node did not give an equal expression");
    else if (got.size() != calls.size() || !same_list(got, calls, calls.size())) bad_result(o, "calls", "the functor was called for %s; expected %s", show_list(got).c_str(), show_list(calls).c_str());
    finish_expr(o, r, [&](P const& act) { return model::same(exp, act) ? std::string() : "expected " + show2(exp); }, p.b < SCR ? &e : 0);
  }, [&](Outcome const&) { if (rec.after_throw) bad_result(o, "called-after-failure", "the functor was called again after it had failed"); });
}
void x_TRAVERSE(OpCtx& o) {
  Op const& p = o.op;
  Slot& e = o.w.at(S_E, p.b); NEED(e.present() && e.m); P m = e.m; o.operand(m);
  Rec rec; rec.mask = p.n[0]; rec.salt = p.n[1];
  PL calls; trav_model(rec, m, calls); long vars = cast_counts(calls), all = count_nodes(m);
  perform(o, [&] {
    vm::rt_traversal_wrapper<IF> fw(new Trav(&rec));
    if (p.n[2] & 1) vm::rt_traversal_wrapper<IF> unused(new Trav(&rec));
    if (p.n[2] & 2) { obj<LE>(e).get()->recursive_traversal(fw); forget(&rec); }
    if (p.n[2] & 4) {   // a functor with the default step_into() is called for every node
      long n = 0;
      vm::rt_traversal_wrapper<IF> plain(new Counter(&n)); obj<LE>(e).get()->recursive_traversal(plain); rec.plain = n == all;
    }
    obj<LE>(e).get()->recursive_traversal(fw);
  }, [&] {
    if (rec.attempt != sim::ctx()->attempt) { rec.calls.clear(); rec.vars = 0; }
    o.digest(rec.calls.size()); for (size_t i = 0; i < rec.calls.size(); ++i) o.digest(rec.calls[i]->hash);
    if (rec.unreadable) bad_result(o, "functor-argument", "the functor was called with an object that cannot be read");
    else if (rec.calls.size() != calls.size() || !same_list(rec.calls, calls, calls.size())) bad_result(o, "visits", "visited %s; expected %s", show_list(rec.calls).c_str(), show_list(calls).c_str());
    else if (!rec.plain) bad_result(o, "default-functor", "a functor that steps into everything was not called once for each of the %ld nodes", all);
    else if (rec.vars != vars) bad_result(o, "callback", "callback_if_castable found nodes of the types (variable, binary, unary, function symbol, vector, constant) as %s instead of %s", counts(rec.vars).c_str(), counts(vars).c_str());
    if (rec.after_throw) bad_result(o, "visited-after-failure", "the functor was called again after it had failed");
  }, [&](Outcome const&) {
    if (rec.attempt != sim::ctx()->attempt) return;
    if (rec.after_throw) bad_result(o, "visited-after-failure", "the functor was called again after it had failed");
    else if (rec.calls.size() > calls.size() || !same_list(rec.calls, calls, rec.calls.size())) bad_result(o, "visits", "before the failure visited %s; expected the beginning of %s", show_list(rec.calls).c_str(), show_list(calls).c_str());
  });
}

// ------------------------------------------------------------------ evaluation
namespace {
struct UserVec { typedef double value_type; const double* p; size_t n; size_t size() const { return n; } double operator[](size_t i) const { ModeGuard g(sim::CHECK); return p[i]; } };
struct Args {   // evaluation arguments in the simulated heap
  std::vector<double>* v; LC* c; LCI* ci; bool big;
  Args(std::vector<double> const& src, double x, bool b) : big(b) {
    ModeGuard g(sim::SETUP);
    v = new std::vector<double>(); v->reserve(src.size()); for (size_t i = 0; i < src.size(); ++i) v->push_back(src[i]);
    c = new LC(x); ci = new LCI((int)x);
  }
  ~Args() { ModeGuard g(sim::SETUP); delete v; delete c; delete ci; }
};
const long BIG = -3000000007L; typedef vm::ct_constant<BIG> Big;   // not an int
template <class E> void eval_call(double* out, int variant, Args const& a, E const& e) {
  std::vector<double> const& v = *a.v;
  switch (variant) {
    case 0: *out = e(v.size() ? v[0] : 0.0); break;
    case 1: *out = e(*a.c); break;
    case 2: *out = a.big ? e(Big()) : e(vm::ct_constant<3>()); break;
    case 3: *out = e(v); break;
    case 4: *out = e(vm::ct_vector_1<double>(v[0])); break;
    case 5: *out = e(vm::ct_vector_2<double, double>(v[0], v[1])); break;
    case 6: *out = e(vm::ct_vector_3<double, double, double>(v[0], v[1], v[2])); break;
    case 7: *out = vm::eval(e, v[0]); break;
    case 8: *out = vm::eval(e, v); break;
    case 9: *out = e(*a.ci); break;
    case 10: *out = vm::eval(e, *a.c); break;
    case 11: { UserVec u; u.p = v.empty() ? 0 : &v[0]; u.n = v.size(); *out = e(u); break; }
    case 12: *out = vm::eval(e, vm::ct_vector_3<double, double, double>(v[0], v[1], v[2])); break;
    case 13: *out = a.big ? vm::eval(e, Big()) : vm::eval(e, vm::ct_constant<3>()); break;
    case 14: *out = a.big ? e(vm::make_vector(Big(), vm::ct_constant<-1>())) : e(vm::make_vector(vm::ct_constant<2>(), vm::ct_constant<-1>())); break;
    default: *out = a.big ? vm::eval(e, vm::make_vector(vm::ct_constant<2>(), Big(), Big())) : vm::eval(e, vm::make_vector(vm::ct_constant<2>(), vm::ct_constant<-1>(), vm::ct_constant<4>())); break;
  }
}
void eval_var(double* out, int variant, Args const& a, LX const& e) {
  std::vector<double> const& v = *a.v;
  switch (variant) {
    case 0: *out = e(v[0]); break;
    case 1: *out = e(*a.c); break;
    case 2: *out = a.big ? (double)e(Big()) : (double)e(vm::ct_constant<3>()); break;
    case 3: *out = e(v); break;
    case 7: *out = vm::eval(e, v[0]); break;
    case 8: *out = vm::eval(e, v); break;
    case 11: { UserVec u; u.p = v.empty() ? 0 : &v[0]; u.n = v.size(); *out = e(u); break; }
    default: *out = e(v); break;
  }
}
}
namespace sim_points {
inline double point(long seed, long i) { Rng r((uint64_t)seed * 131 + i); switch (r.below(4)) { case 0: return (double)((long)r.below(9) - 4) / 2; case 1: return 0.25 + 2 * r.real(); case 2: return -2 + 4 * r.real(); default: return (double)r.below(4); } }
}
void eval_ct(OpCtx& o);
void x_EVAL(OpCtx& o) {
  if (o.op.n[0] == 7) { eval_ct(o); return; }
  Op const& p = o.op; int variant = (int)p.n[1];
  static const int types[] = {S_E, S_U, S_B, S_X, S_C, S_V, S_F};
  NEED(p.n[0] >= 0 && p.n[0] <= 6 && variant >= 0 && variant <= 15);
  int t = types[p.n[0]];
  Slot* s;
  if (t == S_X) { s = &scratch(o, S_X, 0, mk_var(p.b & 31)); if (variant == 0 || variant == 7) NEED((p.b & 31) == 0); }
  else if (t == S_C) s = &scratch(o, S_C, 0, mk_const(p.x));
  else if (t == S_F) { NEED(p.t[0] && p.t[0]->k == model::FSYM); s = &scratch(o, S_F, 0, p.t[0]); }
  else { s = &o.w.at(t, p.b); NEED(s->present() && s->m); }
  P m = s->m; o.operand(m);
  if (t == S_X && variant > 3 && variant != 7 && variant != 8 && variant != 11) variant = 3;
  bool scalar = variant <= 2 || variant == 7 || variant == 9 || variant == 10 || variant == 13;
  long n = p.n[2];
  if (variant == 0 || variant == 7) n = 1;
  if (variant == 4) n = 1;
  if (variant == 5 || variant == 14) n = 2;
  if (variant == 6 || variant == 12 || variant == 15) n = 3;
  NEED(n >= 0 && n <= model::NP);
  std::vector<double> pt; for (long i = 0; i < n; ++i) pt.push_back(sim_points::point(p.n[3], i));
  double x = p.x;
  const bool big = p.n[3] % 4 == 1; const double bigv = BIG;
  if (variant == 14) { pt[0] = big ? bigv : 2; pt[1] = -1; }
  if (variant == 15) { pt[0] = 2; pt[1] = big ? bigv : -1; pt[2] = big ? bigv : 4; }
  model::Env env; env.strict = true; for (int i = 0; i < model::NP; ++i) env.p[i] = i < n ? pt[i] : 0; env.dim = 3; env.budget = 60000;
  if (scalar) env.p[0] = variant == 0 || variant == 7 ? pt[0] : variant == 2 || variant == 13 ? (big ? bigv : 3) : variant == 9 ? (double)(int)x : x;
  unsigned ex = model::eval_exceptions(m, n, scalar);
  o.allow = ex; o.must_throw = ex != 0;
  Args args(pt, x, big);
  double out = 0; double* po = &out;
  const std::vector<double> before = pt;
  perform(o, [&] {
    switch (t) {
      case S_E: eval_call(po, variant, args, obj<LE>(*s)); break;
      case S_U: eval_call(po, variant, args, obj<LU>(*s)); break;
      case S_B: eval_call(po, variant, args, obj<LB>(*s)); break;
      case S_X: eval_var(po, variant, args, obj<LX>(*s)); break;
      case S_C: *po = variant & 1 ? (double)vm::eval(obj<LC>(*s), *args.v) : (double)obj<LC>(*s)(); break;
      case S_F: *po = static_cast<const IF&>(obj<LF>(*s)).eval(*args.v); break;
      default: *po = scalar ? static_cast<const IF&>(obj<LV>(*s)).eval(x) : static_cast<const IF&>(obj<LV>(*s)).eval(*args.v); break;
    }
  }, [&] {
    uint64_t bits; memcpy(&bits, &out, 8); o.digest(out == out ? bits : 1);
    if (o.must_throw) return;
    model::Val v = model::eval(m, env); sim::stats().compared++;
    if (v.st != 1) { sim::stats().skipped_points++; return; }
    if (!(std::fabs(out - v.s.v) <= 32 * v.s.e + 1e-12 * std::max(1.0, std::fabs(v.s.v)))) bad_result(o, "wrong-value", "got %.17g, expected %.17g", out, v.s.v);
  }, NoFail());
  for (size_t i = 0; i < before.size(); ++i) { ModeGuard g(sim::CHECK); if (!((*args.v)[i] == before[i])) { g.c->mode = sim::OFF; bad_result(o, "point-changed", "evaluation changed the point"); break; } }
}

// ------------------------------------------------------------------ quadrature
namespace {
double rule_value(P const& integral, long param) { return (double)((integral->hash >> 5) % 4096) / 8 - 100 + param; }
// a rule written by the user
struct Rule : vm::numerical_quadrature_interface<IF> {
  long param; long* alive;
  explicit Rule(long q, long* n) : param(q), alive(n) { ModeGuard g(sim::OFF); ++*alive; }
  Rule(Rule const& x) : vm::numerical_quadrature_interface<IF>(), param(x.param), alive(x.alive) { ModeGuard g(sim::OFF); ++*alive; }
  ~Rule() { ModeGuard g(sim::OFF); --*alive; }
  vm::numerical_quadrature_interface<IF>* clone() const { sim::user_point(31); return new Rule(*this); }
  double eval(LI const& iv, LE const& e, LX const& x) const {
    double v;
    { ModeGuard g(sim::OFF); bool b1 = false, b2 = false, b3 = false; const LE *l, *h; long id; { ModeGuard k(sim::CHECK); l = &iv.lower(); h = &iv.upper(); id = (long)x.id(); }
      P lo = walk_expr(*l, b1), hi = walk_expr(*h, b2), f = walk_expr(e, b3);
      if (b1 || b2 || b3 || !lo || !hi || !f) v = 1e9; else v = rule_value(mk_un(model::U_INT, f, id, lo, hi), param); }
    sim::user_point(30);
    return v;
  }
};
struct QRes { double v; unsigned ex; bool must; bool skip; bool approx; double err; QRes() : v(0), ex(0), must(false), skip(false), approx(false), err(0) {} };
unsigned unwrap_ex(P const& t) {
  switch (t->k) {
    case model::CONST: case model::PROBE: return 0;
    case model::BIN: return unwrap_ex(t->c[0]) | unwrap_ex(t->c[1]);
    case model::VEC: { unsigned e = model::X_NOTUNWRAP; for (size_t i = 0; i < t->c.size(); ++i) e |= unwrap_ex(t->c[i]); return e; }   // products of vectors simplify to scalars
    case model::UN: { unsigned e = unwrap_ex(t->c[0]); switch (t->op) { case model::U_GRAD: case model::U_DIV: case model::U_PARTIAL: return e | model::X_CHARP; case model::U_INT: return e | model::X_ANALYTIC; case model::U_SYMINT: return e | model::X_SYMINT; default: return e; } }
    default: return model::X_NOTUNWRAP;
  }
}
QRes quad_one(P const& f, P const& lo, P const& hi, long var, long kind, long param) {
  QRes r;
  if (kind == 2) { r.v = rule_value(mk_un(model::U_INT, f, var, lo, hi), param); r.err = 1e-9; return r; }
  if (!model::is_const(lo) || !model::is_const(hi)) { r.skip = true; return r; }
  double a = model::unwrap(lo), b = model::unwrap(hi), mid = (a + b) / 2;
  if (!(std::fabs(a) < 1e6 && std::fabs(b) < 1e6)) { r.skip = true; return r; }
  P g = model::subst(f, PL(1, mk_var(var)), PL(1, mk_const(mid)));
  if (model::bad_shape(f) || model::bad_shape(g)) { r.skip = true; return r; }   // outside what may be simplified
  r.ex = unwrap_ex(g);
  model::Env env; env.strict = true;
  if (r.ex) {
    // substitution may simplify: a product with zero has a value even if the other factor has none
    Rng rn(g->hash); model::Env e1, e2; model::random_env(rn, e1, 3); model::random_env(rn, e2, 3);
    model::Val a1 = model::eval(g, e1), a2 = model::eval(g, e2);
    if (a1.st != 1 || a2.st != 1) { if (a1.st == 2 && a2.st == 2) for (size_t i = 0; i < a1.w.size(); ++i) if (std::fabs(a1.w[i].v) > 1e-6) r.must = true; r.approx = true; return r; }
    if (std::fabs(a1.s.v - a2.s.v) > 64 * (a1.s.e + a2.s.e) + 1e-9 * std::max(1.0, std::fabs(a1.s.v))) { r.must = true; return r; }
  }
  for (int i = 0; i < model::NP; ++i) env.p[i] = 0;
  model::Val v = model::eval(g, env);
  if (v.st != 1) { r.approx = true; return r; }
  r.v = v.s.v * (b - a); r.err = 64 * v.s.e * std::fabs(b - a) + 1e-12 * std::max(1.0, std::fabs(r.v));
  return r;
}
QRes quad_model(P const& t, long kind, long param) {
  if (t->k == model::UN) {
    if (t->op == model::U_INT) return quad_one(t->c[0], t->lo, t->hi, t->id, kind, param);
    QRes r; r.must = true; r.ex = t->op == model::U_SYMINT ? model::X_SYMINT : model::X_NOINT; return r;
  }
  QRes r;
  if (model::is_const(t) && model::unwrap(t) == 0) return r;
  if (t->k == model::BIN && (t->op == model::B_PLUS || t->op == model::B_MINUS)) {
    QRes a = quad_model(t->c[0], kind, param), b = quad_model(t->c[1], kind, param);
    r.skip = a.skip || b.skip; r.approx = a.approx || b.approx; r.ex = a.ex | b.ex; r.must = a.must || b.must; r.err = a.err + b.err; r.v = t->op == model::B_PLUS ? a.v + b.v : a.v - b.v;
    return r;
  }
  r.ex = model::X_NOINT; r.must = true; return r;
}
// quadrature objects have no readable state: use them
void check_quadrature(OpCtx& o, Slot& s) {
  if (!s.p || s.qkind == 0) return;
  P f = mk_const(2), lo = mk_const(-1), hi = mk_const(2);
  QRes want = quad_one(f, lo, hi, 1, s.qkind, s.qparam);
  Slot& e = scratch(o, S_E, 3, mk_un(model::U_INT, f, 1, lo, hi));
  double got = 0; unsigned ex = 0; Ctx* c = sim::ctx(); uint64_t keep = c->steps; c->steps = 0; bool fa = c->faulty; c->faulty = false;
  try { c->mode = sim::LIB; got = obj<LN>(s)(obj<LE>(e)); c->mode = sim::OFF; } catch (...) { c->mode = sim::OFF; ex = classify_and_check(); }
  c->steps = keep; c->faulty = fa;
  if (ex || !(std::fabs(got - want.v) < 1e-6)) bad_result(o, "wrong-rule", "a quadrature object gives %.17g (%s) instead of %.17g", got, ex ? model::ex_names(ex).c_str() : "no exception", want.v);
}
void check_quadratures(OpCtx& o) {
  long n = 0;
  for (int i = 0; i < NSLOT; ++i) { check_quadrature(o, o.w.s[S_N][i]); if (o.w.s[S_N][i].p && o.w.s[S_N][i].qkind == 2) ++n; }
  if (!o.w.threaded && !o.w.sh && n != o.w.rules) { long had = o.w.rules; o.w.rules = n; bad_result(o, "rules", "%ld user rules exist, but the quadrature objects hold %ld: an object kept or lost its rule", had, n); }
}
struct CheckQ { OpCtx& o; void operator()(Outcome const&) const { check_quadratures(o); } };
}
void x_N_NEW(OpCtx& o) {
  Op const& p = o.op; NEED(p.a < SCR);
  Res<LN> r; long kind = p.n[0] % 3;
  perform(o, [&] {
    switch (kind) {
      case 0: new (r.mem()) LN(); break;
      case 1: new (r.mem()) LN(new vm::rt_gauss_quad_1<IF>()); break;
      default: new (r.mem()) LN(new Rule(p.n[1], &o.w.rules)); break;
    }
  }, [&] { r.s.qkind = kind; r.s.qparam = p.n[1]; commit(o, r.s, o.w.s[S_N][p.a]); Slot& t = o.w.s[S_N][p.a]; t.qkind = kind; t.qparam = p.n[1]; check_quadratures(o); }, CheckQ{o});
}
void x_N_ASSIGN(OpCtx& o) {
  Op const& p = o.op; NEED(p.a < SCR);
  LIVE(LN, p.b); Slot& src = o.w.at(S_N, p.b); Slot& dst = o.w.s[S_N][p.a];
  if (p.n[0] & 1) {
    Res<LN> r; long k = src.qkind, q = src.qparam;
    perform(o, [&] { new (r.mem()) LN(obj<LN>(src)); }, [&] {
      r.s.qkind = k; r.s.qparam = q;
      if ((p.d & 4) && p.b < SCR) destroy(o.w, src);
      commit(o, r.s, dst); check_quadratures(o);
    }, CheckQ{o});
  } else {
    NEED(dst.present());
    perform(o, [&] { obj<LN>(dst) = obj<LN>(src); }, [&] { dst.qkind = src.qkind; dst.qparam = src.qparam; if ((p.d & 4) && &src != &dst && p.b < SCR) destroy(o.w, src); check_quadratures(o); }, CheckQ{o});
  }
}
namespace {
void quad_good(OpCtx& o, double out, QRes const& want) {
  uint64_t bits; memcpy(&bits, &out, 8); o.digest(out == out ? bits : 1);
  if (o.must_throw) return;
  sim::stats().compared++;
  if (want.approx) { sim::stats().skipped_points++; return; }
  if (!(std::fabs(out - want.v) <= want.err + 1e-9 * std::fabs(want.v) * 1e-3)) bad_result(o, "wrong-value", "got %.17g, expected %.17g", out, want.v);
}
}
void x_QUAD(OpCtx& o) {
  Op const& p = o.op;
  Slot& e = o.w.at(S_E, p.b); NEED(e.present() && e.m); LIVE(LN, p.c); Slot& q = o.w.at(S_N, p.c); NEED(q.qkind != 0);
  P m = e.m; o.operand(m); QRes want = quad_model(m, q.qkind, q.qparam); NEED(!want.skip);
  o.allow = want.ex; o.must_throw = want.must;
  double out = 0;
  perform(o, [&] { out = obj<LN>(q)(obj<LE>(e)); }, [&] { quad_good(o, out, want); check_quadratures(o); }, CheckQ{o});
}
void x_QUAD2(OpCtx& o) {
  Op const& p = o.op;
  Slot& e = o.w.at(S_E, p.b); NEED(e.present() && e.m); LIVE(LN, p.c); Slot& q = o.w.at(S_N, p.c); NEED(q.qkind != 0);
  Slot& iv = o.w.at(S_I, (int)p.n[1]); NEED(iv.present() && iv.m && iv.m2);
  bool ct = p.n[0] == 2; NEED(p.n[2] >= 0); static const long cv[] = {0, 1, 2, 3, 7}; int ci = (int)(p.n[2] % 5); long v = ct ? cv[ci] : p.n[2];
  Slot& x = scratch(o, S_X, 0, mk_var(v));
  o.operand(e.m); o.operand(iv.m); o.operand(iv.m2);
  QRes want = quad_one(e.m, iv.m, iv.m2, v, q.qkind, q.qparam); NEED(!want.skip);
  o.allow = want.ex; o.must_throw = want.must;
  double out = 0;
#define CTQ(I, N) if (ct && ci == I) { out = obj<LN>(q)(obj<LI>(iv), obj<LE>(e), vm::ct_variable<N>()); return; }
  perform(o, [&] {
    CTQ(0, 0) CTQ(1, 1) CTQ(2, 2) CTQ(3, 3) CTQ(4, 7)
    out = obj<LN>(q)(obj<LI>(iv), obj<LE>(e), obj<LX>(x)); },
          [&] { quad_good(o, out, want); check_quadratures(o); }, CheckQ{o});
}

// ------------------------------------------------------------------ stream output
namespace {
// characters go to the sink of the world; the sink fails when it is told to
class SimBuf : public std::streambuf {
public:
  explicit SimBuf(Sink* s) : s_(s) {}
protected:
  bool full() {
    if (s_->kind == 0) return false;
    if (s_->left > 0) { --s_->left; return false; }
    if (s_->kind == sim::F_SINK_SHORT && s_->fired) return false;
    if (!s_->fired) { s_->fired = true; sim::note_fired(s_->kind); }
    if (s_->kind == sim::F_SINK_THROW) throw UserStdFault(40);
    return true;
  }
  int_type overflow(int_type c) {
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    if (full()) return traits_type::eof();
    put((char)c); return c;
  }
  std::streamsize xsputn(const char* p, std::streamsize n) { for (std::streamsize i = 0; i < n; ++i) { if (full()) return i; put(p[i]); } return n; }
  void put(char c) { if (s_->len < s_->cap) s_->buf[s_->len] = c; ++s_->len; }
private:
  Sink* s_;
};
struct Out {   // a stream in the simulated heap
  SimBuf* b; std::ostream* os;
  Out(Sink* s, long mode) {
    ModeGuard g(sim::SETUP); b = new SimBuf(s); os = new std::ostream(b);
    set(mode);
  }
  void set(long mode) {
    if (mode & 1) os->exceptions(std::ios_base::badbit);
    if (mode & 2) os->precision(2);
    if (mode & 4) os->setf(std::ios_base::hex, std::ios_base::basefield);
    if (mode & 8) { os->setf(std::ios_base::showpos); os->setf(std::ios_base::scientific, std::ios_base::floatfield); os->setf(std::ios_base::uppercase); }
    if (mode & 16) os->setf(std::ios_base::unitbuf);
  }
  void clear() { ModeGuard g(sim::SETUP); std::ios_base::iostate e = os->exceptions(); os->exceptions(std::ios_base::goodbit); os->clear(); os->exceptions(e); }
  ~Out() { ModeGuard g(sim::SETUP); delete os; delete b; }
};
std::string print_text(int t, Slot& s) {
  switch (t) {
    case S_E: return model::expr_str(s.m);
    case S_U: return "unary" + model::deep_str(s.m);
    case S_B: return "expr" + model::deep_str(s.m);
    case S_V: return model::deep_str(s.m);
    case S_Q: return "equation(" + model::expr_str(s.m) + " = " + model::expr_str(s.m2) + ")";
    case S_I: return model::interval_str(s.m, s.m2);
    default: return model::deep_str(s.m);
  }
}
const int print_types[] = {S_E, S_U, S_B, S_V, S_Q, S_I, S_X, S_C, S_CI, S_F};
Slot* print_source(OpCtx& o, int t) {
  Op const& p = o.op;
  switch (t) {
    case S_X: return p.n[2] >= 0 ? &scratch(o, S_X, 0, mk_var(p.n[2])) : 0;
    case S_C: return &scratch(o, S_C, 0, mk_const(p.x));
    case S_CI: return &scratch(o, S_CI, 0, mk_const((double)(int)p.x, model::C_INT));
    case S_F: return p.t[0] && p.t[0]->k == model::FSYM ? &scratch(o, S_F, 0, p.t[0]) : 0;
    default: { Slot& s = o.w.at(t, p.b); return s.present() && s.m && ((t != S_Q && t != S_I) || s.m2) ? &s : 0; }
  }
}
}
const char* ct_text(long which); long ct_count(); void ct_write(long which, std::ostream& os);   // lib_ctprint.cpp
void x_PRINT(OpCtx& o) {
  Op const& p = o.op; NEED(p.n[0] >= 0 && p.n[0] <= 10);
  bool ct = p.n[0] == 10; long which = ct && ct_count() ? p.b % ct_count() : 0; NEED(which >= 0);
  int t = ct ? -1 : print_types[p.n[0]];
  Slot* s = ct ? 0 : print_source(o, t); NEED(s || ct);
  long mode = p.n[1];
  if (ct || t == S_V || t == S_C || t == S_CI || t == S_X || t == S_F) mode &= ~14L;   // these write numbers directly, the stream's format applies
  if (s) { o.operand(s->m); o.operand(s->m2); } else { NEED(ct_text(which)); o.opnd_hash = 977 + which; }
  std::string want = ct ? std::string(ct_text(which)) : print_text(t, *s); NEED((long)want.size() < o.w.sink.cap);
  Out out(&o.w.sink, mode);
  bool good = false; int last = -1;
  struct State { static void check_prefix(OpCtx& o, std::string const& want) {
    Sink& k = o.w.sink;
    if (k.len > (long)want.size() || memcmp(k.buf, want.data(), k.len) != 0) bad_result(o, "not-a-prefix", "written: \"%.*s\"; expected the beginning of \"%s\"", (int)std::min(k.len, 600L), k.buf, want.substr(0, 600).c_str());
  } };
  (void)last;
  perform(o, [&] {
    if (o.attempts > 1) out.clear();
    std::ostream& os = *out.os;
    if (ct) { ct_write(which, os); return; }
    switch (t) {
      case S_E: os << obj<LE>(*s); break;
      case S_U: os << obj<LU>(*s); break;
      case S_B: os << obj<LB>(*s); break;
      case S_V: os << obj<LV>(*s); break;
      case S_Q: os << obj<LQ>(*s); break;
      case S_I: os << obj<LI>(*s); break;
      case S_X: os << obj<LX>(*s); break;
      case S_C: os << obj<LC>(*s); break;
      case S_CI: os << obj<LCI>(*s); break;
      default: os << obj<LF>(*s); break;
    }
  }, [&] {
    { ModeGuard g(sim::CHECK); good = out.os->good(); }
    Sink& k = o.w.sink; o.digest(hash_str(std::string(k.buf, std::min(k.len, k.cap))) + good);
    State::check_prefix(o, want);
    if (good && k.len < (long)want.size()) bad_result(o, "text-lost", "the stream reports success, but only \"%.*s\" of \"%s\" was written", (int)std::min(k.len, 600L), k.buf, want.substr(0, 600).c_str());
    if (!good && !k.fired) bad_result(o, "stream-failed", "the stream failed without a reason");
  }, [&](Outcome const& r) {
    State::check_prefix(o, want);
    if (o.w.sink.fired && !(r.ex & (model::X_IOS | model::X_USERSTD))) bad_result(o, "stream-exception", "a failing stream led to %s", model::ex_names(r.ex).c_str());
  });
}

// ------------------------------------------------------------------ strings
namespace {
struct StrBox {   // a std::string filled by library code
  char mem[sizeof(std::string)] __attribute__((aligned(16))); bool live;
  StrBox() : live(false) {}
  ~StrBox() { kill(); }
  void kill() { if (live) { ModeGuard g(sim::SETUP); get().~basic_string(); live = false; } }
  std::string& get() { return *reinterpret_cast<std::string*>(mem); }
  std::string text() { ModeGuard g(sim::CHECK); std::string& s = get(); const char* p = s.data(); size_t n = s.size(); std::string r; { ModeGuard k(sim::OFF); if (n < 100000) r.assign(p, n); else r = "(absurd length)"; } return r; }
};
}
void x_STR(OpCtx& o) {
  Op const& p = o.op; NEED(p.n[0] >= 0 && p.n[0] < 10);
  int t = print_types[p.n[0]]; NEED(t != S_Q && t != S_I);
  Slot* s = print_source(o, t); NEED(s);
  P m = s->m; o.operand(m);
  bool shallow = p.n[1] & 1;
  std::string want = shallow ? (m->k == model::UN ? "unary_expr" : m->k == model::BIN ? "binary_expr" : m->k == model::VEC ? "vector_expr" : model::deep_str(m)) : model::deep_str(m);
  const IF* node = t == S_E ? obj<LE>(*s).get() : t == S_U ? (const IF*)&obj<LU>(*s) : t == S_B ? (const IF*)&obj<LB>(*s) : t == S_V ? (const IF*)&obj<LV>(*s) : t == S_X ? (const IF*)&obj<LX>(*s) : t == S_C ? (const IF*)&obj<LC>(*s) : t == S_CI ? (const IF*)&obj<LCI>(*s) : (const IF*)&obj<LF>(*s);
  StrBox box;
  perform(o, [&] {
    if (box.live) { box.get().~basic_string(); box.live = false; }
    if (shallow) new (box.mem) std::string(node->shallow_str()); else new (box.mem) std::string(node->deep_str());
    box.live = true;
  }, [&] {
    std::string got = box.text(); o.digest(hash_str(got));
    if (got != want) bad_result(o, "wrong-text", "got \"%s\", expected \"%s\"", got.substr(0, 600).c_str(), want.substr(0, 600).c_str());
  }, NoFail());
}

// ------------------------------------------------------------------ LaTeX
namespace {
struct ProbeProc : vm::rt_latex_processor_interface<IF> {
  int kind, dashes;
  ProbeProc(int k, int d) : kind(k), dashes(d) {}
  vm::rt_latex_processor_interface<IF>* clone() const { sim::user_point(50); return new ProbeProc(kind, dashes); }
  std::string process(IF const* e, bool, LT const&) const {
    const Probe* q = dynamic_cast<const Probe*>(e);
    if (!q || (q->id_ & 3) != kind) return std::string();
    sim::user_point(51);
    char b[60]; char* w = b; for (const char* c = " P_{"; *c; ++c) *w++ = *c; long v = q->id_; char d[24]; int n = 0; do { d[n++] = '0' + v % 10; v /= 10; } while (v); while (n) *w++ = d[--n]; *w++ = '}'; for (int i = 0; i < dashes; ++i) *w++ = '\''; *w++ = ' ';
    return std::string(b, w - b);
  }
};
const char* const tex_names[] = {"\\alpha", " x ", "\\mathrm{potential\\ energy}", "y_{17}", "\\vec{\\varphi_{\\mathrm{left}}}", "T", "\\hat u", " \\frac{\\mathrm{d}}{\\mathrm{d} t} "};
// translators have no readable state: use them
void check_translator(OpCtx& o, Slot& s, int index) {
  static const int nitems = 40;
  P items[nitems]; int k = 0;
  for (std::map<long, std::string>::const_iterator it = s.names.var.begin(); it != s.names.var.end() && k < 6; ++it) if (it->first > 3) items[k++] = mk_var(it->first);
  for (std::map<std::pair<long, long>, std::string>::const_iterator it = s.names.fs.begin(); it != s.names.fs.end() && k < 12; ++it) if (it->first.first > 2) items[k++] = model::mk_fsym(it->first.first, it->first.second);
  for (int i = 0; i < 4; ++i) items[k++] = mk_var(i);
  for (int i = 0; i < 3; ++i) for (int t = 0; t < 2; ++t) items[k++] = model::mk_fsym(i, t);
  items[k++] = mk_const(1.5);
  items[k++] = mk_bin(model::B_MULT, mk_bin(model::B_PLUS, mk_var(0), mk_const(2)), mk_un(model::U_SIN, mk_var(1)));
  for (int i = 0; i < 4; ++i) if (s.names.probe[i] >= 0) items[k++] = model::mk_probe(i, 1, 1, 0);
  Ctx* c = sim::ctx(); bool fa = c->faulty; c->faulty = false;
  for (int i = 0; i < k; ++i) {
    std::string want = model::latex(items[i], false, s.names), got; unsigned ex = 0; StrBox box;
    LE* e; { ModeGuard g(sim::SETUP); e = new LE(build_node(items[i])); }
    c->steps = 0;
    try { c->mode = sim::LIB; new (box.mem) std::string(obj<LT>(s)(*e)); box.live = true; c->mode = sim::OFF; } catch (...) { c->mode = sim::OFF; ex = classify_and_check(); }
    { ModeGuard g(sim::SETUP); delete e; }
    if (box.live) got = box.text();
    if (ex || got != want) { bad_result(o, "wrong-names", "translator T%d renders %s as \"%s\" (%s) instead of \"%s\"", index, show2(items[i]).c_str(), got.c_str(), ex ? model::ex_names(ex).c_str() : "no exception", want.c_str()); break; }
  }
  c->steps = 0; c->faulty = fa;
}
void check_translators(OpCtx& o) { if (!o.w.threaded || true) for (int i = 0; i < NSLOT; ++i) if (o.w.s[S_T][i].p) check_translator(o, o.w.s[S_T][i], i); }
struct CheckT { OpCtx& o; void operator()(Outcome const&) const { if (o.attempts % 4 == 1) check_translators(o); } };
}
void x_T_NEW(OpCtx& o) {
  Op const& p = o.op; NEED(p.a < SCR);
  Res<LT> r;
  perform(o, [&] { new (r.mem()) LT(); }, [&] { commit(o, r.s, o.w.s[S_T][p.a]); check_translators(o); }, NoFail());
}
void x_T_COPY(OpCtx& o) {
  Op const& p = o.op; NEED(p.a < SCR);
  LIVE(LT, p.b); Slot& src = o.w.at(S_T, p.b); model::Names n = src.names;
  Res<LT> r;
  perform(o, [&] { new (r.mem()) LT(obj<LT>(src)); }, [&] {
    r.s.names = n;
    if ((p.d & 4) && p.b < SCR) destroy(o.w, src);
    commit(o, r.s, o.w.s[S_T][p.a]); check_translators(o);
  }, CheckT{o});
}
void x_T_ASSIGN(OpCtx& o) {
  Op const& p = o.op; NEED(p.a < SCR);
  LIVE(LT, p.b); LIVE(LT, p.a); Slot& src = o.w.at(S_T, p.b); Slot& dst = o.w.s[S_T][p.a]; model::Names n = src.names;
  perform(o, [&] { obj<LT>(dst) = obj<LT>(src); }, [&] {
    dst.names = n;
    if ((p.d & 4) && &src != &dst && p.b < SCR) destroy(o.w, src);
    check_translators(o);
  }, CheckT{o});
}
void x_T_CUSTOM(OpCtx& o) {
  Op const& p = o.op; NEED(p.a < SCR);
  LIVE(LT, p.a); Slot& dst = o.w.s[S_T][p.a];
  const char* text = tex_names[p.n[3] & 7]; bool fs = p.n[0] & 1;
  NEED(p.n[1] >= 0); P key = fs ? model::mk_fsym(p.n[1], p.n[2] & 1) : mk_var(p.n[1]);
  Slot& k = scratch(o, fs ? S_F : S_X, 0, key);
  perform(o, [&] { if (fs) obj<LT>(dst).customize(obj<LF>(k), text); else obj<LT>(dst).customize(obj<LX>(k), text); }, [&] {
    if (fs) dst.names.fs[std::make_pair(key->id, key->tag)] = text; else dst.names.var[key->id] = text;
    check_translators(o);
  }, CheckT{o});
}
void x_T_ADDPROC(OpCtx& o) {
  Op const& p = o.op; NEED(p.a < SCR);
  LIVE(LT, p.a); Slot& dst = o.w.s[S_T][p.a];
  long extra = p.n[0] > 0 && p.n[0] < 40 ? p.n[0] : 0;
  int kind = (int)(p.n[1] & 3), dashes = dst.names.probe[kind] >= 0 ? dst.names.probe[kind] : (int)(p.n[2] & 3);   // the same kind is always written in the same way
  perform(o, [&] { for (long i = o.attempts <= 2 ? extra : 0; i >= 0; --i) obj<LT>(dst).add_processor(new ProbeProc(kind, dashes)); }, [&] { dst.names.probe[kind] = (signed char)dashes; check_translators(o); }, CheckT{o});
}
void x_LATEX(OpCtx& o) {
  Op const& p = o.op; NEED(p.n[0] >= 0 && p.n[0] < 10);
  int t = print_types[p.n[0]]; NEED(t != S_V && t != S_CI);
  LIVE(LT, p.c); Slot& tr = o.w.at(S_T, p.c);
  Slot* s = print_source(o, t); NEED(s);
  NEED(model::latex_ok(s->m, tr.names) && (!s->m2 || model::latex_ok(s->m2, tr.names)));
  o.operand(s->m); o.operand(s->m2);
  bool par = p.n[1] & 1, defpar = (p.n[1] & 2) && !par;
  std::string want = t == S_Q ? model::latex(s->m, false, tr.names) + " = " + model::latex(s->m2, false, tr.names) : t == S_I ? model::latex_interval(s->m, s->m2, tr.names) : model::latex(s->m, par, tr.names);
  StrBox box;
  perform(o, [&] {
    LT const& x = obj<LT>(tr);
    if (box.live) { box.get().~basic_string(); box.live = false; }
#define L_(T) (defpar ? new (box.mem) std::string(x(obj<T>(*s))) : new (box.mem) std::string(x(obj<T>(*s), par)))
    switch (t) {
      case S_E: L_(LE); break; case S_U: L_(LU); break; case S_B: L_(LB); break; case S_X: L_(LX); break;
      case S_C: L_(LC); break; case S_F: L_(LF); break; case S_Q: L_(LQ); break; default: L_(LI); break;
    }
    box.live = true;
  }, [&] {
    std::string got = box.text(); o.digest(hash_str(got));
    if (got != want) bad_result(o, "wrong-text", "got \"%s\", expected \"%s\"", got.substr(0, 800).c_str(), want.substr(0, 800).c_str());
  }, NoFail());
}
