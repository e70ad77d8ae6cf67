// Simplification, differentiation, substitution, coordinate systems.
#include "lib_common.hpp"
#include <utility>

namespace {
typedef std::vector<P> PL;
using model::mk_const; using model::mk_var; using model::mk_fsym; using model::mk_bin; using model::mk_un; using model::mk_vec;

// the expression operand of an operation: n0 0 handle, 1 unary, 2 binary
int etype(long n) { return n == 1 ? S_U : n == 2 ? S_B : S_E; }

// what every simplified expression must satisfy
std::string check_simplified(OpCtx& o, Slot& s, P const& from, P const& act) {
  if (!act) return "the result is empty";
  std::string e = value_err(o, from, act, "the simplified expression has another value");
  if (!e.empty()) return e;
  if (model::can_simplify(act)) return "trivial operations remain in " + show2(act);
  // simplifying once more, without faults
  bool bad = false; P m; unsigned ex = 0;
  {
    Res<LE> r; Ctx* c = sim::ctx(); c->steps = 0; bool ok = false;
    try { c->mode = sim::LIB; new (r.mem()) LE(vm::simplify(obj<LE>(s))); c->mode = sim::OFF; ok = true; }
    catch (...) { c->mode = sim::OFF; ex = classify_and_check(); }
    if (ok) { m = walk_expr(r.get(), bad); if (!bad) destroy(o.w, r.s); else { r.s.p = 0; o.w.tainted = true; } }
  }
  if (ex) return "simplifying the result once more throws " + model::ex_names(ex);
  if (bad || !model::same(m, act)) return "simplifying the result once more gives " + (bad ? std::string("an unreadable object") : show2(m)) + " instead of " + show2(act);
  return std::string();
}
} // namespace

void x_SIMPLIFY(OpCtx& o) {
  int t = etype(o.op.n[0]);
  Slot& s = o.w.at(t, o.op.b); NEED(s.present() && s.m && !model::bad_shape(s.m)); P m = s.m; o.operand(m);
  NEED(o.op.a < SCR);
  Res<LE> r;
  perform(o, [&] {
    switch (t) { case S_E: new (r.mem()) LE(vm::simplify(obj<LE>(s))); break; case S_U: new (r.mem()) LE(vm::simplify(obj<LU>(s))); break; default: new (r.mem()) LE(vm::simplify(obj<LB>(s))); }
  }, [&] { finish_expr(o, r, [&](P const& act) { return check_simplified(o, r.s, m, act); }, o.op.b < SCR ? &s : 0); }, NoFail());
}
void x_INPLACE(OpCtx& o) {
  NEED(o.op.a < SCR);
  LIVE(LE, o.op.a);
  Slot& s = o.w.at(S_E, o.op.a); NEED(s.m && !model::bad_shape(s.m)); P m = s.m; o.operand(m);
  o.value_slot = &s;
  perform(o, [&] { vm::inplace_simplify(obj<LE>(s)); }, [&] {
    bool bad = false; std::string why; P act = walk_expr(obj<LE>(s), bad, &why);
    if (bad) { bad_result(o, "result-unreadable", "%s", why.c_str()); o.w.tainted = true; destroy(o.w, s); return; }
    o.value_slot = 0; s.m = act; o.digest(act ? act->hash : 0);
    std::string e = check_simplified(o, s, m, act);
    if (!e.empty()) bad_result(o, "wrong-result", "inplace_simplify: %s; result %s, argument %s", e.c_str(), show2(act).c_str(), show2(m).c_str());
  }, NoFail());
}

// ------------------------------------------------------------------ differentiation
namespace {
template <class F> void with_ctvar(long n, F f) { switch (n % 3) { case 0: f(vm::ct_variable<0>()); break; case 1: f(vm::ct_variable<1>()); break; default: f(vm::ct_variable<2>()); } }
template <class X, class = void> struct DiffVar { static void call(void*, X const&, X const&) { throw std::logic_error("this call does not compile"); } };
template <class X> struct DiffVar<X, decltype((void)vm::diff(std::declval<X const&>(), std::declval<X const&>()))> { static void call(void* mem, X const& a, X const& b) { new (mem) LE(vm::diff(a, b)); } };
template <class E> struct DiffCt { void* mem; E const& e; template <class V> void operator()(V const& v) const { new (mem) LE(vm::diff(e, v)); } };
template <class E> void diff_call(OpCtx& o, void* mem, E const& e, Slot& x, Slot& f) {
  switch (o.op.n[1]) {
    case 0: new (mem) LE(vm::diff(e, obj<LX>(x))); break;
    case 1: { DiffCt<E> d = {mem, e}; with_ctvar(o.op.n[2], d); break; }
    default: new (mem) LE(vm::diff(e, obj<LF>(f))); break;
  }
}
}
void x_DIFF(OpCtx& o) {
  Op const& p = o.op; NEED(p.a < SCR);
  P wrt = p.n[1] == 0 ? mk_var(p.n[2]) : p.n[1] == 1 ? mk_var(p.n[2] % 3) : mk_fsym(p.n[2], p.n[3]);
  Slot* src = 0; P m;
  switch (p.n[0]) {
    case 0: case 1: case 2: src = &o.w.at(etype(p.n[0]), p.b); NEED(src->present() && src->m && !model::bad_shape(src->m)); m = src->m; break;
    case 3: NEED(p.t[0] && p.t[0]->k == model::FSYM); m = p.t[0]; src = &scratch(o, S_F, 1, m); break;
    case 4: NEED(p.n[1] == 0); m = mk_const(p.x); break;
    case 5: NEED(p.n[1] == 0); m = mk_const(p.x); src = &scratch(o, S_C, 0, m); break;
    case 6: NEED(p.n[1] == 0 && p.n[3] >= 0); m = mk_var(p.n[3]); src = &scratch(o, S_X, 1, m); break;
    default: skip(o, "source"); return;
  }
  o.operand(m); o.operand(wrt);
  Slot& x = scratch(o, S_X, 0, mk_var(p.n[2])); Slot& f = scratch(o, S_F, 0, mk_fsym(p.n[1] == 2 ? p.n[2] : 0, p.n[1] == 2 ? p.n[3] : 0));
  P exp = p.n[0] == 3 && p.n[1] < 2 ? mk_un(model::U_PARTIAL, m, wrt->id) : model::diff(m, wrt);
  if (exp) NEED(!model::bad_shape(exp));
  if (!exp) { o.allow = model::X_NOTDIFF; o.must_throw = true; }
  Res<LE> r;
  perform(o, [&] {
    switch (p.n[0]) {
      case 0: diff_call(o, r.mem(), obj<LE>(*src), x, f); break;
      case 1: diff_call(o, r.mem(), obj<LU>(*src), x, f); break;
      case 2: diff_call(o, r.mem(), obj<LB>(*src), x, f); break;
      case 3: diff_call(o, r.mem(), obj<LF>(*src), x, f); break;
      case 4: new (r.mem()) LE(vm::diff(p.x, obj<LX>(x))); break;
      case 5: new (r.mem()) LE(vm::diff(obj<LC>(*src), obj<LX>(x))); break;
      default: DiffVar<LX>::call(r.mem(), obj<LX>(*src), obj<LX>(x)); break;
    }
  }, [&] { finish_expr(o, r, [&](P const& act) { if (!exp) return std::string(); return value_err(o, exp, act, "wrong derivative"); }, src && p.n[0] < 3 && p.b < SCR ? src : 0); }, NoFail());
}

// ------------------------------------------------------------------ substitution
namespace {
Slot* repl_slot(OpCtx& o, P const& r) {
  switch (r->k) {
    case model::CONST: return r->ct == model::C_INT ? &scratch(o, S_CI, 0, r) : r->ct == model::C_DOUBLE ? &scratch(o, S_C, 0, r) : (Slot*)0;
    case model::VAR: return &scratch(o, S_X, 0, r);
    case model::FSYM: return &scratch(o, S_F, 0, r);
    case model::UN: return &scratch(o, S_U, 0, r);
    case model::BIN: return &scratch(o, S_B, 0, r);
    case model::VEC: return &scratch(o, S_V, 0, r);
    default: return 0;
  }
}
template <class F> void with_repl(Slot& s, F f) {
  switch (s.type) {
    case S_C: f(obj<LC>(s)); break; case S_CI: f(obj<LCI>(s)); break; case S_X: f(obj<LX>(s)); break; case S_F: f(obj<LF>(s)); break;
    case S_U: f(obj<LU>(s)); break; case S_B: f(obj<LB>(s)); break; default: f(obj<LV>(s)); break;
  }
}
template <class S, class E> struct SubCall { void* mem; S const& s; E const& e; template <class T> void operator()(T const& t) const { new (mem) LE(vm::substitute(s, t, e)); } };
template <class S, class E> void sub_call(void* mem, S const& s, Slot& r, E const& e) { SubCall<S, E> c = {mem, s, e}; with_repl(r, c); }
std::string check_subst(OpCtx& o, P const& exp, P const& act, Slot& s) {
  if (!act) return "the result is empty";
  if (!model::can_simplify(exp)) { if (!model::same(exp, act)) return "expected " + show2(exp); return std::string(); }
  std::string e = value_err(o, exp, act, "wrong value after substitution");
  if (!e.empty()) return e;
  return std::string();
  (void)s;
}
}
void x_SUBST(OpCtx& o) {
  Op const& p = o.op; NEED(p.a < SCR && p.t[0]);
  int way = (int)p.n[0]; P se = p.t[0], re = p.t[1]; NEED(way == 1 || way >= 0);
  bool dbl = way == 2 || way == 3; if (dbl) re = mk_const(p.x);
  NEED(re);
  int et = way == 0 ? (p.n[1] == 1 ? S_U : S_B) : S_E;
  Slot& e = o.w.at(et, p.b); NEED(e.present() && e.m); P m = e.m;
  Slot* ss = 0; Slot* rs = 0;
  switch (way) {
    case 0: case 1: case 2: NEED(se->k == model::VAR); ss = &scratch(o, S_X, 1, se); break;
    case 3: case 4: NEED(se->k == model::FSYM); ss = &scratch(o, S_F, 1, se); break;
    case 5: case 6: NEED(se->k == model::UN); ss = &scratch(o, S_U, 1, se); break;
    case 7: NEED(se->k == model::BIN); ss = &scratch(o, S_B, 1, se); break;
    case 8: ss = &scratch(o, S_E, 1, se); break;
    default: skip(o, "way"); return;
  }
  if (way == 0 || way == 1 || way == 5 || way == 7) { rs = repl_slot(o, re); NEED(rs); }
  else if (!dbl) rs = &scratch(o, S_E, 2, re);
  P exp = model::subst(m, PL(1, se), PL(1, re));
  NEED(!model::bad_shape(exp) && exp->size < 400);
  o.operand(m); o.operand(se); o.operand(re);
  Res<LE> r;
  perform(o, [&] {
    void* q = r.mem();
    switch (way) {
      case 0: if (et == S_U) sub_call(q, obj<LX>(*ss), *rs, obj<LU>(e)); else sub_call(q, obj<LX>(*ss), *rs, obj<LB>(e)); break;
      case 1: sub_call(q, obj<LX>(*ss), *rs, obj<LE>(e)); break;
      case 2: new (q) LE(vm::substitute(obj<LX>(*ss), p.x, obj<LE>(e))); break;
      case 3: new (q) LE(vm::substitute(obj<LF>(*ss), p.x, obj<LE>(e))); break;
      case 4: new (q) LE(vm::substitute(obj<LF>(*ss), obj<LE>(*rs), obj<LE>(e))); break;
      case 5: sub_call(q, obj<LU>(*ss), *rs, obj<LE>(e)); break;
      case 6: new (q) LE(vm::substitute(obj<LU>(*ss), obj<LE>(*rs), obj<LE>(e))); break;
      case 7: sub_call(q, obj<LB>(*ss), *rs, obj<LE>(e)); break;
      default: new (q) LE(vm::substitute(obj<LE>(*ss), obj<LE>(*rs), obj<LE>(e))); break;
    }
  }, [&] { finish_expr(o, r, [&](P const& act) { return check_subst(o, exp, act, r.s); }, p.b < SCR ? &e : 0); }, NoFail());
}
void x_SUBSTN(OpCtx& o) {
  Op const& p = o.op; NEED(p.a < SCR && p.t[0] && p.t[1] && p.t[0]->k == model::VEC && p.t[1]->k == model::VEC && p.t[0]->c.size() == p.t[1]->c.size());
  Slot& e = o.w.at(S_E, p.b); NEED(e.present() && e.m); P m = e.m;
  PL se = p.t[0]->c, re = p.t[1]->c;
  P exp = model::subst(m, se, re);
  NEED(!model::bad_shape(exp) && exp->size < 400);
  Slot& ws = scratch(o, S_W, 0, P()); Slot& wr = scratch(o, S_W, 1, P());
  for (int k = 0; k < 2; ++k) {
    Slot& w = k ? wr : ws; PL const& l = k ? re : se;
    if (!w.list.empty()) continue;
    ModeGuard g(sim::SETUP);
    LW& v = obj<LW>(w);
    v.reserve(l.size());
    for (size_t i = 0; i < l.size(); ++i) { LE x(build_node(l[i])); v.push_back(x); }
    g.c->mode = sim::OFF;
    w.list = l;
  }
  o.operand(m); for (size_t i = 0; i < se.size(); ++i) { o.operand(se[i]); o.operand(re[i]); }
  Res<LE> r;
  perform(o, [&] { new (r.mem()) LE(vm::substitute(obj<LW>(ws), obj<LW>(wr), obj<LE>(e))); },
          [&] { finish_expr(o, r, [&](P const& act) { return check_subst(o, exp, act, r.s); }, p.b < SCR ? &e : 0); }, NoFail());
}

void x_SYMSUB(OpCtx& o) {
  Op const& p = o.op; NEED(p.a < SCR);
  Slot& e = o.w.at(S_E, p.b); NEED(e.present() && e.m);
  Slot& iv = o.w.at(S_I, p.c); NEED(iv.present() && iv.m && iv.m2);
  P m = e.m; o.operand(m); o.operand(iv.m); o.operand(iv.m2);
  bool ct = p.n[0] & 1; NEED(p.n[1] >= 0); long v = ct ? 1 : p.n[1];
  Slot& x = scratch(o, S_X, 0, mk_var(v));
  P exp = model::sym_to_rt(m, p.n[2], iv.m, iv.m2, v);
  NEED(exp->size < 500);
  Res<LE> r;
  perform(o, [&] {
    if (ct) new (r.mem()) LE(vm::substitute(vm::rt_symbolic_interval<IF>(p.n[2]), std::make_pair(obj<LI>(iv), vm::ct_variable<1>()), obj<LE>(e)));
    else new (r.mem()) LE(vm::substitute(vm::rt_symbolic_interval<IF>(p.n[2]), std::make_pair(obj<LI>(iv), obj<LX>(x)), obj<LE>(e)));
  }, [&] { finish_expr(o, r, [&](P const& act) { return model::same(exp, act) ? std::string() : "expected " + show2(exp); }, p.b < SCR ? &e : 0); }, NoFail());
}

// ------------------------------------------------------------------ coordinate systems
namespace {
P coord_expected(P const& t, long dim) {
  P u = mk_fsym(0, 0), v = mk_fsym(0, 1); P r = t;
  for (int step = 0; step < 4; ++step) {
    P f = step & 1 ? v : u; P repl;
    std::vector<P> d; for (long i = 0; i < dim; ++i) d.push_back(mk_un(model::U_PARTIAL, f, i));
    if (step < 2) repl = dim == 1 ? d[0] : mk_vec(d);
    else { repl = d[0]; for (long i = 1; i < dim; ++i) repl = mk_bin(model::B_PLUS, repl, d[i]); }
    r = model::subst(r, PL(1, mk_un(step < 2 ? model::U_GRAD : model::U_DIV, f)), PL(1, repl));
  }
  return r;
}
bool is_uv_op(P const& t) { return t->k == model::UN && (t->op == model::U_GRAD || t->op == model::U_DIV) && t->c[0]->k == model::FSYM && t->c[0]->id == 0 && t->c[0]->tag <= 1; }
bool is_other_op(P const& t) { return t->k == model::UN && (t->op == model::U_GRAD || t->op == model::U_DIV); }
// operators below a node that cannot be simplified further stay comparable as a structure
std::string check_coord(OpCtx& o, P const& exp, P const& act) {
  if (!act) return "the result is empty";
  // (an operator applied to something that simplifies to the unknown may stay)
  if (model::contains(act, is_uv_op) && !model::contains(exp, is_other_op)) return "a gradient or divergence of the unknown or the test function is left";
  if (!model::can_simplify(exp)) return model::same(exp, act) ? std::string() : "expected " + show2(exp);
  return value_err(o, exp, act, "wrong value");
}
template <class E> void coord_call(void* mem, long dim, E const& e) {
  switch (dim) {
    case 1: new (mem) LE(vm::apply_coordinate_system(vm::cartesian<1>(), e)); break;
    case 2: new (mem) LE(vm::apply_coordinate_system(vm::cartesian<2>(), e)); break;
    default: new (mem) LE(vm::apply_coordinate_system(vm::cartesian<3>(), e)); break;
  }
}
}
void x_COORD(OpCtx& o) {
  Op const& p = o.op; NEED(p.a < SCR && p.n[0] >= 1 && p.n[0] <= 3);
  Slot& e = o.w.at(etype(p.n[1]), p.b); NEED(e.present() && e.m); P m = e.m; o.operand(m); o.dim = (int)p.n[0];
  P exp = coord_expected(m, o.dim); NEED(!model::bad_shape(exp) && exp->size < 500);
  Res<LE> r;
  perform(o, [&] { switch (e.type) { case S_E: coord_call(r.mem(), o.dim, obj<LE>(e)); break; case S_U: coord_call(r.mem(), o.dim, obj<LU>(e)); break; default: coord_call(r.mem(), o.dim, obj<LB>(e)); } },
          [&] { finish_expr(o, r, [&](P const& act) { return check_coord(o, exp, act); }, p.b < SCR ? &e : 0); }, NoFail());
}
void x_COORDQ(OpCtx& o) {
  Op const& p = o.op; NEED(p.a < SCR && p.n[0] >= 1 && p.n[0] <= 3);
  Slot& q = o.w.at(S_Q, p.b); NEED(q.present() && q.m && q.m2); o.operand(q.m); o.operand(q.m2); o.dim = (int)p.n[0];
  P e1 = coord_expected(q.m, o.dim), e2 = coord_expected(q.m2, o.dim); NEED(!model::bad_shape(e1) && !model::bad_shape(e2));
  Res<LQ> r;
  perform(o, [&] {
    switch (o.dim) {
      case 1: new (r.mem()) LQ(vm::apply_coordinate_system(vm::cartesian<1>(), obj<LQ>(q))); break;
      case 2: new (r.mem()) LQ(vm::apply_coordinate_system(vm::cartesian<2>(), obj<LQ>(q))); break;
      default: new (r.mem()) LQ(vm::apply_coordinate_system(vm::cartesian<3>(), obj<LQ>(q))); break;
    }
  }, [&] {
    P a, b; PL l; std::string why;
    if (!read_slot(r.s, a, b, l, why)) { bad_result(o, "result-unreadable", "%s", why.c_str()); r.s.p = 0; o.w.tainted = true; return; }
    std::string err = check_coord(o, e1, a); if (err.empty()) { err = check_coord(o, e2, b); if (!err.empty()) err = "right hand side: " + err; } else err = "left hand side: " + err;
    if (!err.empty()) bad_result(o, "wrong-result", "%s; result %s = %s", err.c_str(), show2(a).c_str(), show2(b).c_str());
    o.digest(a ? a->hash : 0); o.digest(b ? b->hash : 0);
    r.s.m = a; r.s.m2 = b;
    if ((p.d & 3) == 1) drop_result(o, r.s); else commit(o, r.s, o.w.s[S_Q][p.a]);
  }, NoFail());
}
