// Operators, functions, integrals, vectors, equations and intervals built from every kind of operand.
#include "lib_con.hpp"
#include "lib_point.hpp"

namespace {
typedef std::vector<P> PL;
using model::mk_const; using model::mk_var; using model::mk_fsym; using model::mk_un; using model::mk_bin; using model::mk_vec;

// operand of kind k; numbers and constants come from x, identifiers from salt. Returns null if there is none.
P con_arg(OpCtx& o, int k, int slot, double x, long salt, int side, ConArg& a) {
  memset(&a, 0, sizeof a); a.d = x; const long big = salt >> (side ? 6 : 12); a.l = (long)std::floor(x);
  P m;
  switch (k) {
    case K_D: return mk_const(a.d);
    case K_L: return mk_const((double)a.l, model::C_LONG);
    case K_C: m = mk_const(x); a.c = &obj<LC>(scratch(o, S_C, side, m)); return m;
    case K_CI: m = mk_const((double)(int)a.l, model::C_INT); a.ci = &obj<LCI>(scratch(o, S_CI, side, m)); return m;
    case K_CT0: return mk_const(0);
    case K_CT3: return mk_const(3);
    case K_CTM: return mk_const(-3000000007.0);
    case K_X: m = mk_var(big ? model::big_id(big + side) : salt & 3); a.x = &obj<LX>(scratch(o, S_X, side, m)); return m;
    case K_CV0: return mk_var(0);
    case K_CV1: return mk_var(1);
    case K_F: m = mk_fsym(big ? model::big_id(big + 2 * side) : (salt >> 2) & 3, (salt >> 4) & 1); a.f = &obj<LF>(scratch(o, S_F, side, m)); return m;
    case K_XP: return mk_bin(model::B_PLUS, mk_var(0), mk_const(2));
    case K_PX: return mk_bin(model::B_PLUS, mk_const(3), mk_var(0));
    case K_PM: return mk_bin(model::B_MINUS, mk_const(4), mk_var(1));
    case K_XY: return mk_bin(model::B_MULT, mk_var(0), mk_var(1));
  }
  int t = k == K_U ? S_U : k == K_B ? S_B : S_E;
  Slot& s = o.w.at(t, slot);
  if (!s.present() || !s.m || s.m->size > 60) return P();
  if (k == K_U) a.u = &obj<LU>(s); else if (k == K_B) a.b = &obj<LB>(s); else a.e = &obj<LE>(s);
  return s.m;
}

} // namespace
void chain(OpCtx& o);

// b, c: slots of the operands; n0, n1: kinds; n2: operator; n3: identifiers; n0 == 99: chain n2
void x_CONSTRUCT(OpCtx& o) {
  NEED(o.op.a < SCR);
  if (o.op.n[0] == 99) { chain(o); return; }
  int k1 = (int)o.op.n[0], k2 = (int)o.op.n[1], op = (int)(o.op.n[2] & 3);
  NEED(k1 >= 0 && k1 < K_COUNT && k2 >= 0 && k2 < K_COUNT && !(k1 <= K_L && k2 <= K_L));
  ConArg a, b;
  P m1 = con_arg(o, k1, o.op.b, o.op.x, o.op.n[3], 0, a); NEED(m1);
  P m2 = con_arg(o, k2, o.op.c, o.op.x * 0.5 + 1.25, o.op.n[3] >> 6, 1, b); NEED(m2);
  P m = mk_bin(op, m1, m2); o.operand(m); NEED(!model::bad_shape(m));
  Point pt((uint64_t)o.op.n[3]);
  Res<LE> r; ConRes cr; cr.mem = r.mem(); cr.number = false; cr.value = 0; cr.point = pt.v;
  ConFn f = con1(k1); if (!f) f = con2(k1); if (!f) f = con3(k1); if (!f) f = con4(k1); if (!f) f = con5(k1); if (!f) f = con6(k1); NEED(f);
  Slot* kill = k1 == K_E ? &o.w.at(S_E, o.op.b) : k1 == K_U ? &o.w.at(S_U, o.op.b) : k1 == K_B ? &o.w.at(S_B, o.op.b) : 0;
  if (o.op.b >= SCR) kill = 0;
  perform(o, [&] { f(k2, op, a, b, cr); }, [&] {
    if (cr.number) { check_number(o, m, pt.env, cr.value); return; }
    finish_expr(o, r, [&](P const& act) { return value_err(o, m, act, "the expression does not mean what was written"); }, kill);
  }, NoFail());
}

// ---- functions
namespace {
#define FN1(NAME, U) \
  struct Fn_##NAME { enum { uop = model::U }; template <class T> static void call(void* mem, T const& t) { new (mem) LE(vm::NAME(t)); } };
FN1(exp, U_EXP) FN1(sin, U_SIN) FN1(cos, U_COS) FN1(tan, U_TAN) FN1(fabs, U_FABS) FN1(sqrt, U_SQRT) FN1(log, U_LOG) FN1(log10, U_LOG10)
template <class F, int K> struct CanFn { enum { value = !(K == K_D || K == K_L || K == K_CT0 || K == K_CT3 || K == K_CTM || K == K_F) }; };
template <> struct CanFn<Fn_exp, K_U> { enum { value = 0 }; };   // does not compile in the library
template <class F, int K> void fn_call(void* mem, ConArg const& a) { if constexpr ((bool)CanFn<F, K>::value) F::call(mem, Con<K>::get(a)); }
template <class F> bool fn_can(int k) { return !(k == K_D || k == K_L || k == K_CT0 || k == K_CT3 || k == K_CTM || k == K_F) && !(F::uop == model::U_EXP && k == K_U); }
template <class F> void fn_kind(int k, void* mem, ConArg const& a) {
#define C(K) case K: fn_call<F, K>(mem, a); break;
  switch (k) { C(K_C) C(K_CI) C(K_X) C(K_CV0) C(K_CV1) C(K_U) C(K_B) C(K_E) C(K_XP) C(K_PX) C(K_PM) C(K_XY) }
#undef C
}
typedef void (*FnKind)(int, void*, ConArg const&);
const FnKind fn_kinds[] = {&fn_kind<Fn_exp>, &fn_kind<Fn_sin>, &fn_kind<Fn_cos>, &fn_kind<Fn_tan>, &fn_kind<Fn_fabs>, &fn_kind<Fn_sqrt>, &fn_kind<Fn_log>, &fn_kind<Fn_log10>};
const int fn_ops[] = {model::U_EXP, model::U_SIN, model::U_COS, model::U_TAN, model::U_FABS, model::U_SQRT, model::U_LOG, model::U_LOG10};
} // namespace

// n0: function (0-7 elementary, 8 grad, 9 div, 10 laplace), n1: kind of the argument (b: slot)
void x_FUNC(OpCtx& o) {
  NEED(o.op.a < SCR);
  int f = (int)o.op.n[0], k = (int)o.op.n[1]; NEED(f >= 0 && f <= 10 && k >= 0 && k < K_COUNT);
  if (f < 8) { NEED(k != K_D && k != K_L && k != K_CT0 && k != K_CT3 && k != K_CTM && k != K_F); NEED(!(f == 0 && k == K_U)); }
  else if (f == 8) NEED(k == K_F || k == K_U);
  else if (f == 9) NEED(k == K_F || k == K_U || k == K_B || k == K_E);
  else NEED(k == K_F);
  ConArg a; P arg = con_arg(o, k, o.op.b, o.op.x, o.op.n[3], 0, a); NEED(arg);
  P m = f < 8 ? mk_un(fn_ops[f], arg) : f == 8 ? mk_un(model::U_GRAD, arg) : f == 9 ? mk_un(model::U_DIV, arg) : mk_un(model::U_DIV, mk_un(model::U_GRAD, arg));
  NEED(!model::bad_shape(m)); o.operand(m);
  Res<LE> r;
  Slot* kill = o.op.b >= SCR ? 0 : k == K_E ? &o.w.at(S_E, o.op.b) : k == K_U ? &o.w.at(S_U, o.op.b) : k == K_B ? &o.w.at(S_B, o.op.b) : 0;
  perform(o, [&] {
    if (f < 8) fn_kinds[f](k, r.mem(), a);
    else if (f == 8) { if (k == K_F) new (r.mem()) LE(vm::grad(*a.f)); else new (r.mem()) LE(vm::grad(*a.u)); }
    else if (f == 9) switch (k) { case K_F: new (r.mem()) LE(vm::div(*a.f)); break; case K_U: new (r.mem()) LE(vm::div(*a.u)); break; case K_B: new (r.mem()) LE(vm::div(*a.b)); break; default: new (r.mem()) LE(vm::div(*a.e)); }
    else new (r.mem()) LE(vm::laplace(*a.f));
  }, [&] {
    finish_expr(o, r, [&](P const& act) {
      if (act && (act->k != model::UN || act->op != m->op)) return std::string("the result is not an application of the function");
      return value_err(o, m, act, "the expression does not mean what was written"); }, kill);
  }, NoFail());
}

// ---- intervals and equations
namespace {
// columns in the order of ConKind; pairs of two compile-time operands make compile-time objects, a few others do not compile in the library
constexpr const char* mk_ok[2][K_COUNT] = {
  {"1111111111.111....", "1111111111.111....", "111111111111111111", "111111111111111111", "1111...1..1111....", "1111...1..1111....", "1111...1..1111....", "111111111111111111", "11................", "11................",
   "111111111111111111", "111111111111111111", "111111111111111111", "111111111111111111", "..11...1..1111....", "..11...1..1111....", "..11...1..1111....", "..11...1..1111...."},
  {"..11...111.111....", "..11...111.111....", "111111111111111111", "111111111111111111", "1111...1..1111....", "1111...1..1111....", "1111...1..1111....", "111111111111111111", "1111...1..1111....", "1111...1..1111....",
   "111111111111111111", "111111111111111111", "111111111111111111", "111111111111111111", "1111...1..1111....", "1111...1..1111....", "1111...1..1111....", "1111...1..1111...."}};
template <class X, class Y, class = void> struct CanInterval { enum { value = 0 }; };
template <class X, class Y> struct CanInterval<X, Y, decltype((void)vm::make_interval(std::declval<X>(), std::declval<Y>()))> { enum { value = 1 }; };
template <class X, class Y, class = void> struct CanEquation { enum { value = 0 }; };
template <class X, class Y> struct CanEquation<X, Y, decltype((void)vm::make_equation(std::declval<X>(), std::declval<Y>()))> { enum { value = 1 }; };
template <int W, int A, int B> void mk_pair(void* mem, ConArg const& x, ConArg const& y) {
  if constexpr (mk_ok[W][A][B] == '1') {
    typedef typename Con<A>::type const& X; typedef typename Con<B>::type const& Y;
    if constexpr (!(W ? (bool)CanEquation<X, Y>::value : (bool)CanInterval<X, Y>::value)) throw std::logic_error("this call does not compile");
    else if constexpr (W == 0) new (mem) LI(vm::make_interval(Con<A>::get(x), Con<B>::get(y)));
    else new (mem) LQ(vm::make_equation(Con<A>::get(x), Con<B>::get(y)));
  }
}
template <int W, int A> void mk_lhs(int k, void* mem, ConArg const& x, ConArg const& y) {
#define C(B) case B: mk_pair<W, A, B>(mem, x, y); break;
  switch (k) { C(K_D) C(K_L) C(K_C) C(K_CI) C(K_CT0) C(K_CT3) C(K_CTM) C(K_X) C(K_CV0) C(K_CV1) C(K_F) C(K_U) C(K_B) C(K_E) C(K_XP) C(K_PX) C(K_PM) C(K_XY) }
#undef C
}
template <int W> void mk_any(int k1, int k2, void* mem, ConArg const& x, ConArg const& y) {
#define C(A) case A: mk_lhs<W, A>(k2, mem, x, y); break;
  switch (k1) { C(K_D) C(K_L) C(K_C) C(K_CI) C(K_CT0) C(K_CT3) C(K_CTM) C(K_X) C(K_CV0) C(K_CV1) C(K_F) C(K_U) C(K_B) C(K_E) C(K_XP) C(K_PX) C(K_PM) C(K_XY) }
#undef C
}
template <class T> void make_pair_op(OpCtx& o, int w) {
  int k1 = (int)o.op.n[0], k2 = (int)o.op.n[1]; NEED(k1 >= 0 && k1 < K_COUNT && k2 >= 0 && k2 < K_COUNT && mk_ok[w][k1][k2] == '1');
  ConArg a, b;
  P m1 = con_arg(o, k1, o.op.b, o.op.x, o.op.n[3], 0, a); NEED(m1);
  P m2 = con_arg(o, k2, o.op.c, o.op.x * 0.5 + 1.25, o.op.n[3] >> 6, 1, b); NEED(m2);
  o.operand(m1); o.operand(m2);
  Res<T> r;
  perform(o, [&] { if (w) mk_any<1>(k1, k2, r.mem(), a, b); else mk_any<0>(k1, k2, r.mem(), a, b); }, [&] {
    P x, y; PL l; std::string why;
    if (!read_slot(r.s, x, y, l, why)) { bad_result(o, "result-unreadable", "%s", why.c_str()); r.s.p = 0; o.w.tainted = true; return; }
    std::string e = value_err(o, m1, x, "the left part does not mean what was written"); if (e.empty()) e = value_err(o, m2, y, "the right part does not mean what was written");
    if (!e.empty()) bad_result(o, "wrong-result", "%s", e.c_str());
    r.s.m = x; r.s.m2 = y; o.digest(x ? x->hash : 0); o.digest(y ? y->hash : 0);
    if ((o.op.d & 3) == 1 || !x || !y) drop_result(o, r.s); else commit(o, r.s, o.w.s[TypeOf<T>::v][o.op.a]);
  }, NoFail());
}
} // namespace
void x_MAKE(OpCtx& o) { NEED(o.op.a < SCR); if (o.op.n[2] & 1) make_pair_op<LQ>(o, 1); else make_pair_op<LI>(o, 0); }

// ---- integrals. n0: 0 (interval, E, rt_variable) 1 (interval, E, ct_variable<1>) 2 (interval, B, ct_variable<0>) 3.. symbolic interval n2 and 3 E, 4 B, 5 U, 6 constant, 7 variable, 8 function symbol
void x_INTEGRAL(OpCtx& o) {
  NEED(o.op.a < SCR);
  int way = (int)o.op.n[0]; NEED(way >= 0 && way <= 8);
  static const int kinds[] = {K_E, K_E, K_B, K_E, K_B, K_U, K_C, K_X, K_F};
  ConArg a; P f = con_arg(o, kinds[way], o.op.b, o.op.x, o.op.n[3], 0, a); NEED(f);
  NEED(o.op.n[1] >= 0 && o.op.n[2] >= 0); long var = way == 0 ? o.op.n[1] : way == 1 ? 1 : 0, id = o.op.n[2];
  Slot* iv = 0; P m;
  if (way < 3) { iv = &o.w.at(S_I, o.op.c); NEED(iv->present() && iv->m && iv->m2); m = mk_un(model::U_INT, f, var, iv->m, iv->m2); }
  else m = mk_un(model::U_SYMINT, f, id);
  NEED(!model::bad_shape(m)); o.operand(m);
  Slot& xs = scratch(o, S_X, 2, mk_var(var));
  Res<LE> r;
  perform(o, [&] {
    vm::rt_symbolic_interval<IF> sy((vm::id_type)id);
    switch (way) {
      case 0: new (r.mem()) LE(vm::integral(obj<LI>(*iv), *a.e, obj<LX>(xs))); break;
      case 1: new (r.mem()) LE(vm::integral(obj<LI>(*iv), *a.e, vm::ct_variable<1>())); break;
      case 2: new (r.mem()) LE(vm::integral(obj<LI>(*iv), *a.b, vm::ct_variable<0>())); break;
      case 3: new (r.mem()) LE(vm::integral(sy, *a.e)); break;
      case 4: new (r.mem()) LE(vm::integral(sy, *a.b)); break;
      case 5: new (r.mem()) LE(vm::integral(sy, *a.u)); break;
      case 6: new (r.mem()) LE(vm::integral(sy, *a.c)); break;
      case 7: new (r.mem()) LE(vm::integral(sy, *a.x)); break;
      default: new (r.mem()) LE(vm::integral(sy, *a.f)); break;
    }
  }, [&] {
    finish_expr(o, r, [&](P const& act) { return model::same(m, act) ? std::string() : "expected " + show2(m); }, o.op.b < SCR && kinds[way] == K_E ? &o.w.at(S_E, o.op.b) : 0);
  }, NoFail());
}

// ---- vectors
void x_VECOP(OpCtx& o) {
  NEED(o.op.a < SCR);
  int way = (int)o.op.n[0]; NEED(way >= 0 && way <= 16);
  LIVE(LV, o.op.b);
  Slot& v = o.w.at(S_V, o.op.b); P a = v.m; size_t n = a->c.size(); NEED(n > 0 && !model::bad_shape(a) && a->size < 80);
  Slot* w = 0; P s; double x = o.op.x;
  if (way <= 2) { w = &o.w.at(S_V, o.op.c); NEED(w->present() && w->m->c.size() == n && !model::bad_shape(w->m) && w->m->size < 80); s = w->m; }
  else if (way <= 6) { w = &o.w.at(S_E, o.op.c); NEED(w->present() && w->m && w->m->size < 40 && w->m->k != model::VEC); s = w->m; }
  else if (way <= 10) s = mk_const(x);
  else if (way <= 13) { NEED(o.op.n[1] >= 0); s = mk_var(o.op.n[1]); w = &scratch(o, S_X, 0, s); }
  else { s = mk_const(x); w = &scratch(o, S_C, 0, s); }
  o.operand(a); o.operand(s);
  // the elements of the result
  PL e; P dot;
  for (size_t i = 0; i < n; ++i) {
    P ai = a->c[i], si = way <= 2 ? s->c[i] : s;
    switch (way) {
      case 0: e.push_back(mk_bin(model::B_PLUS, ai, si)); break;
      case 1: e.push_back(mk_bin(model::B_MINUS, ai, si)); break;
      case 2: { P t = mk_bin(model::B_MULT, ai, si); dot = dot ? mk_bin(model::B_PLUS, dot, t) : t; break; }
      case 3: case 7: case 11: case 14: e.push_back(mk_bin(model::B_MULT, ai, si)); break;
      case 4: case 8: case 12: case 15: e.push_back(mk_bin(model::B_MULT, si, ai)); break;
      case 5: case 9: case 13: case 16: e.push_back(mk_bin(model::B_DIV, ai, si)); break;
      default: e.push_back(mk_bin(model::B_DIV, si, ai)); break;
    }
  }
  if (way == 2) {
    NEED(!model::bad_shape(dot));
    Res<LE> r;
    perform(o, [&] { new (r.mem()) LE(obj<LV>(v) * obj<LV>(*w)); }, [&] { finish_expr(o, r, [&](P const& act) { return value_err(o, dot, act, "wrong inner product"); }); }, NoFail());
    return;
  }
  for (size_t i = 0; i < n; ++i) NEED(!model::bad_shape(e[i]));
  Res<LV> r;
  perform(o, [&] {
    LV const& q = obj<LV>(v); void* m = r.mem();
    switch (way) {
      case 0: new (m) LV(q + obj<LV>(*w)); break;
      case 1: new (m) LV(q - obj<LV>(*w)); break;
      case 3: new (m) LV(q * obj<LE>(*w)); break;
      case 4: new (m) LV(obj<LE>(*w) * q); break;
      case 5: new (m) LV(q / obj<LE>(*w)); break;
      case 6: new (m) LV(obj<LE>(*w) / q); break;
      case 7: new (m) LV(q * x); break;
      case 8: new (m) LV(x * q); break;
      case 9: new (m) LV(q / x); break;
      case 10: new (m) LV(x / q); break;
      case 11: new (m) LV(q * obj<LX>(*w)); break;
      case 12: new (m) LV(obj<LX>(*w) * q); break;
      case 13: new (m) LV(q / obj<LX>(*w)); break;
      case 14: new (m) LV(q * obj<LC>(*w)); break;
      case 15: new (m) LV(obj<LC>(*w) * q); break;
      default: new (m) LV(q / obj<LC>(*w)); break;
    }
  }, [&] {
    P act, y; PL l; std::string why;
    if (!read_slot(r.s, act, y, l, why)) { bad_result(o, "result-unreadable", "%s", why.c_str()); r.s.p = 0; o.w.tainted = true; return; }
    std::string err;
    if (act->c.size() != n) err = "wrong number of elements";
    for (size_t i = 0; i < n && err.empty(); ++i) err = value_err(o, e[i], act->c[i], "an element does not mean what was written");
    if (!err.empty()) bad_result(o, "wrong-result", "%s; result %s", err.c_str(), show2(act).c_str());
    r.s.m = act; o.digest(act->hash);
    if ((o.op.d & 3) == 1 || act->size > 120) drop_result(o, r.s); else commit(o, r.s, o.w.s[S_V][o.op.a]);
  }, NoFail());
}
