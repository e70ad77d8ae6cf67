// Evaluation of compile-time expressions at points that are only known at run time (and at compile-time points).
#include "lib_common.hpp"
#ifdef SIM_STUB   // see check.py: the overloads of this file do not compile
void eval_ct(OpCtx& o) { skip(o, "stub"); }
#else

namespace {
using model::mk_const; using model::mk_var; using model::mk_bin; using model::mk_un;
const vm::ct_variable<0> X; const vm::ct_variable<1> Y; const vm::ct_variable<2> Z; const vm::ct_variable<5> W;
const vm::ct_constant<2> c2; const vm::ct_constant<3> c3; const vm::ct_constant<-5> m5; const vm::ct_constant<0> c0; const vm::ct_constant<5000000001L> cg; const vm::ct_constant<-3000000007L> cn;
P num(double v) { return mk_const(v); }
P operator+(P const& a, P const& b) { return mk_bin(model::B_PLUS, a, b); }
P operator-(P const& a, P const& b) { return mk_bin(model::B_MINUS, a, b); }
P operator*(P const& a, P const& b) { return mk_bin(model::B_MULT, a, b); }
P operator/(P const& a, P const& b) { return mk_bin(model::B_DIV, a, b); }

// at points beyond the range of int: no products of entries, which would not fit a long
template <class E> struct Lin { enum { value = 0 }; };
template <vm::id_type i> struct Lin<vm::ct_variable<i> > { enum { value = 1 }; };
template <long v> struct Lin<vm::ct_constant<v> > { enum { value = 1 }; };
template <class L, class N, class R> struct Lin<vm::ct_binary_expr<L, vm::op_plus<N>, R> > { enum { value = Lin<L>::value && Lin<R>::value }; };
template <class L, class N, class R> struct Lin<vm::ct_binary_expr<L, vm::op_minus<N>, R> > { enum { value = Lin<L>::value && Lin<R>::value }; };
template <long v, class N, class R> struct Lin<vm::ct_binary_expr<vm::ct_constant<v>, vm::op_mult<N>, R> > { enum { value = v < 10 && v > -10 && Lin<R>::value }; };
// expression, model, largest variable identifier
#define CTX(Q) \
  Q(cg * X, num(5000000001.) * x, 0) Q(X - cn, x - num(-3000000007.), 0) Q(cn / Y, num(-3000000007.) / y, 1) Q((X + cg) * (c3 - Y), (x + num(5000000001.)) * (num(3) - y), 1) Q(cg, num(5000000001.), 0) Q(m5, num(-5), 0) \
  Q(X, x, 0) Q(Y, y, 1) Q(Z, z, 2) Q(W, w, 5) Q(X + Y, x + y, 1) Q(X - Y, x - y, 1) Q(X * Y, x * y, 1) Q(X / Y, x / y, 1) Q(Y - X, y - x, 1) Q(Z / X, z / x, 2) \
  Q(c2 * X, num(2) * x, 0) Q(X * c3, x * num(3), 0) Q(X - c3, x - num(3), 0) Q(c3 - X, num(3) - x, 0) Q(X / c2, x / num(2), 0) Q(c2 / X, num(2) / x, 0) Q(X + m5, x + num(-5), 0) Q(m5 - Z, num(-5) - z, 2) \
  Q((X * Y - c3) / (Y + c2), (x * y - num(3)) / (y + num(2)), 1) Q((X + Y) * (X - Z), (x + y) * (x - z), 2) Q(X * X * X, x * x * x, 0) Q(X - (Y - Z), x - (y - z), 2) Q(X / (Y / Z), x / (y / z), 2) Q((X - Y) - Z, (x - y) - z, 2) \
  Q((X + c2) * (Y - c3) * Z, (x + num(2)) * (y - num(3)) * z, 2) Q(W + X, w + x, 5) Q(X * W - Y, x * w - y, 5) Q((c2 * X + c3 * Y) - (c3 * X - c2 * Y), (num(2) * x + num(3) * y) - (num(3) * x - num(2) * y), 1) \
  Q((c3 + c2) * X, num(5) * x, 0) Q((c3 - c2) * X, num(1) * x, 0) Q((c3 * c2) / X, num(6) / x, 0) Q((c2 - c3) - X, num(-1) - x, 0) Q(X + (c3 - c2) * Y, x + num(1) * y, 1) Q(c0 * X + Y, num(0) * x + y, 1) Q(X + c0, x + num(0), 0) Q(c0 - X, num(0) - x, 0) Q(X - c0, x - num(0), 0)
enum { N_CTX = 0
#define Q(L, M, V) +1
  CTX(Q)
#undef Q
};
P ct_model(long which, int& maxvar, bool& lin) {
  P x = mk_var(0), y = mk_var(1), z = mk_var(2), w = mk_var(5); P m; maxvar = 0;
  switch (which) {
#define Q(L, M, V) case __COUNTER__ - base1 - 1: m = M; maxvar = V; lin = Lin<std::decay<decltype(L)>::type>::value; break;
    enum { base1 = __COUNTER__ };
    CTX(Q)
#undef Q
  }
  return m;
}
struct UserVec { const double* p; size_t n; size_t size() const { return n; } double operator[](size_t i) const { ModeGuard g(sim::CHECK); return p[i]; } };

// points and expressions that outlive the call that made them
template <class A> __attribute__((noinline)) auto kept1(A a) { A b = a; return vm::make_vector(b); }
template <class A, class B> __attribute__((noinline)) auto kept2(A a, B b) { A c = a; B d = b; return vm::make_vector(c, d); }
template <class A, class B, class C> __attribute__((noinline)) auto kept3(A a, B b, C c) { A d = a; B e = b; C f = c; return vm::make_vector(d, e, f); }
template <int V, class E> double at_point(E const& e, int variant, std::vector<double> const& v, double s) {
  switch (variant) {
    case 0: return e(v);
    case 1: return vm::eval(e, v);
    case 2: { UserVec u; u.p = v.empty() ? 0 : &v[0]; u.n = v.size(); return e(u); }
    case 3: { UserVec u; u.p = v.empty() ? 0 : &v[0]; u.n = v.size(); return vm::eval(e, u); }
    case 4: if constexpr (V == 0) return (double)e(vm::make_vector(v[0])); else return 0;
    case 5: if constexpr (V <= 1) return (double)e(vm::make_vector(v[0], v[1])); else return 0;
    case 6: if constexpr (V <= 2) return (double)e(vm::make_vector(v[0], v[1], v[2])); else return 0;
    case 7: if constexpr (V <= 2) return (double)vm::eval(e, vm::make_vector(v[0], v[1], v[2])); else return 0;
    case 8: if constexpr (V <= 2) return (double)vm::eval(e, vm::make_vector(vm::ct_constant<4>(), vm::ct_constant<-3>(), vm::ct_constant<7>())); else return 0;
    case 9: if constexpr (V <= 2) return (double)e(vm::make_vector(vm::ct_constant<4>(), vm::ct_constant<-3>(), vm::ct_constant<7>())); else return 0;
    case 14: if constexpr (V <= 2 && Lin<E>::value) return (double)vm::eval(e, vm::make_vector(vm::ct_constant<5000000001L>(), vm::ct_constant<7>(), vm::ct_constant<-3000000007L>())); else return 0;
    case 15: if constexpr (V <= 2 && Lin<E>::value) return (double)e(vm::make_vector(vm::ct_constant<5000000001L>(), vm::ct_constant<7>(), vm::ct_constant<-3000000007L>())); else return 0;
    case 11: if constexpr (V == 0) { auto p = kept1(v[0]); scribble(); return (double)e(p); } else return 0;
    case 12: if constexpr (V <= 1) { auto p = kept2(v[0], v[1]); scribble(); return (double)vm::eval(e, p); } else return 0;
    case 13: if constexpr (V <= 2) { auto p = kept3(v[0], v[1], v[2]); scribble(); return (double)e(p); } else return 0;
    default: { LC c(s); return (double)(vm::eval(e, c)); }
  }
}
}

// n1: variant, n2: size of the point, n3: seed of the point, d: expression
void eval_ct(OpCtx& o) {
  Op const& p = o.op; int variant = (int)(p.n[1] < 0 ? 0 : p.n[1] % 16); long which = (p.b < 0 ? 0 : p.b) % N_CTX;
  int maxvar = 0; bool lin = false; P m = ct_model(which, maxvar, lin);
  long n = p.n[2]; NEED(n >= 0 && n <= 8);
  if (variant == 4 || variant == 11) { NEED(maxvar == 0); n = 1; }
  if (variant == 5 || variant == 12) { NEED(maxvar <= 1); n = 2; }
  if ((variant >= 6 && variant <= 9) || variant >= 13) { NEED(maxvar <= 2); n = 3; }
  double val[8] = {0}; Rng r((uint64_t)p.n[3] * 77 + 3);
  for (int i = 0; i < 8; ++i) val[i] = r.chance(1, 2) ? (double)((long)r.below(13) - 6) / 2 : -2 + 4 * r.real();
  if (variant == 8 || variant == 9) { val[0] = 4; val[1] = -3; val[2] = 7; }
  if (variant == 14 || variant == 15) { NEED(lin); val[0] = 5000000001.; val[1] = 7; val[2] = -3000000007.; }
  if (variant == 10) val[0] = p.x;
  o.operand(m);
  unsigned ex = model::eval_exceptions(m, n, variant == 10);
  o.allow = ex; o.must_throw = ex != 0;
  std::vector<double>* v;
  { ModeGuard g(sim::SETUP); v = new std::vector<double>(); v->reserve(n); for (long i = 0; i < n; ++i) v->push_back(val[i]); }
  double out = 0, s = p.x;
  perform(o, [&] {
    switch (which) {
#define Q(L, M, V) case __COUNTER__ - base2 - 1: out = at_point<V>(L, variant, *v, s); break;
      enum { base2 = __COUNTER__ };
      CTX(Q)
#undef Q
    }
  }, [&] {
    uint64_t bits; memcpy(&bits, &out, 8); o.digest(out == out ? bits : 1);
    if (o.must_throw) return;
    model::Env env; env.strict = true; for (int i = 0; i < 8; ++i) env.p[i] = i < n || variant == 10 ? val[i] : 0;
    model::Val w = model::eval(m, env); sim::stats().compared++;
    if (w.st != 1) { sim::stats().skipped_points++; return; }
    if (!(std::fabs(out - w.s.v) <= 32 * w.s.e + 1e-12 * std::max(1.0, std::fabs(w.s.v)))) bad_result(o, "wrong-value", "compile-time expression %s: got %.17g, expected %.17g", show2(m).c_str(), out, w.s.v);
  }, NoFail());
  { ModeGuard g(sim::SETUP); delete v; }
}
#endif
