// Chains of compile-time expressions and runtime constants.
#include "lib_con.hpp"
#include "lib_point.hpp"
#ifdef SIM_STUB   // see check.py: the overloads of this file do not compile
void chain(OpCtx& o) { skip(o, "stub"); }
#else
namespace {
using model::mk_const; using model::mk_var; using model::mk_bin;
// ---- chains of special overloads: compile-time expressions mixed with runtime constants
const vm::ct_variable<0> X; const vm::ct_variable<1> Y;
const vm::ct_constant<2> c2; const vm::ct_constant<3> c3; const vm::ct_constant<100000> c5; const vm::ct_constant<-70000> m7; const vm::ct_constant<5000000000L> cg; const vm::ct_constant<0> c0;
P xm() { return mk_var(0); } P ym() { return mk_var(1); }
P num(double v) { return mk_const(v); }
P operator+(P const& a, P const& b) { return mk_bin(model::B_PLUS, a, b); }
P operator-(P const& a, P const& b) { return mk_bin(model::B_MINUS, a, b); }
P operator*(P const& a, P const& b) { return mk_bin(model::B_MULT, a, b); }
P operator/(P const& a, P const& b) { return mk_bin(model::B_DIV, a, b); }
// name, library expression, model expression (a, b: rt_constant<double>, i: rt_constant<int>; A, B, I their models)
#define CHAINS(Q) \
  Q((c2 + X) + a, (num(2) + x) + A) Q((c2 - X) + a, (num(2) - x) + A) Q((c2 - X) + i, (num(2) - x) + I) Q((c2 + X) + i, (num(2) + x) + I) \
  Q((c2 + X) - a, (num(2) + x) - A) Q((c2 - X) - a, (num(2) - x) - A) Q((c2 - X) - i, (num(2) - x) - I) Q((c2 + X) - i, (num(2) + x) - I) \
  Q(a + (c2 + X), A + (num(2) + x)) Q(a - (c2 + X), A - (num(2) + x)) Q(a - (c2 - X), A - (num(2) - x)) Q(a + (c2 - X), A + (num(2) - x)) \
  Q(i + (c2 + X), I + (num(2) + x)) Q(i - (c2 + X), I - (num(2) + x)) Q(i - (c2 - X), I - (num(2) - x)) Q(i + (c2 - X), I + (num(2) - x)) \
  Q(a - ((c2 - X) + b), A - ((num(2) - x) + B)) Q(a - ((c2 + X) + b), A - ((num(2) + x) + B)) Q(a + ((c2 + X) + b), A + ((num(2) + x) + B)) Q(a + ((c2 - X) + b), A + ((num(2) - x) + B)) \
  Q(c3 + ((c2 + X) + a), num(3) + ((num(2) + x) + A)) Q(c3 - ((c2 + X) + a), num(3) - ((num(2) + x) + A)) Q(c3 - ((c2 - X) + a), num(3) - ((num(2) - x) + A)) Q(c3 + ((c2 - X) + a), num(3) + ((num(2) - x) + A)) \
  Q(((c2 + X) + a) - c3, ((num(2) + x) + A) - num(3)) Q(((c2 - X) + a) - c3, ((num(2) - x) + A) - num(3)) Q(((c2 - X) + a) + c3, ((num(2) - x) + A) + num(3)) \
  Q(((c2 + X) + a) / c3, ((num(2) + x) + A) / num(3)) Q(c3 * ((c2 + X) + a), num(3) * ((num(2) + x) + A)) \
  Q(((c2 + X) + a) / ((c2 + X) + b), ((num(2) + x) + A) / ((num(2) + x) + B)) Q(((c2 + X) + a) * ((c2 + X) + b), ((num(2) + x) + A) * ((num(2) + x) + B)) \
  Q(((c2 + X) + a) - ((c2 + X) + b), ((num(2) + x) + A) - ((num(2) + x) + B)) Q(((c2 + X) + a) + ((c2 - Y) + b), ((num(2) + x) + A) + ((num(2) - y) + B)) \
  Q(((c2 + X) + a) * Y, ((num(2) + x) + A) * y) Q(Y / ((c2 + X) + a), y / ((num(2) + x) + A)) Q(((c2 + X) + a) - Y, ((num(2) + x) + A) - y) \
  Q((X * Y) / (X * Y), (x * y) / (x * y)) Q((X + Y) - X, (x + y) - x) Q((X + Y) - Y, (x + y) - y) Q(X + X, x + x) Q(X - X, x - x) Q(X / X, x / x) Q(Y / X, y / x) Q((X / Y) * Y, (x / y) * y) \
  Q((c3 + X) - c2, (num(3) + x) - num(2)) Q((c3 - X) - c2, (num(3) - x) - num(2)) Q((c3 - X) + c2, (num(3) - x) + num(2)) Q((c3 + X) + c2, (num(3) + x) + num(2)) \
  Q(c2 - (c3 - X), num(2) - (num(3) - x)) Q(c2 - (c3 + X), num(2) - (num(3) + x)) Q(c2 + (c3 - X), num(2) + (num(3) - x)) Q(c2 + (c3 + X), num(2) + (num(3) + x)) \
  Q((X + c2) / (X + c2), (x + num(2)) / (x + num(2))) Q((c2 * X + c3 * Y) * (X - Y), (num(2) * x + num(3) * y) * (x - y)) Q((X * Y + c2) / (X - c3), (x * y + num(2)) / (x - num(3))) \
  Q(c2 * (X + Y) / c3, num(2) * (x + y) / num(3)) Q((X - Y) - (Y - X), (x - y) - (y - x)) Q(X - (Y - c3), x - (y - num(3))) Q(X / (Y / c3), x / (y / num(3))) \
  Q((c3 + c2) * X, (num(3) + num(2)) * x) Q((c3 - c2) * X, (num(3) - num(2)) * x) Q((c3 * c2) * X, (num(3) * num(2)) * x) Q((c3 * c2) / X, (num(3) * num(2)) / x) \
  Q((c3 / c2) * X, (num(3) / num(2)) * x) Q(X / (c3 / c2), x / (num(3) / num(2))) Q((c2 * a) * X, (num(2) * A) * x) Q(X * a, x * A) \
  Q(a * X, A * x) Q(X * Y * a, x * y * A) Q(X / a, x / A) Q(a / X, A / x) \
  Q((X * a) * b, (x * A) * B) Q((X / a) * b, (x / A) * B) Q((X * a) / b, (x * A) / B) Q((X / a) / b, (x / A) / B) \
  Q(b / (X * a), B / (x * A)) Q(b * (a / X), B * (A / x)) Q(b / (a / X), B / (A / x)) Q((X * a) + Y, (x * A) + y) \
  Q((X + a) * c2, (x + A) * num(2)) Q(X * i + a, x * I + A) Q(i * X - Y * b, I * x - y * B) Q(X * Y + a * X, x * y + A * x) \
  Q((X * a) / (X * b), (x * A) / (x * B)) Q((X * a) / (X * a), (x * A) / (x * A)) Q((X + a) / (X + b), (x + A) / (x + B)) Q((X - a) / (X - b), (x - A) / (x - B)) \
  Q(a * (X * Y), A * (x * y)) Q(a / (X + Y), A / (x + y)) Q((X + Y) * a - c2, (x + y) * A - num(2)) Q((X * a) * (Y * b), (x * A) * (y * B)) \
  Q((X * a) * (X * b), (x * A) * (x * B)) Q((X * a) - (X * b), (x * A) - (x * B)) Q((X * a) + (X * b), (x * A) + (x * B)) Q((a + X) - (b + X), (A + x) - (B + x)) \
  Q((a + X) + (b - X), (A + x) + (B - x)) Q((a - X) - (b - X), (A - x) - (B - x)) Q((a - X) / (b - X), (A - x) / (B - x)) Q((i + X) / (i + X), (I + x) / (I + x)) \
  Q((i * X) / (i + X), (I * x) / (I + x)) Q(c3 / (X * a), num(3) / (x * A)) Q((X + c2) * a, (x + num(2)) * A) Q((X - c2) / a, (x - num(2)) / A) \
  Q((X / c2) * a, (x / num(2)) * A) Q((a + b) * X, (A + B) * x) Q((a - b) - X, (A - B) - x) Q((a * i) * X, (A * I) * x) \
  Q(X - (a - b), x - (A - B)) Q((i - a) + X, (I - A) + x) Q((i * c3) + X, (I * num(3)) + x) Q((c3 - i) - X, (num(3) - I) - x) \
  Q((c3 / i) * X, (num(3) / I) * x) Q((i / c3) * X, (I / num(3)) * x) Q((a / i) - X, (A / I) - x) Q(c3 - (i - X), num(3) - (I - x)) \
  Q(c3 + (i - X), num(3) + (I - x)) Q(c3 - (i + X), num(3) - (I + x)) Q((i - X) - c3, (I - x) - num(3)) Q((i - X) + c3, (I - x) + num(3)) \
  Q((i + X) - c3, (I + x) - num(3)) Q((X - Y) / (X - Y), (x - y) / (x - y)) Q((X - Y) / (Y - X), (x - y) / (y - x)) Q((X + Y) / (X - Y), (x + y) / (x - y)) \
  Q((X + Y) / (Y + X), (x + y) / (y + x)) Q((X * Y) / (Y * X), (x * y) / (y * x)) Q(((X + Y) * c2) / ((X + Y) * c2), ((x + y) * num(2)) / ((x + y) * num(2))) Q(((X + Y) * c2) / ((X + Y) * c3), ((x + y) * num(2)) / ((x + y) * num(3))) \
  Q(((X + Y) * a) / ((X + Y) * b), ((x + y) * A) / ((x + y) * B)) Q((X * (Y + a)) / (X * (Y + b)), (x * (y + A)) / (x * (y + B))) Q(((X + a) - Y) / ((X + b) - Y), ((x + A) - y) / ((x + B) - y)) Q((X + Y) - X - Y, (x + y) - x - y) \
  Q((X + Y) - (X + Y), (x + y) - (x + y)) Q((X + X) - X, (x + x) - x) Q((X + X) / X, (x + x) / x) Q((X - X) + a, (x - x) + A) \
  Q((X / X) - a, (x / x) - A) Q((X - X) * Y, (x - x) * y) Q(c2 + ((c3 - X) - c2), num(2) + ((num(3) - x) - num(2))) Q(c2 - ((c3 - X) - c2), num(2) - ((num(3) - x) - num(2))) \
  Q(c2 - (c3 - (X - c2)), num(2) - (num(3) - (x - num(2)))) Q(((c2 + X) + c3) + a, ((num(2) + x) + num(3)) + A) Q(((c2 - X) - c3) - a, ((num(2) - x) - num(3)) - A) Q(((c2 + X) * c3) - i, ((num(2) + x) * num(3)) - I) \
  Q(a - (b - (c2 - X)), A - (B - (num(2) - x))) Q(a + (b - (c2 + X)), A + (B - (num(2) + x))) \
  Q(R * m7, x * num(-70000)) Q(R + c5, x + num(100000)) Q(c5 - R, num(100000) - x) Q(cg / R, num(5e9) / x) Q(R - cg, x - num(5e9)) Q(m7 * R, num(-70000) * x) Q((R + m7) / c5, (x + num(-70000)) / num(100000)) \
  Q(R + X * cg, x + x * num(5e9)) Q(R * (m7 - Y), x * (num(-70000) - y)) Q((X * c5) / R, (x * num(100000)) / x) Q(R * c0, x * num(0)) Q(c0 + R, num(0) + x) Q((Y + c0) - R, (y + num(0)) - x) \
  Q(R + X / c5, x + x / num(100000)) Q(vm::exp(X / c5) * R, mk_un(model::U_EXP, x / num(100000)) * x) Q(R - vm::sin(Y), x - mk_un(model::U_SIN, y)) Q(R * R - Y * X, x * x - y * x)
// an expression that outlives the call that made it
template <class F> __attribute__((noinline)) auto made(F f) { return f(); }
template <class F> double keep(F f, std::vector<double> const& v) { auto e = made(f); scribble(); return vm::eval(e, v); }
enum { N_CHAINS = 0
#define Q(L, M) +1
  CHAINS(Q)
#undef Q
};
// n3 bit 0: through a function object call instead of vm::eval, where the expression can be converted: through a handle
} // namespace
void chain(OpCtx& o) {
  NEED(o.op.n[2] >= 0); long which = o.op.n[2] % N_CHAINS;
  double va = o.op.x, vb = o.op.x * 0.5 + 1.25; int vi = (int)std::floor(o.op.x);
  LC& a = obj<LC>(scratch(o, S_C, 0, mk_const(va))); LC& b = obj<LC>(scratch(o, S_C, 1, mk_const(vb))); LCI& i = obj<LCI>(scratch(o, S_CI, 0, mk_const(vi, model::C_INT)));
  LX& R = obj<LX>(scratch(o, S_X, 0, mk_var(0)));
  P A = mk_const(va), B = mk_const(vb), I = mk_const(vi), x = xm(), y = ym(); P m;
  switch (which) {
#define Q(L, M) case __COUNTER__ - chain_base - 1: m = M; break;
    enum { chain_base = __COUNTER__ };
    CHAINS(Q)
#undef Q
  }
  o.operand(m);
  bool direct = o.op.n[3] & 1, kept = o.op.n[3] & 2;
  Point pt((uint64_t)o.op.n[3]); double out = 0;
  perform(o, [&] {
    std::vector<double> const& v = *pt.v;
    switch (which) {
#define Q(L, M) case __COUNTER__ - chain_base2 - 1: out = kept ? keep([&] { return L; }, v) : direct ? (L)(v) : vm::eval(L, v); break;
      enum { chain_base2 = __COUNTER__ };
      CHAINS(Q)
#undef Q
    }
  }, [&] { check_number(o, m, pt.env, out); }, NoFail());
}
#endif
