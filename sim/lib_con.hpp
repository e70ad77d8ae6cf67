// Cross product of operand kinds and operators: every pair instantiates its own overload of the library.
#ifndef SIM_LIB_CON_HPP
#define SIM_LIB_CON_HPP
#include "lib_common.hpp"

enum ConKind { K_D, K_L, K_C, K_CI, K_CT0, K_CT3, K_CTM, K_X, K_CV0, K_CV1, K_F, K_U, K_B, K_E, K_XP, K_PX, K_PM, K_XY, K_COUNT };

// operands of one call; compile-time operands have no storage
struct ConArg { double d; long l; LC* c; LCI* ci; LX* x; LF* f; LU* u; LB* b; LE* e; };
struct ConRes { void* mem; bool number; double value; std::vector<double> const* point; };

typedef vm::op_plus<vm::default_numeric_type> CtPlus;
typedef vm::op_minus<vm::default_numeric_type> CtMinus;
typedef vm::op_mult<vm::default_numeric_type> CtMult;
typedef vm::op_div<vm::default_numeric_type> CtDiv;
typedef vm::ct_binary_expr<vm::ct_variable<0>, CtPlus, vm::ct_constant<2> > CtXP;
typedef vm::ct_binary_expr<vm::ct_constant<3>, CtPlus, vm::ct_variable<0> > CtPX;
typedef vm::ct_binary_expr<vm::ct_constant<4>, CtMinus, vm::ct_variable<1> > CtPM;
typedef vm::ct_binary_expr<vm::ct_variable<0>, CtMult, vm::ct_variable<1> > CtXY;

template <int K> struct Con;
#define CONKIND(K, T, EXPR) template <> struct Con<K> { typedef T type; static T const& get(ConArg const& a) { return EXPR; } };
#define CONCT(K, T) template <> struct Con<K> { typedef T type; static T get(ConArg const&) { return T(); } };
CONKIND(K_D, double, a.d) CONKIND(K_L, long, a.l) CONKIND(K_C, LC, *a.c) CONKIND(K_CI, LCI, *a.ci) CONKIND(K_X, LX, *a.x) CONKIND(K_F, LF, *a.f) CONKIND(K_U, LU, *a.u) CONKIND(K_B, LB, *a.b) CONKIND(K_E, LE, *a.e)
CONCT(K_CT0, vm::ct_constant<0>) CONCT(K_CT3, vm::ct_constant<3>) CONCT(K_CTM, vm::ct_constant<-3000000007L>) CONCT(K_CV0, vm::ct_variable<0>) CONCT(K_CV1, vm::ct_variable<1>)
CONCT(K_XP, CtXP) CONCT(K_PX, CtPX) CONCT(K_PM, CtPM) CONCT(K_XY, CtXY)

// compile-time expressions holding runtime constants can be evaluated, but not be converted to runtime expressions
template <class T> struct HoldsConstant { enum { value = 0 }; };
template <class T> struct HoldsConstant<vm::rt_constant<T> > { enum { value = 1 }; };
template <class L, class O, class R> struct HoldsConstant<vm::ct_binary_expr<L, O, R> > { enum { value = (int)HoldsConstant<L>::value || (int)HoldsConstant<R>::value }; };
template <class T> struct IsCtBinary { enum { value = 0 }; };
template <class L, class O, class R> struct IsCtBinary<vm::ct_binary_expr<L, O, R> > { enum { value = 1 }; };

template <class R> inline void con_put(ConRes& r, R const& e) {
  if constexpr ((int)IsCtBinary<R>::value && (int)HoldsConstant<R>::value) { r.number = true; r.value = vm::eval(e, *r.point); }
  else { r.number = false; new (r.mem) LE(e); }
}
template <int A, int B> inline void con_pair(int op, ConArg const& x, ConArg const& y, ConRes& r) {
  if constexpr (!(A <= K_L && B <= K_L)) {
    switch (op) {
      case 0: con_put(r, Con<A>::get(x) + Con<B>::get(y)); break;
      case 1: con_put(r, Con<A>::get(x) - Con<B>::get(y)); break;
      case 2: con_put(r, Con<A>::get(x) * Con<B>::get(y)); break;
      default: con_put(r, Con<A>::get(x) / Con<B>::get(y)); break;
    }
  }
}
template <int A> inline void con_lhs(int rhs, int op, ConArg const& x, ConArg const& y, ConRes& r) {
#define C(B) case B: con_pair<A, B>(op, x, y, r); break;
  switch (rhs) { C(K_D) C(K_L) C(K_C) C(K_CI) C(K_CT0) C(K_CT3) C(K_CTM) C(K_X) C(K_CV0) C(K_CV1) C(K_F) C(K_U) C(K_B) C(K_E) C(K_XP) C(K_PX) C(K_PM) C(K_XY) }
#undef C
}
typedef void (*ConFn)(int rhs, int op, ConArg const& x, ConArg const& y, ConRes& r);
template <int FROM, int N> struct ConTable { static void fill(ConFn* t) { t[FROM] = &con_lhs<FROM>; ConTable<FROM + 1, N - 1>::fill(t); } };
template <int FROM> struct ConTable<FROM, 0> { static void fill(ConFn*) {} };
ConFn con1(int lhs); ConFn con2(int lhs); ConFn con3(int lhs); ConFn con4(int lhs); ConFn con5(int lhs); ConFn con6(int lhs);
#endif
