// Manipulation of compile-time expressions: what the resulting objects do at run time.
#ifndef SIM_LIB_CTM_HPP
#define SIM_LIB_CTM_HPP
#include <type_traits>
#include "lib_common.hpp"
#include "viennamath/manipulation/expand.hpp"
#include "viennamath/manipulation/coefficient.hpp"
#include "viennamath/manipulation/drop_dependent_terms.hpp"
#include "viennamath/manipulation/integrate.hpp"

enum { CTM_SLICES = 8 };
struct CtmText;
struct CtmCase { const char* want; const char* text; int use, expanded; void (*run)(struct CtmCall&); void (*form)(CtmText&); };
struct CtmCall { int mode; std::vector<double> const* point; void* mem; LE* target; double value; };   // mode 0: evaluate, 1: use
extern CtmCase const* ctm_slice[CTM_SLICES]; extern long ctm_size[CTM_SLICES];

// the resulting type in the same prefix form ("?" for other types)
struct CtmText { char* p; char* end; void put(char c); void num(long v); };
template <class T> struct CtmForm { static void put(CtmText& t) { t.put('?'); } };
template <long v> struct CtmForm<vm::ct_constant<v> > { static void put(CtmText& t) { t.num(v); } };
template <vm::id_type i> struct CtmForm<vm::ct_variable<i> > { static void put(CtmText& t) { t.put(i < 3 ? "xyz"[i] : i == 5 ? 'w' : '?'); } };
template <class O> struct CtmOp { enum { v = '?' }; };
template <class N> struct CtmOp<vm::op_plus<N> > { enum { v = '+' }; };
template <class N> struct CtmOp<vm::op_minus<N> > { enum { v = '-' }; };
template <class N> struct CtmOp<vm::op_mult<N> > { enum { v = '*' }; };
template <class N> struct CtmOp<vm::op_div<N> > { enum { v = '/' }; };
template <class L, class O, class R> struct CtmForm<vm::ct_binary_expr<L, O, R> > {
  __attribute__((noinline)) static void put(CtmText& t) { t.put(CtmOp<O>::v); CtmForm<L>::put(t); CtmForm<R>::put(t); }
};
// what is done with the object besides evaluating it: called, converted, assigned to a handle, evaluated or called at a compile-time vector
enum { CTM_CALL, CTM_CONVERT, CTM_ASSIGN, CTM_EVAL_VECTOR, CTM_CALL_VECTOR };
template <int USE, class T> void ctm_run(T const& t, CtmCall& c) {
  std::vector<double> const& p = *c.point;
  if (c.mode == 0) { c.value = vm::eval(t, p); return; }
  if constexpr (USE == CTM_CALL) c.value = t(p);
  if constexpr (USE == CTM_CONVERT) new (c.mem) LE(t);
  if constexpr (USE == CTM_ASSIGN) *c.target = t;
  if constexpr (USE == CTM_EVAL_VECTOR) c.value = vm::eval(t, vm::make_vector(p[0], p[1], p[2]));
  if constexpr (USE == CTM_CALL_VECTOR) c.value = t(vm::make_vector(p[0], p[1], p[2]));
}
template <int USE> inline void ctm_run(double t, CtmCall& c) { c.value = t; }
#endif
