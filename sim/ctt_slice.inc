// One slice of the rows written by ctt_gen.py.
#include "ctt.hpp"
#ifndef SIM_STUB   // see check.py: the calls of this file do not compile
#include "viennamath/expression.hpp"
#include "viennamath/manipulation/eval.hpp"
#include "viennamath/manipulation/substitute.hpp"
#include "viennamath/manipulation/diff.hpp"
#include "viennamath/manipulation/simplify.hpp"
#include "viennamath/manipulation/expand.hpp"
#include "viennamath/manipulation/coefficient.hpp"
#include "viennamath/manipulation/drop_dependent_terms.hpp"
#include "viennamath/manipulation/integrate.hpp"
namespace vm = viennamath;
template <class T> struct CttTag {};
struct CttNone {};
namespace {
typedef CttNone N;
typedef vm::ct_variable<0> X; typedef vm::ct_variable<1> Y; typedef vm::ct_variable<2> Z; typedef vm::ct_function_symbol<vm::unknown_tag<> > U;
template <long v> using K = vm::ct_constant<v>;
template <char c> struct Op; 
template <> struct Op<'+'> { typedef vm::op_plus<vm::default_numeric_type> t; }; template <> struct Op<'-'> { typedef vm::op_minus<vm::default_numeric_type> t; };
template <> struct Op<'*'> { typedef vm::op_mult<vm::default_numeric_type> t; }; template <> struct Op<'/'> { typedef vm::op_div<vm::default_numeric_type> t; };
template <char c, class L, class R> using B = vm::ct_binary_expr<L, typename Op<c>::t, R>;
#define TI(...) &typeid(CttTag<__VA_ARGS__>)
CttRow const rows[] = {
#include CTT_FILE
};
struct Enter { Enter() { ctt_slice[CTT_SLICE - 1] = rows; ctt_size[CTT_SLICE - 1] = sizeof rows / sizeof *rows; } } enter;
}
#endif
