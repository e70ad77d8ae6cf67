// One slice of the compile-time manipulations.
#include "lib_ctm.hpp"
#ifdef SIM_STUB   // see check.py: the calls of this file do not compile
#define CTM_CASES(Q)
#else
#include "ctm_cases.hpp"
#endif
namespace {
#define K vm::ct_constant
const vm::ct_variable<0> X; const vm::ct_variable<1> Y; const vm::ct_variable<2> Z; const vm::ct_variable<5> W; const vm::ct_function_symbol<vm::unknown_tag<> > U;
#define Q(USE, EXPANDED, WANT, CALL) {WANT, #CALL, USE, EXPANDED, [](CtmCall& c) { ctm_run<USE>(CALL, c); }, &CtmForm<typename std::decay<decltype(CALL)>::type>::put},
CtmCase const cases[] = { CTM_CASES(Q) {0, 0, 0, 0, 0, 0} };
#undef Q
struct Enter { Enter() { ctm_slice[CTM_SLICE - 1] = cases; ctm_size[CTM_SLICE - 1] = sizeof cases / sizeof *cases - 1; } } enter;
}
