// Types which manipulations of compile-time expressions result in.
#ifndef SIM_CTT_HPP
#define SIM_CTT_HPP
#include <typeinfo>
enum { CTT_SLICES = 8 };
// kind: see lib_ctt.cpp; var: the variable of the operation; a, b: further arguments; source and result.  All names are those of CttTag<type>.
struct CttRow { char kind; int var; std::type_info const *a, *b, *source, *result; };
extern CttRow const* ctt_slice[CTT_SLICES]; extern long ctt_size[CTT_SLICES];
#endif
