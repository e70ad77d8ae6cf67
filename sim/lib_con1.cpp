#ifdef SIM_STUB   // see check.py: the overloads of this file do not compile
#include "lib_con.hpp"
ConFn con1(int) { return 0; }
#else
#include "lib_con.hpp"
ConFn con1(int lhs) {
  switch (lhs) { case 0: return &con_lhs<0>; case 1: return &con_lhs<1>; case 2: return &con_lhs<2>; }
  return 0;
}
#endif
