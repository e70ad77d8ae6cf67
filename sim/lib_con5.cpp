#ifdef SIM_STUB   // see check.py: the overloads of this file do not compile
#include "lib_con.hpp"
ConFn con5(int) { return 0; }
#else
#include "lib_con.hpp"
ConFn con5(int lhs) {
  switch (lhs) { case 12: return &con_lhs<12>; case 13: return &con_lhs<13>; case 14: return &con_lhs<14>; }
  return 0;
}
#endif
