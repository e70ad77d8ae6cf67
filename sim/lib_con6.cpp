#ifdef SIM_STUB   // see check.py: the overloads of this file do not compile
#include "lib_con.hpp"
ConFn con6(int) { return 0; }
#else
#include "lib_con.hpp"
ConFn con6(int lhs) {
  switch (lhs) { case 15: return &con_lhs<15>; case 16: return &con_lhs<16>; case 17: return &con_lhs<17>; }
  return 0;
}
#endif
