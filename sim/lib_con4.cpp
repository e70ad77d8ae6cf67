#ifdef SIM_STUB   // see check.py: the overloads of this file do not compile
#include "lib_con.hpp"
ConFn con4(int) { return 0; }
#else
#include "lib_con.hpp"
ConFn con4(int lhs) {
  switch (lhs) { case 9: return &con_lhs<9>; case 10: return &con_lhs<10>; case 11: return &con_lhs<11>; }
  return 0;
}
#endif
