#ifdef SIM_STUB   // see check.py: the overloads of this file do not compile
#include "lib_con.hpp"
ConFn con3(int) { return 0; }
#else
#include "lib_con.hpp"
ConFn con3(int lhs) {
  switch (lhs) { case 6: return &con_lhs<6>; case 7: return &con_lhs<7>; case 8: return &con_lhs<8>; }
  return 0;
}
#endif
