#ifdef SIM_STUB   // see check.py: the overloads of this file do not compile
#include "lib_con.hpp"
ConFn con2(int) { return 0; }
#else
#include "lib_con.hpp"
ConFn con2(int lhs) {
  switch (lhs) { case 3: return &con_lhs<3>; case 4: return &con_lhs<4>; case 5: return &con_lhs<5>; }
  return 0;
}
#endif
