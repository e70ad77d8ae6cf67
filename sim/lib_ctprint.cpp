// Stream output of compile-time objects.
#include "lib_common.hpp"
#ifdef SIM_STUB   // see check.py: the overloads of this file do not compile
long ct_count() { return 0; }
const char* ct_text(long) { return 0; }
void ct_write(long, std::ostream&) {}
#else
namespace {
const vm::ct_variable<0> X; const vm::ct_variable<1> Y; const vm::ct_variable<123> W; const vm::ct_variable<4294967297UL> H;
const vm::ct_constant<0> c0; const vm::ct_constant<3> c3; const vm::ct_constant<-45> cm; const vm::ct_constant<2147483648L> cl; const vm::ct_constant<-9223372036854775807L> cll;
struct OwnTag { static std::string str() { return "own tag"; } static vm::id_type tag_id() { return 7; } };
const vm::ct_function_symbol<vm::test_tag<70000> > g; const vm::ct_function_symbol<vm::unknown_tag<5000000000UL> > h; const vm::ct_function_symbol<OwnTag> o;
const vm::ct_function_symbol<vm::unknown_tag<> > u; const vm::ct_function_symbol<vm::test_tag<2> > v;
// object, text
#define CTP(Q) \
  Q(X, "ct_variable<0>") Q(W, "ct_variable<123>") Q(H, "ct_variable<4294967297>") Q(c0, "ct_constant<0>") Q(c3, "ct_constant<3>") Q(cm, "ct_constant<-45>") Q(cl, "ct_constant<2147483648>") Q(cll, "ct_constant<-9223372036854775807>") \
  Q(u, "unknown[0]") Q(v, "test[2]") \
  Q(X + Y, "[ct_variable<0>+ct_variable<1>]") Q(X - c3, "[ct_variable<0>-ct_constant<3>]") Q(cm * Y, "[ct_constant<-45>*ct_variable<1>]") Q(X / W, "[ct_variable<0>/ct_variable<123>]") \
  Q((X + Y) * (c3 - X), "[[ct_variable<0>+ct_variable<1>]*[ct_constant<3>-ct_variable<0>]]") Q(X / (Y / W), "[ct_variable<0>/[ct_variable<1>/ct_variable<123>]]") Q((X / Y) / W, "[[ct_variable<0>/ct_variable<1>]/ct_variable<123>]") \
  Q(X - (Y - cl), "[ct_variable<0>-[ct_variable<1>-ct_constant<2147483648>]]") Q((X * X) * (X * X), "[[ct_variable<0>*ct_variable<0>]*[ct_variable<0>*ct_variable<0>]]") Q((X + c3) / (X - c3), "[[ct_variable<0>+ct_constant<3>]/[ct_variable<0>-ct_constant<3>]]") \
  Q(vm::make_vector(X), "vector<ct_variable<0>>") Q(vm::make_vector(X, Y), "vector<ct_variable<0>, ct_variable<1>>") Q(vm::make_vector(Y, X), "vector<ct_variable<1>, ct_variable<0>>") Q(vm::make_vector(X, c3, X * Y), "vector<ct_variable<0>, ct_constant<3>, [ct_variable<0>*ct_variable<1>]>") \
  Q(vm::make_vector(1.5), "vector<1.5>") Q(vm::make_vector(1.5, -2.25), "vector<1.5, -2.25>") Q(vm::make_vector(7L, 0.125, W), "vector<7, 0.125, ct_variable<123>>") \
  Q(vm::make_equation(X + Y, c3), "ct_equation([ct_variable<0>+ct_variable<1>] = ct_constant<3>)") Q(vm::make_equation(c3, X), "ct_equation(ct_constant<3> = ct_variable<0>)") Q(vm::make_equation(X, Y), "ct_equation(ct_variable<0> = ct_variable<1>)") \
  Q(vm::make_interval(c3, cl), "ct_interval(ct_constant<3>, ct_constant<2147483648>)") Q(vm::make_interval(X, cm * Y), "ct_interval(ct_variable<0>, [ct_constant<-45>*ct_variable<1>])") Q(vm::make_interval(c0, X), "ct_interval(ct_constant<0>, ct_variable<0>)")
#define CTP2(Q) \
  Q(g, "test[70000]") Q(h, "unknown[5000000000]") Q(o, "own tag") Q(o - h * g, "[own tag-[unknown[5000000000]*test[70000]]]") Q(vm::make_vector(o, g, h), "vector<own tag, test[70000], unknown[5000000000]>") Q(vm::make_vector(u + X, 3L), "vector<[unknown[0]+ct_variable<0>], 3>") \
  Q(vm::make_equation(X + Y, X + Y), "ct_equation([ct_variable<0>+ct_variable<1>] = [ct_variable<0>+ct_variable<1>])") Q(vm::make_interval(X + Y, X + Y), "ct_interval([ct_variable<0>+ct_variable<1>], [ct_variable<0>+ct_variable<1>])") \
  Q(vm::make_equation(X + Y, W * c3), "ct_equation([ct_variable<0>+ct_variable<1>] = [ct_variable<123>*ct_constant<3>])") Q(vm::make_interval(X + Y, W * c3), "ct_interval([ct_variable<0>+ct_variable<1>], [ct_variable<123>*ct_constant<3>])") \
  Q(vm::make_equation(X + Y, cl), "ct_equation([ct_variable<0>+ct_variable<1>] = ct_constant<2147483648>)") Q(vm::make_interval(X + Y, cl), "ct_interval([ct_variable<0>+ct_variable<1>], ct_constant<2147483648>)") \
  Q(vm::make_equation(X + Y, u), "ct_equation([ct_variable<0>+ct_variable<1>] = unknown[0])") Q(vm::make_interval(X + Y, u), "ct_interval([ct_variable<0>+ct_variable<1>], unknown[0])") \
  Q(vm::make_equation(X + Y, g), "ct_equation([ct_variable<0>+ct_variable<1>] = test[70000])") Q(vm::make_interval(X + Y, g), "ct_interval([ct_variable<0>+ct_variable<1>], test[70000])") \
  Q(vm::make_equation(X + Y, H), "ct_equation([ct_variable<0>+ct_variable<1>] = ct_variable<4294967297>)") Q(vm::make_interval(X + Y, H), "ct_interval([ct_variable<0>+ct_variable<1>], ct_variable<4294967297>)") \
  Q(vm::make_equation(W * c3, X + Y), "ct_equation([ct_variable<123>*ct_constant<3>] = [ct_variable<0>+ct_variable<1>])") Q(vm::make_interval(W * c3, X + Y), "ct_interval([ct_variable<123>*ct_constant<3>], [ct_variable<0>+ct_variable<1>])") \
  Q(vm::make_equation(W * c3, W * c3), "ct_equation([ct_variable<123>*ct_constant<3>] = [ct_variable<123>*ct_constant<3>])") Q(vm::make_interval(W * c3, W * c3), "ct_interval([ct_variable<123>*ct_constant<3>], [ct_variable<123>*ct_constant<3>])") \
  Q(vm::make_equation(W * c3, cl), "ct_equation([ct_variable<123>*ct_constant<3>] = ct_constant<2147483648>)") Q(vm::make_interval(W * c3, cl), "ct_interval([ct_variable<123>*ct_constant<3>], ct_constant<2147483648>)") \
  Q(vm::make_equation(W * c3, u), "ct_equation([ct_variable<123>*ct_constant<3>] = unknown[0])") Q(vm::make_interval(W * c3, u), "ct_interval([ct_variable<123>*ct_constant<3>], unknown[0])") \
  Q(vm::make_equation(W * c3, g), "ct_equation([ct_variable<123>*ct_constant<3>] = test[70000])") Q(vm::make_interval(W * c3, g), "ct_interval([ct_variable<123>*ct_constant<3>], test[70000])") \
  Q(vm::make_equation(W * c3, H), "ct_equation([ct_variable<123>*ct_constant<3>] = ct_variable<4294967297>)") Q(vm::make_interval(W * c3, H), "ct_interval([ct_variable<123>*ct_constant<3>], ct_variable<4294967297>)") \
  Q(vm::make_equation(cl, X + Y), "ct_equation(ct_constant<2147483648> = [ct_variable<0>+ct_variable<1>])") Q(vm::make_interval(cl, X + Y), "ct_interval(ct_constant<2147483648>, [ct_variable<0>+ct_variable<1>])") \
  Q(vm::make_equation(cl, W * c3), "ct_equation(ct_constant<2147483648> = [ct_variable<123>*ct_constant<3>])") Q(vm::make_interval(cl, W * c3), "ct_interval(ct_constant<2147483648>, [ct_variable<123>*ct_constant<3>])") \
  Q(vm::make_equation(cl, cl), "ct_equation(ct_constant<2147483648> = ct_constant<2147483648>)") Q(vm::make_interval(cl, cl), "ct_interval(ct_constant<2147483648>, ct_constant<2147483648>)") \
  Q(vm::make_equation(cl, u), "ct_equation(ct_constant<2147483648> = unknown[0])") Q(vm::make_interval(cl, u), "ct_interval(ct_constant<2147483648>, unknown[0])") \
  Q(vm::make_equation(cl, g), "ct_equation(ct_constant<2147483648> = test[70000])") Q(vm::make_interval(cl, g), "ct_interval(ct_constant<2147483648>, test[70000])") \
  Q(vm::make_equation(cl, H), "ct_equation(ct_constant<2147483648> = ct_variable<4294967297>)") Q(vm::make_interval(cl, H), "ct_interval(ct_constant<2147483648>, ct_variable<4294967297>)") \
  Q(vm::make_equation(u, X + Y), "ct_equation(unknown[0] = [ct_variable<0>+ct_variable<1>])") Q(vm::make_interval(u, X + Y), "ct_interval(unknown[0], [ct_variable<0>+ct_variable<1>])") \
  Q(vm::make_equation(u, W * c3), "ct_equation(unknown[0] = [ct_variable<123>*ct_constant<3>])") Q(vm::make_interval(u, W * c3), "ct_interval(unknown[0], [ct_variable<123>*ct_constant<3>])") \
  Q(vm::make_equation(u, cl), "ct_equation(unknown[0] = ct_constant<2147483648>)") Q(vm::make_interval(u, cl), "ct_interval(unknown[0], ct_constant<2147483648>)") \
  Q(vm::make_equation(u, u), "ct_equation(unknown[0] = unknown[0])") Q(vm::make_interval(u, u), "ct_interval(unknown[0], unknown[0])") \
  Q(vm::make_equation(u, g), "ct_equation(unknown[0] = test[70000])") Q(vm::make_interval(u, g), "ct_interval(unknown[0], test[70000])") \
  Q(vm::make_equation(u, H), "ct_equation(unknown[0] = ct_variable<4294967297>)") Q(vm::make_interval(u, H), "ct_interval(unknown[0], ct_variable<4294967297>)") \
  Q(vm::make_equation(g, X + Y), "ct_equation(test[70000] = [ct_variable<0>+ct_variable<1>])") Q(vm::make_interval(g, X + Y), "ct_interval(test[70000], [ct_variable<0>+ct_variable<1>])") \
  Q(vm::make_equation(g, W * c3), "ct_equation(test[70000] = [ct_variable<123>*ct_constant<3>])") Q(vm::make_interval(g, W * c3), "ct_interval(test[70000], [ct_variable<123>*ct_constant<3>])") \
  Q(vm::make_equation(g, cl), "ct_equation(test[70000] = ct_constant<2147483648>)") Q(vm::make_interval(g, cl), "ct_interval(test[70000], ct_constant<2147483648>)") \
  Q(vm::make_equation(g, u), "ct_equation(test[70000] = unknown[0])") Q(vm::make_interval(g, u), "ct_interval(test[70000], unknown[0])") \
  Q(vm::make_equation(g, g), "ct_equation(test[70000] = test[70000])") Q(vm::make_interval(g, g), "ct_interval(test[70000], test[70000])") \
  Q(vm::make_equation(g, H), "ct_equation(test[70000] = ct_variable<4294967297>)") Q(vm::make_interval(g, H), "ct_interval(test[70000], ct_variable<4294967297>)") \
  Q(vm::make_equation(H, X + Y), "ct_equation(ct_variable<4294967297> = [ct_variable<0>+ct_variable<1>])") Q(vm::make_interval(H, X + Y), "ct_interval(ct_variable<4294967297>, [ct_variable<0>+ct_variable<1>])") \
  Q(vm::make_equation(H, W * c3), "ct_equation(ct_variable<4294967297> = [ct_variable<123>*ct_constant<3>])") Q(vm::make_interval(H, W * c3), "ct_interval(ct_variable<4294967297>, [ct_variable<123>*ct_constant<3>])") \
  Q(vm::make_equation(H, cl), "ct_equation(ct_variable<4294967297> = ct_constant<2147483648>)") Q(vm::make_interval(H, cl), "ct_interval(ct_variable<4294967297>, ct_constant<2147483648>)") \
  Q(vm::make_equation(H, u), "ct_equation(ct_variable<4294967297> = unknown[0])") Q(vm::make_interval(H, u), "ct_interval(ct_variable<4294967297>, unknown[0])") \
  Q(vm::make_equation(H, g), "ct_equation(ct_variable<4294967297> = test[70000])") Q(vm::make_interval(H, g), "ct_interval(ct_variable<4294967297>, test[70000])") \
  Q(vm::make_equation(H, H), "ct_equation(ct_variable<4294967297> = ct_variable<4294967297>)") Q(vm::make_interval(H, H), "ct_interval(ct_variable<4294967297>, ct_variable<4294967297>)")
enum { N_CTP = 0
#define Q(L, T) +1
  CTP(Q) CTP2(Q)
#undef Q
};
template <class T> void put(std::ostream& os, T const& t) { os << t; }
}
long ct_count() { return N_CTP; }
const char* ct_text(long which) {
  switch (which) {
#define Q(L, T) case __COUNTER__ - b1 - 1: return T;
    enum { b1 = __COUNTER__ };
    CTP(Q) CTP2(Q)
#undef Q
  }
  return 0;
}
void ct_write(long which, std::ostream& os) {
  switch (which) {
#define Q(L, T) case __COUNTER__ - b2 - 1: put(os, L); break;
    enum { b2 = __COUNTER__ };
    CTP(Q) CTP2(Q)
#undef Q
  }
}
#endif
