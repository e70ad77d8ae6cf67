#ifndef SIM_LIB_POINT_HPP
#define SIM_LIB_POINT_HPP
#include "lib_common.hpp"
struct Point {
  std::vector<double>* v; model::Env env;
  Point(uint64_t seed) {
    Rng r(seed * 77 + 5); model::random_env(r, env, 3); env.budget = 60000;
    ModeGuard g(sim::SETUP);
    v = new (sim::arena_alloc(sizeof *v, 2)) std::vector<double>(8);
    for (int i = 0; i < 8; ++i) (*v)[i] = env.p[i];
  }
  ~Point() { ModeGuard g(sim::SETUP); v->~vector(); sim::arena_free(v); }
};
// result given as a number
inline void check_number(OpCtx& o, P const& m, model::Env env, double got) {
  sim::stats().compared++;
  env.strict = true; model::Val v = model::eval(m, env);
  uint64_t bits; memcpy(&bits, &got, 8); o.digest(got == got ? bits : 1);
  if (v.st != 1) { sim::stats().skipped_points++; return; }
  if (!(std::fabs(got - v.s.v) <= 32 * v.s.e + 1e-12 * std::max(1.0, std::fabs(v.s.v)))) bad_result(o, "wrong-value", "got %.17g, expected %.17g = %s", got, v.s.v, show2(m).c_str());
}

#endif
