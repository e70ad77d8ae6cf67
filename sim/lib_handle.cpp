// Handles: construction, copying, assignment, containers, equality.
#include "lib_common.hpp"
#include <utility>

namespace {
typedef std::vector<P> PL;

// a finished object of type T in r: compare with the expected value and store it
template <class T> void finish_typed(OpCtx& o, Res<T>& r, P m, P m2, PL const& l, const char* key, Slot* kill = 0) {
  o.digest(1);
  expect_slot(o, r.s, m, m2, l, key);
  if (!r.s.p) return;
  if (kill && kill->present() && (o.op.d & 4)) {
    destroy(o.w, *kill);
    if (!match_slot(r.s)) { bad_result(o, "result-depends-on-operand", "the new object changed when its source was destroyed"); P a, b; PL k; std::string why; if (!read_slot(r.s, a, b, k, why)) { o.w.tainted = true; destroy(o.w, r.s); return; } r.s.m = a; r.s.m2 = b; r.s.list = k; }
  }
  if ((o.op.d & 3) == 1) drop_result(o, r.s); else commit(o, r.s, o.w.s[TypeOf<T>::v][o.op.a]);
}
template <class T> void copy_as(OpCtx& o) {
  LIVE(T, o.op.b);
  Slot& src = o.w.at(TypeOf<T>::v, o.op.b); o.operand(src.m); o.operand(src.m2);
  P m = src.m, m2 = src.m2; PL l = src.list;
  Res<T> r;
  perform(o, [&] { new (r.mem()) T(obj<T>(src)); }, [&] { finish_typed(o, r, m, m2, l, "wrong-copy", o.op.b < SCR ? &src : 0); }, NoFail());
}
template <class T> void assign_as(OpCtx& o) {
  NEED(o.op.a < SCR);
  LIVE(T, o.op.b); LIVE(T, o.op.a);
  Slot& src = o.w.at(TypeOf<T>::v, o.op.b); Slot& dst = o.w.at(TypeOf<T>::v, o.op.a); o.operand(src.m); o.operand(dst.m);
  P m = src.m, m2 = src.m2; PL l = src.list;
  if (o.op.n[0] == S_W) o.basic_slot = &dst;      // a standard container
  perform(o, [&] { obj<T>(dst) = obj<T>(src); }, [&] {
    expect_slot(o, dst, m, m2, l, "wrong-assignment");
    if (dst.p && &src != &dst && (o.op.d & 4) && o.op.b < SCR) {
      destroy(o.w, src);
      if (!match_slot(dst)) bad_result(o, "result-depends-on-operand", "the target changed when the source was destroyed");
    }
  }, NoFail());
}
} // namespace

void x_COPY(OpCtx& o) {
  switch (o.op.n[0]) {
    case S_E: copy_as<LE>(o); break; case S_U: copy_as<LU>(o); break; case S_B: copy_as<LB>(o); break; case S_V: copy_as<LV>(o); break;
    case S_Q: copy_as<LQ>(o); break; case S_I: copy_as<LI>(o); break; case S_W: copy_as<LW>(o); break;
    default: skip(o, "type");
  }
}
void x_ASSIGN(OpCtx& o) {
  switch (o.op.n[0]) {
    case S_E: assign_as<LE>(o); break; case S_U: assign_as<LU>(o); break; case S_B: assign_as<LB>(o); break; case S_V: assign_as<LV>(o); break;
    case S_Q: assign_as<LQ>(o); break; case S_I: assign_as<LI>(o); break; case S_W: assign_as<LW>(o); break;
    default: skip(o, "type");
  }
}

// ---- expression handles from every kind of source
namespace {
P var(long i) { return model::mk_var(i); }
P bin(int op, P a, P b) { return model::mk_bin(op, a, b); }
using model::mk_const;

typedef vm::ct_constant<3> C3; typedef vm::ct_constant<5000000001L> C5; typedef vm::ct_constant<-3000000007L> CM2;
typedef vm::ct_variable<0> X0; typedef vm::ct_variable<1> X1; typedef vm::ct_variable<2> X2;

P ct_expected(long n) {
  switch (n) {
    case 0: return bin(0, var(0), mk_const(3));
    case 1: return bin(2, var(1), var(2));
    case 2: return bin(2, bin(0, var(0), mk_const(3)), var(1));
    case 3: return bin(1, mk_const(5000000001.0), var(2));
    case 4: return bin(3, bin(2, var(0), var(1)), bin(0, var(2), mk_const(3)));
    case 5: return bin(3, mk_const(3), bin(1, var(0), var(1)));
    default: return bin(1, bin(3, var(2), mk_const(5000000001.0)), bin(2, mk_const(3), var(0)));
  }
}
template <class F> void with_ct(long n, F f) {
  X0 x0; X1 x1; X2 x2; C3 c3; C5 c5;
  switch (n) {
    case 0: f(x0 + c3); break;
    case 1: f(x1 * x2); break;
    case 2: f((x0 + c3) * x1); break;
    case 3: f(c5 - x2); break;
    case 4: f((x0 * x1) / (x2 + c3)); break;
    case 5: f(c3 / (x0 - x1)); break;
    default: f((x2 / c5) - (c3 * x0)); break;
  }
}

struct Source { P m; Slot* s; };
bool source(OpCtx& o, Source& r) {
  Op const& p = o.op; r.s = 0;
  switch (p.n[0]) {
    case 0: r.s = &o.w.at(S_U, p.b); break;
    case 1: r.s = &o.w.at(S_B, p.b); break;
    case 2: r.s = &o.w.at(S_V, p.b); break;
    case 3: r.s = &scratch(o, S_X, 0, var(p.n[1] & 7)); break;
    case 4: r.s = &scratch(o, S_C, 0, mk_const(p.x)); break;
    case 5: r.s = &scratch(o, S_CI, 0, mk_const((double)(int)p.x, model::C_INT)); break;
    case 6: r.s = &scratch(o, S_F, 0, model::mk_fsym(p.n[1] & 3, p.n[2] & 1)); break;
    case 7: r.m = mk_const(p.x); return true;
    case 8: r.m = var(p.n[1] % 3); return true;
    case 9: r.m = mk_const(p.n[1] % 3 == 0 ? 3 : p.n[1] % 3 == 1 ? 5000000001.0 : -3000000007.0); return true;
    case 10: r.s = &o.w.at(S_E, p.b); if (r.s->p && !r.s->m) return false; break;
    case 11: r.m = ct_expected(p.n[1] % 7); return true;
    default: return false;
  }
  if (!r.s->p) return false;
  r.m = r.s->m; o.operand(r.m);
  return true;
}
// calls f with the source object itself
template <class F> void with_source(OpCtx& o, Source const& r, F f) {
  Op const& p = o.op;
  switch (p.n[0]) {
    case 0: f(obj<LU>(*r.s)); break;
    case 1: f(obj<LB>(*r.s)); break;
    case 2: f(obj<LV>(*r.s)); break;
    case 3: f(obj<LX>(*r.s)); break;
    case 4: f(obj<LC>(*r.s)); break;
    case 5: f(obj<LCI>(*r.s)); break;
    case 6: f(obj<LF>(*r.s)); break;
    case 7: f(p.x); break;
    case 8: switch (p.n[1] % 3) { case 0: f(X0()); break; case 1: f(X1()); break; default: f(X2()); } break;
    case 9: switch (p.n[1] % 3) { case 0: f(C3()); break; case 1: f(C5()); break; default: f(CM2()); } break;
    case 11: with_ct(p.n[1] % 7, f); break;
  }
}
struct CtorE { void* mem; template <class T> void operator()(T const& t) const { new (mem) LE(t); } };
struct AssignB { LB& b; template <class T> void operator()(T const& t) const { b = t; } };
struct AssignE { LE& e; template <class T> void operator()(T const& t) const { e = t; } };
} // namespace

void x_E_CTOR_FROM(OpCtx& o) {
  Source s; NEED(source(o, s));
  Res<LE> r;
  perform(o, [&] {
    if (o.op.n[0] == 10) { const IF* p = obj<LE>(*s.s).get()->clone(); new (r.mem()) LE(p); }
    else { CtorE c = {r.mem()}; with_source(o, s, c); }
  }, [&] { finish_typed(o, r, s.m, P(), PL(), "wrong-construction", s.s && o.op.n[0] < 3 && o.op.b < SCR ? s.s : 0); }, NoFail());
}
void x_E_ASSIGN_FROM(OpCtx& o) {
  NEED(o.op.a < SCR);
  LIVE(LE, o.op.a);
  Source s; NEED(o.op.n[0] != 10 && source(o, s));
  Slot& dst = o.w.at(S_E, o.op.a); o.operand(dst.m);
  perform(o, [&] { AssignE c = {obj<LE>(dst)}; with_source(o, s, c); }, [&] {
    expect_slot(o, dst, s.m, P(), PL(), "wrong-assignment");
    if (s.s && o.op.n[0] < 3 && o.op.b < SCR && (o.op.d & 4)) { destroy(o.w, *s.s); if (dst.p && !match_slot(dst)) bad_result(o, "result-depends-on-operand", "the target changed when the source was destroyed"); }
  }, NoFail());
}
void x_E_TAKE(OpCtx& o) {
  NEED(o.op.a < SCR);
  LIVE(LE, o.op.a); LIVE(LE, o.op.b);
  Slot& dst = o.w.at(S_E, o.op.a); Slot& src = o.w.at(S_E, o.op.b);
  NEED(src.m); P m = src.m; o.operand(m); o.operand(dst.m);
  perform(o, [&] { IF* p = obj<LE>(src).get()->clone(); obj<LE>(dst) = p; }, [&] { expect_slot(o, dst, m, P(), PL(), "wrong-assignment"); }, NoFail());
}
void x_E_SWAP(OpCtx& o) {
  NEED(o.op.a < SCR && o.op.b < SCR && o.op.a != o.op.b);
  LIVE(LE, o.op.a); LIVE(LE, o.op.b);
  Slot& a = o.w.at(S_E, o.op.a); Slot& b = o.w.at(S_E, o.op.b); P ma = a.m, mb = b.m; o.operand(ma); o.operand(mb);
  o.basic_slot = &a;     // std::swap assigns a first, then b
  perform(o, [&] { std::swap(obj<LE>(a), obj<LE>(b)); }, [&] { expect_slot(o, a, mb, P(), PL(), "wrong-swap"); expect_slot(o, b, ma, P(), PL(), "wrong-swap"); },
          [&](Outcome const&) { ma = a.m; if (a.p && match_slot(a)) return; P x, y; PL l; std::string why; if (a.p && read_slot(a, x, y, l, why)) { a.m = x; ma = x; } });
}

// assigns a part of a handle's own tree to the handle
void x_E_ASSIGN_PART(OpCtx& o) {
  NEED(o.op.a < SCR);
  LIVE(LE, o.op.a);
  Slot& s = o.w.at(S_E, o.op.a); NEED(s.m);
  P m = s.m, part; int way = o.op.n[0] % 5; long which = o.op.n[1]; o.operand(m);
  if (way == 0) part = m;                                        // its own root node
  else if (m->k == model::VEC) { NEED(!m->c.empty()); which %= (long)m->c.size(); part = m->c[which]; way = 2; }   // a handle inside its own tree
  else {
    NEED(m->k == model::UN || m->k == model::BIN);
    which %= (long)m->c.size(); part = m->c[which]; if (way == 2) way = 1;
  }
  if (way == 0) NEED(m->k == model::BIN || m->k == model::UN || m->k == model::VAR || m->k == model::FSYM || m->k == model::VEC || (m->k == model::CONST && m->ct == model::C_DOUBLE));
  if (way == 1 || way == 4) NEED(part->k == model::BIN || part->k == model::UN || part->k == model::VAR || part->k == model::FSYM || part->k == model::VEC || (part->k == model::CONST && part->ct == model::C_DOUBLE));
  perform(o, [&] {
    LE& e = obj<LE>(s);
    const IF* n = e.get();
    if (way == 2) { e = (*dynamic_cast<const LV*>(n))[which]; return; }
    if (way != 0) { const LB* b = dynamic_cast<const LB*>(n); n = b ? (which ? b->rhs() : b->lhs()) : dynamic_cast<const LU*>(n)->lhs(); }
    if (way == 3) { IF* c = n->clone(); e = c; return; }
    switch (part->k) {
      case model::BIN: e = *dynamic_cast<const LB*>(n); break;
      case model::UN: e = *dynamic_cast<const LU*>(n); break;
      case model::VAR: e = *dynamic_cast<const LX*>(n); break;
      case model::FSYM: e = *dynamic_cast<const LF*>(n); break;
      case model::VEC: e = *dynamic_cast<const LV*>(n); break;
      default: e = *dynamic_cast<const LC*>(n); break;
    }
  }, [&] { expect_slot(o, s, part, P(), PL(), "wrong-assignment"); }, NoFail());
}

void x_U_ASSIGN(OpCtx& o) {
  NEED(o.op.a < SCR);
  LIVE(LU, o.op.a);
  Slot& s = o.w.at(S_U, o.op.a); int way = o.op.n[0] % 7; P m; o.operand(s.m);
  Slot* src = 0;
  switch (way) {
    case 0: src = &o.w.at(S_U, o.op.b); NEED(src->present()); m = src->m; break;
    case 1: m = model::mk_un(model::U_ID, mk_const(o.op.x)); src = &scratch(o, S_C, 0, mk_const(o.op.x)); break;
    case 2: m = model::mk_un(model::U_ID, mk_const(o.op.x)); break;
    case 3: m = model::mk_un(model::U_ID, mk_const(5000000001.0)); break;
    case 4: NEED(s.m->c[0]->k == model::UN); m = s.m->c[0]; break;
    case 5: m = s.m; break;
    default: m = model::mk_un(model::U_ID, mk_const((double)(int)o.op.x, model::C_INT)); src = &scratch(o, S_CI, 0, mk_const((double)(int)o.op.x, model::C_INT)); break;
  }
  perform(o, [&] {
    LU& u = obj<LU>(s);
    switch (way) {
      case 0: u = obj<LU>(*src); break;
      case 1: u = obj<LC>(*src); break;
      case 2: u = o.op.x; break;
      case 3: u = C5(); break;
      case 4: u = *dynamic_cast<const LU*>(u.lhs()); break;
      case 5: u = *&u; break;
      default: u = obj<LCI>(*src); break;
    }
  }, [&] {
    if (way == 0 || way >= 4) expect_slot(o, s, m, P(), PL(), "wrong-assignment");
    else {
      P a, b; PL l; std::string why; std::string err = read_slot(s, a, b, l, why) ? value_err(o, m, a, "after the assignment of a number the expression has another value") : why;
      if (!err.empty()) { bad_result(o, "wrong-assignment", "%s", err.c_str()); }
      if (a) s.m = a; else { o.w.tainted = true; destroy(o.w, s); }
      o.digest(a ? a->hash : 0);
    }
  }, NoFail());
}
void x_B_ASSIGN(OpCtx& o) {
  NEED(o.op.a < SCR);
  LIVE(LB, o.op.a);
  Slot& s = o.w.at(S_B, o.op.a); int way = o.op.n[0] % 8; P m; o.operand(s.m);
  Slot* src = 0; long which = o.op.n[1] & 1;
  switch (way) {
    case 0: src = &o.w.at(S_B, o.op.b); NEED(src->present()); m = src->m; break;
    case 1: m = mk_const(o.op.x); src = &scratch(o, S_C, 0, m); break;
    case 2: m = mk_const(o.op.x); break;
    case 3: m = mk_const(-3000000007.0); break;
    case 4: NEED(s.m->c[which]->k == model::BIN); m = s.m->c[which]; break;
    case 5: m = s.m; break;
    case 6: m = ct_expected(o.op.n[1] % 7); break;
    default: m = mk_const((double)(int)o.op.x, model::C_INT); src = &scratch(o, S_CI, 0, m); break;
  }
  perform(o, [&] {
    LB& u = obj<LB>(s);
    AssignB as = {u};
    switch (way) {
      case 0: u = obj<LB>(*src); break;
      case 1: u = obj<LC>(*src); break;
      case 2: u = o.op.x; break;
      case 3: u = CM2(); break;
      case 4: u = *dynamic_cast<const LB*>(which ? u.rhs() : u.lhs()); break;
      case 5: u = *&u; break;
      case 6: with_ct(o.op.n[1] % 7, as); break;
      default: u = obj<LCI>(*src); break;
    }
  }, [&] {
    if (way == 0 || way == 4 || way == 5 || way == 6) expect_slot(o, s, m, P(), PL(), "wrong-assignment");
    else {
      P a, b; PL l; std::string why; std::string err = read_slot(s, a, b, l, why) ? value_err(o, m, a, "after the assignment of a number the expression has another value") : why;
      if (!err.empty()) bad_result(o, "wrong-assignment", "%s", err.c_str());
      if (a) s.m = a; else { o.w.tainted = true; destroy(o.w, s); }
      o.digest(a ? a->hash : 0);
    }
  }, NoFail());
}

// ---- vectors
void x_V_SET(OpCtx& o) {
  NEED(o.op.a < SCR);
  LIVE(LV, o.op.a);
  Slot& s = o.w.at(S_V, o.op.a); NEED(!s.m->c.empty());
  int way = o.op.n[0] % 4; size_t i = o.op.n[1] % s.m->c.size(), j = o.op.n[2] % s.m->c.size(); P v; Slot* src = 0; o.operand(s.m);
  switch (way) {
    case 0: src = &o.w.at(S_E, o.op.b); NEED(src->present() && src->m && src->m->size < 60 && src->m->k != model::VEC); v = src->m; break;
    case 1: v = s.m->c[j]; break;
    case 2: v = var(o.op.n[2] & 3); src = &scratch(o, S_X, 0, v); break;
    default: v = mk_const(o.op.x); break;
  }
  std::vector<P> e = s.m->c; e[i] = v; P m = model::mk_vec(e);
  perform(o, [&] {
    LV& x = obj<LV>(s);
    switch (way) { case 0: x[i] = obj<LE>(*src); break; case 1: x[i] = x[j]; break; case 2: x[i] = obj<LX>(*src); break; default: x[i] = o.op.x; }
  }, [&] { expect_slot(o, s, m, P(), PL(), "wrong-element"); }, NoFail());
}
void x_V_RESIZE(OpCtx& o) {
  NEED(o.op.a < SCR);
  LIVE(LV, o.op.a);
  Slot& s = o.w.at(S_V, o.op.a);
  int way = o.op.n[0] % 4; size_t n = s.m->c.size(); Slot* src = 0; std::vector<P> e = s.m->c; size_t j = n ? o.op.n[1] % n : 0; o.operand(s.m);
  switch (way) {
    case 0: src = &o.w.at(S_E, o.op.b); NEED(n < 24 && src->present() && src->m && src->m->size < 40 && src->m->k != model::VEC); e.push_back(src->m); break;
    case 1: NEED(n > 1); e.pop_back(); break;
    case 2: NEED(n > 1); e.erase(e.begin() + j); o.basic_slot = &s; break;
    default: NEED(n > 0 && n < 24); e.push_back(e[j]); break;
  }
  P m = model::mk_vec(e); bool first = true;
  perform(o, [&] {
    LV& x = obj<LV>(s);
    switch (way) { case 0: x.push_back(obj<LE>(*src)); break; case 1: x.pop_back(); break; case 2: if (first) x.erase(x.begin() + j); break; default: x.push_back(x[j]); }
  }, [&] { if (way == 2 && !first) return; expect_slot(o, s, m, P(), PL(), "wrong-element"); }, [&](Outcome const&) { if (way == 2) first = false; });
}

// ---- equations and intervals
namespace {
template <class T> void pair_ctor(OpCtx& o) {
  LIVE(LE, o.op.b); if (!o.op.n[1]) LIVE(LE, o.op.c);
  Slot& x = o.w.at(S_E, o.op.b); NEED(x.m);
  P other; if (o.op.n[1]) { Rng r(o.op.n[2]); other = o.op.n[1] == 1 ? model::mutate(r, x.m) : x.m; }   // nearly the same, or the same built once more
  Slot& y = other ? scratch(o, S_E, 0, other) : o.w.at(S_E, o.op.c); NEED(y.m); P a = x.m, b = y.m; o.operand(a); o.operand(b);
  Res<T> r;
  perform(o, [&] { new (r.mem()) T(obj<LE>(x), obj<LE>(y)); }, [&] { finish_typed(o, r, a, b, PL(), "wrong-construction", o.op.b < SCR ? &x : 0); }, NoFail());
}
}
void x_Q_CTOR(OpCtx& o) { pair_ctor<LQ>(o); }
void x_I_CTOR(OpCtx& o) { pair_ctor<LI>(o); }
void x_Q_PART(OpCtx& o) {
  NEED(o.op.a < SCR);
  LIVE(LQ, o.op.a);
  Slot& s = o.w.at(S_Q, o.op.a); NEED(s.m && s.m2); P a = s.m, b = s.m2; int way = o.op.n[0] & 1; o.operand(a); o.operand(b);
  perform(o, [&] { LQ& q = obj<LQ>(s); if (way) q = LQ(q.rhs(), q.lhs()); else q = LQ(q.lhs(), q.lhs()); },
          [&] { expect_slot(o, s, way ? b : a, a, PL(), "wrong-assignment"); }, NoFail());
}
void x_I_PART(OpCtx& o) {
  NEED(o.op.a < SCR);
  LIVE(LI, o.op.a);
  Slot& s = o.w.at(S_I, o.op.a); P a = s.m, b = s.m2; int way = o.op.n[0] & 1; o.operand(a); o.operand(b);
  perform(o, [&] { LI& q = obj<LI>(s); if (way) q = LI(q.upper(), q.lower()); else q = LI(q.lower(), q.lower()); },
          [&] { expect_slot(o, s, way ? b : a, a, PL(), "wrong-assignment"); }, NoFail());
}

// ---- handles in standard containers
void x_W_OP(OpCtx& o) {
  NEED(o.op.a < SCR);
  Slot& s = o.w.at(S_W, o.op.a);
  if (!s.p) build_slot(s, P(), P());
  int way = o.op.n[0] % 8; PL l = s.list; Slot* src = 0; size_t n = l.size(), j = n ? o.op.n[1] % n : 0;
  switch (way) {
    case 0: case 4: case 5: src = &o.w.at(S_E, o.op.b); NEED(src->present() && (!src->m || src->m->size < 60)); break;
    case 1: case 2: case 3: case 6: NEED(n > 0); break;
  }
  bool basic = false;
  switch (way) {
    case 0: NEED(n < 8); l.push_back(src->m); break;
    case 1: l.pop_back(); break;
    case 2: l.erase(l.begin() + j); basic = true; break;
    case 3: NEED(n < 8); l.push_back(l[0]); break;
    case 4: NEED(n < 8); l.insert(l.begin() + j, src->m); basic = true; break;
    case 5: NEED(n > 0); l[j] = src->m; break;
    case 6: l[j] = l[0]; break;
    default: l.clear(); break;
  }
  if (basic) o.basic_slot = &s;
  for (size_t i = 0; i < l.size(); ++i) o.operand(l[i]);
  bool failed = false;
  perform(o, [&] {
    LW& w = obj<LW>(s);
    switch (way) {
      case 0: w.push_back(obj<LE>(*src)); break;
      case 1: w.pop_back(); break;
      case 2: if (!failed) w.erase(w.begin() + j); break;
      case 3: w.push_back(w[0]); break;
      case 4: if (!failed) w.insert(w.begin() + j, obj<LE>(*src)); break;
      case 5: w[j] = obj<LE>(*src); break;
      case 6: w[j] = w[0]; break;
      default: w.clear(); break;
    }
  }, [&] { if (basic && failed) return; expect_slot(o, s, P(), P(), l, "wrong-container"); }, [&](Outcome const&) { failed = true; });
}

void x_MIX(OpCtx& o) {
  NEED(o.op.a < SCR);
  LIVE(LE, o.op.a); LIVE(LE, o.op.b);
  Slot& s = o.w.at(S_E, o.op.a); Slot& f = o.w.at(S_E, o.op.b); NEED(s.m && f.m && s.m->size + f.m->size < 120);
  int op = o.op.n[0] & 3; P m = op == model::B_PLUS ? bin(0, s.m, f.m) : bin(op, s.m, f.m); o.operand(s.m); o.operand(f.m);
  perform(o, [&] {
    LE& e = obj<LE>(s); LE& g = obj<LE>(f);
    switch (op) { case 0: e = e + g; break; case 1: e = e - g; break; case 2: e = e * g; break; default: e = e / g; }
  }, [&] {
    P a, b; PL l; std::string why; std::string err = read_slot(s, a, b, l, why) ? value_err(o, m, a, "wrong value") : why;
    if (!err.empty()) bad_result(o, "wrong-assignment", "%s", err.c_str());
    if (a) s.m = a; else { o.w.tainted = true; destroy(o.w, s); }
    o.digest(a ? a->hash : 0);
  }, NoFail());
}

void x_EQUAL(OpCtx& o) {
  LIVE(LE, o.op.b); if (!o.op.n[1]) LIVE(LE, o.op.c);
  Slot& x = o.w.at(S_E, o.op.b); NEED(x.m);
  P other; if (o.op.n[1]) { Rng r(o.op.n[2]); other = o.op.n[1] == 1 ? model::mutate(r, x.m) : x.m; }   // nearly the same, or the same built once more
  Slot& y = other ? scratch(o, S_E, 0, other) : o.w.at(S_E, o.op.c); NEED(y.m); P a = x.m, b = y.m; o.operand(a); o.operand(b);
  bool deep = !(o.op.n[0] & 1), r = false;
  perform(o, [&] { const IF* p = obj<LE>(x).get(); const IF* q = obj<LE>(y).get(); r = deep ? p->deep_equal(q) : p->shallow_equal(q); }, [&] {
    bool e = deep ? model::deep_equal(a, b) : model::shallow_equal(a, b); o.digest(r);
    if (e != r) bad_result(o, deep ? "deep-equal" : "shallow-equal", "%s_equal gives %s for %s and %s", deep ? "deep" : "shallow", r ? "true" : "false", show2(a).c_str(), show2(b).c_str());
  }, NoFail());
}
