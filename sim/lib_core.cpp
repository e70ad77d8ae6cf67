// Core of the instrumented side: reading objects back, running attempts with faults, checking all live objects, running plans.
#include "lib_common.hpp"
#include <typeinfo>

const char* const slot_letters = "EUBVQITNWXCKF";

// kernel callback
namespace sim { void throw_user_fault(int where, bool std_derived) { if (std_derived) throw UserStdFault(where); InjectedFault f; f.where = where; throw f; } }

uint64_t hash_str(std::string const& s) { uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char)s[i]; h *= 1099511628211ULL; } return h; }
std::string show2(P const& t) { std::string s = model::show(t); if (s.size() > 700) s = s.substr(0, 700) + "..."; return s; }

// ------------------------------------------------------------------ reading back
namespace {
struct Reader { int budget, depth; bool bad; std::string why; Reader() : budget(60000), depth(0), bad(false) {} P fail(const char* w) { if (!bad) { bad = true; why = w; } return P(); } };

#define UOPTYPE(T) vm::op_unary<vm::T<double>, IF>
#define BOPTYPE(T) vm::op_binary<vm::T<double>, IF>
typedef UOPTYPE(op_partial_deriv) OpPartial;
typedef vm::op_unary<vm::op_rt_integral<IF>, IF> OpInt;
typedef vm::op_unary<vm::op_rt_symbolic_integral<IF>, IF> OpSym;

enum NodeKind { K_BAD, K_U, K_B, K_V, K_X, K_F, K_C, K_CI, K_CF, K_CL, K_P };

template <class T> inline bool is(const std::type_info* t) { return t == &typeid(T); }
template <class T, class B> inline bool isd(B* p) { return dynamic_cast<const T*>(p) != 0; }

NodeKind kind_of(const IF* p) {
  ModeGuard g(sim::CHECK);
  const std::type_info* t = &typeid(*p);
  if (is<LB>(t)) return K_B;
  if (is<LC>(t)) return K_C;
  if (is<LX>(t)) return K_X;
  if (is<LU>(t)) return K_U;
  if (is<LF>(t)) return K_F;
  if (is<LV>(t)) return K_V;
  if (is<LCI>(t)) return K_CI;
  if (is<vm::rt_constant<float> >(t)) return K_CF;
  if (is<vm::rt_constant<long> >(t)) return K_CL;
  if (is<Probe>(t)) return K_P;
  if (isd<LB>(p)) return K_B;
  if (isd<LC>(p)) return K_C;
  if (isd<LX>(p)) return K_X;
  if (isd<LU>(p)) return K_U;
  if (isd<LF>(p)) return K_F;
  if (isd<LV>(p)) return K_V;
  if (isd<LCI>(p)) return K_CI;
  if (isd<vm::rt_constant<float> >(p)) return K_CF;
  if (isd<vm::rt_constant<long> >(p)) return K_CL;
  if (isd<Probe>(p)) return K_P;
  return K_BAD;
}

int uop_of(const OIF* o) {
  ModeGuard g(sim::CHECK);
  const std::type_info& t = typeid(*o);
  if (t == typeid(UOPTYPE(op_id))) return model::U_ID;
  if (t == typeid(UOPTYPE(op_exp))) return model::U_EXP;
  if (t == typeid(UOPTYPE(op_sin))) return model::U_SIN;
  if (t == typeid(UOPTYPE(op_cos))) return model::U_COS;
  if (t == typeid(UOPTYPE(op_tan))) return model::U_TAN;
  if (t == typeid(UOPTYPE(op_fabs))) return model::U_FABS;
  if (t == typeid(UOPTYPE(op_sqrt))) return model::U_SQRT;
  if (t == typeid(UOPTYPE(op_log))) return model::U_LOG;
  if (t == typeid(UOPTYPE(op_log10))) return model::U_LOG10;
  if (t == typeid(UOPTYPE(op_gradient))) return model::U_GRAD;
  if (t == typeid(UOPTYPE(op_divergence))) return model::U_DIV;
  if (t == typeid(OpPartial)) return model::U_PARTIAL;
  if (t == typeid(OpInt)) return model::U_INT;
  if (t == typeid(OpSym)) return model::U_SYMINT;
  return -1;
}
int bop_of(const OIF* o) {
  ModeGuard g(sim::CHECK);
  const std::type_info& t = typeid(*o);
  if (t == typeid(BOPTYPE(op_plus))) return model::B_PLUS;
  if (t == typeid(BOPTYPE(op_minus))) return model::B_MINUS;
  if (t == typeid(BOPTYPE(op_mult))) return model::B_MULT;
  if (t == typeid(BOPTYPE(op_div))) return model::B_DIV;
  return -1;
}

#define READ(TYPE, VAR, EXPR) TYPE VAR; { ModeGuard g_(sim::CHECK); VAR = EXPR; }

P rd(const IF* p, Reader& r) {
  if (r.bad) return P();
  if (!p) return r.fail("a node is missing");
  struct Nest { Reader& r; Nest(Reader& x) : r(x) { ++r.depth; } ~Nest() { --r.depth; } } nest(r);
  if (--r.budget < 0 || r.depth > 3000) return r.fail("too many nodes, or a cycle");
  if (!sim::accessible(p, sizeof(void*))) return r.fail("a node lies in memory that is released or not part of the heap");
  switch (kind_of(p)) {
    case K_C: { READ(double, v, (double)*static_cast<const LC*>(p)) return model::mk_const(v); }
    case K_CI: { READ(int, v, (int)*static_cast<const LCI*>(p)) return model::mk_const(v, model::C_INT); }
    case K_CF: { READ(float, v, (float)*static_cast<const vm::rt_constant<float>*>(p)) return model::mk_const(v, model::C_FLOAT); }
    case K_CL: { READ(long, v, (long)*static_cast<const vm::rt_constant<long>*>(p)) return model::mk_const(v, model::C_LONG); }
    case K_X: { READ(long, v, (long)static_cast<const LX*>(p)->id()) return model::mk_var(v); }
    case K_F: { READ(long, a, (long)static_cast<const LF*>(p)->id()) READ(long, b, (long)static_cast<const LF*>(p)->tag_id()) return model::mk_fsym(a, b); }
    case K_P: { const Probe* q = static_cast<const Probe*>(p); READ(long, a, q->id_) READ(double, v, q->val_) READ(double, d, q->dval_) READ(long, l, q->layers_) return model::mk_probe(a, v, d, l); }
    case K_B: {
      const LB* b = static_cast<const LB*>(p);
      READ(const IF*, x, b->lhs()) READ(const OIF*, o, b->op()) READ(const IF*, y, b->rhs())
      if (!o || !sim::accessible(o, sizeof(void*))) return r.fail("the operation of a binary node is missing or released");
      int op = bop_of(o); if (op < 0) return r.fail("unknown binary operation");
      P l = rd(x, r); if (r.bad) return P();
      P rr = rd(y, r); if (r.bad) return P();
      return model::mk_bin(op, l, rr);
    }
    case K_U: {
      const LU* u = static_cast<const LU*>(p);
      READ(const IF*, x, u->lhs()) READ(const OIF*, o, u->op())
      if (!o || !sim::accessible(o, sizeof(void*))) return r.fail("the operation of a unary node is missing or released");
      int op = uop_of(o); if (op < 0) return r.fail("unknown unary operation");
      P l = rd(x, r); if (r.bad) return P();
      if (op == model::U_PARTIAL) { READ(long, id, (long)static_cast<const OpPartial*>(o)->op().id()) return model::mk_un(op, l, id); }
      if (op == model::U_SYMINT) { READ(long, id, (long)static_cast<const OpSym*>(o)->op().interval().id()) return model::mk_un(op, l, id); }
      if (op == model::U_INT) {
        const OpInt* i = static_cast<const OpInt*>(o);
        READ(long, id, (long)i->op().variable().id()) READ(const IF*, lo, i->op().interval().lower().get()) READ(const IF*, hi, i->op().interval().upper().get())
        P a = rd(lo, r); if (r.bad) return P();
        P b = rd(hi, r); if (r.bad) return P();
        return model::mk_un(op, l, id, a, b);
      }
      return model::mk_un(op, l);
    }
    case K_V: {
      const LV* v = static_cast<const LV*>(p); std::vector<P> e;
      READ(size_t, n, v->size())
      if (n > 1000) return r.fail("absurd vector size");
      for (size_t i = 0; i < n; ++i) { READ(const IF*, q, (*v)[i].get()) e.push_back(rd(q, r)); if (r.bad) return P(); }
      return model::mk_vec(e);
    }
    default: return r.fail("a node of unknown type");
  }
}

// the same comparison without building anything: does the object match the model?
bool match(const IF* p, P const& m, int& budget) {
  if (!p || !m) return !p && !m;
  if (--budget < 0) return false;
  if (!sim::accessible(p, sizeof(void*))) return false;
  ModeGuard g(sim::CHECK);
  switch (kind_of(p)) {
    case K_C: return m->k == model::CONST && m->ct == model::C_DOUBLE && ((double)*static_cast<const LC*>(p) == m->val || (m->val != m->val && (double)*static_cast<const LC*>(p) != (double)*static_cast<const LC*>(p)));
    case K_CI: return m->k == model::CONST && m->ct == model::C_INT && (int)*static_cast<const LCI*>(p) == m->val;
    case K_CF: return m->k == model::CONST && m->ct == model::C_FLOAT && (float)*static_cast<const vm::rt_constant<float>*>(p) == m->val;
    case K_CL: return m->k == model::CONST && m->ct == model::C_LONG && (long)*static_cast<const vm::rt_constant<long>*>(p) == m->val;
    case K_X: return m->k == model::VAR && (long)static_cast<const LX*>(p)->id() == m->id;
    case K_F: return m->k == model::FSYM && (long)static_cast<const LF*>(p)->id() == m->id && (long)static_cast<const LF*>(p)->tag_id() == m->tag;
    case K_P: { const Probe* q = static_cast<const Probe*>(p); return m->k == model::PROBE && q->id_ == m->id && q->val_ == m->val && q->dval_ == m->dval && q->layers_ == m->tag; }
    case K_B: {
      const LB* b = static_cast<const LB*>(p);
      if (m->k != model::BIN) return false;
      const OIF* o = b->op();
      return o && sim::accessible(o, sizeof(void*)) && bop_of(o) == m->op && match(b->lhs(), m->c[0], budget) && match(b->rhs(), m->c[1], budget);
    }
    case K_U: {
      const LU* u = static_cast<const LU*>(p);
      if (m->k != model::UN) return false;
      const OIF* o = u->op();
      if (!o || !sim::accessible(o, sizeof(void*)) || uop_of(o) != m->op) return false;
      if (m->op == model::U_PARTIAL && (long)static_cast<const OpPartial*>(o)->op().id() != m->id) return false;
      if (m->op == model::U_SYMINT && (long)static_cast<const OpSym*>(o)->op().interval().id() != m->id) return false;
      if (m->op == model::U_INT) {
        const OpInt* i = static_cast<const OpInt*>(o);
        if ((long)i->op().variable().id() != m->id || !match(i->op().interval().lower().get(), m->lo, budget) || !match(i->op().interval().upper().get(), m->hi, budget)) return false;
      }
      return match(u->lhs(), m->c[0], budget);
    }
    case K_V: {
      const LV* v = static_cast<const LV*>(p);
      if (m->k != model::VEC || v->size() != m->c.size()) return false;
      for (size_t i = 0; i < m->c.size(); ++i) if (!match((*v)[i].get(), m->c[i], budget)) return false;
      return true;
    }
    default: return false;
  }
}
bool match(const IF* p, P const& m) { int b = 60000; return match(p, m, b); }
bool match_e(LE const& e, P const& m) { const IF* p; { ModeGuard g(sim::CHECK); p = e.get(); } return match(p, m); }
} // namespace

P walk(const IF* p, bool& bad, std::string* why) { Reader r; P t = rd(p, r); bad = r.bad; if (why) *why = r.why; return r.bad ? P() : t; }
P walk_expr(LE const& e, bool& bad, std::string* why) {
  const IF* p; { ModeGuard g(sim::CHECK); p = e.get(); }
  if (!p) { bad = false; return P(); }
  return walk(p, bad, why);
}

bool match_slot(Slot& s) {
  switch (s.type) {
    case S_E: return match_e(obj<LE>(s), s.m);
    case S_U: return match(&obj<LU>(s), s.m);
    case S_B: return match(&obj<LB>(s), s.m);
    case S_V: return match(&obj<LV>(s), s.m);
    case S_X: return match(&obj<LX>(s), s.m);
    case S_C: return match(&obj<LC>(s), s.m);
    case S_CI: return match(&obj<LCI>(s), s.m);
    case S_F: return match(&obj<LF>(s), s.m);
    case S_Q: { LQ& q = obj<LQ>(s); const LE *a, *b; { ModeGuard g(sim::CHECK); a = &q.lhs(); b = &q.rhs(); } return match_e(*a, s.m) && match_e(*b, s.m2); }
    case S_I: { LI& q = obj<LI>(s); const LE *a, *b; { ModeGuard g(sim::CHECK); a = &q.lower(); b = &q.upper(); } return match_e(*a, s.m) && match_e(*b, s.m2); }
    case S_W: {
      LW& w = obj<LW>(s); size_t n; { ModeGuard g(sim::CHECK); n = w.size(); }
      if (n != s.list.size()) return false;
      for (size_t i = 0; i < n; ++i) { const LE* e; { ModeGuard g(sim::CHECK); e = &w[i]; } if (!match_e(*e, s.list[i])) return false; }
      return true;
    }
    default: return true;   // translators and quadrature objects have no readable state; they are checked by using them
  }
}

bool read_slot(Slot& s, P& m, P& m2, std::vector<P>& l, std::string& why) {
  bool bad = false; m = P(); m2 = P(); l.clear();
  switch (s.type) {
    case S_E: m = walk_expr(obj<LE>(s), bad, &why); break;
    case S_U: m = walk(&obj<LU>(s), bad, &why); break;
    case S_B: m = walk(&obj<LB>(s), bad, &why); break;
    case S_V: m = walk(&obj<LV>(s), bad, &why); break;
    case S_X: m = walk(&obj<LX>(s), bad, &why); break;
    case S_C: m = walk(&obj<LC>(s), bad, &why); break;
    case S_CI: m = walk(&obj<LCI>(s), bad, &why); break;
    case S_F: m = walk(&obj<LF>(s), bad, &why); break;
    case S_Q: { LQ& q = obj<LQ>(s); const LE *a, *b; { ModeGuard g(sim::CHECK); a = &q.lhs(); b = &q.rhs(); } m = walk_expr(*a, bad, &why); if (!bad) m2 = walk_expr(*b, bad, &why); break; }
    case S_I: { LI& q = obj<LI>(s); const LE *a, *b; { ModeGuard g(sim::CHECK); a = &q.lower(); b = &q.upper(); } m = walk_expr(*a, bad, &why); if (!bad) m2 = walk_expr(*b, bad, &why); break; }
    case S_W: {
      LW& w = obj<LW>(s); size_t n; { ModeGuard g(sim::CHECK); n = w.size(); }
      if (n > 1000) { why = "absurd size"; return false; }
      for (size_t i = 0; i < n && !bad; ++i) { const LE* e; { ModeGuard g(sim::CHECK); e = &w[i]; } l.push_back(walk_expr(*e, bad, &why)); }
      break;
    }
    default: m = s.m; m2 = s.m2; l = s.list;
  }
  return !bad;
}

std::string show_slot(Slot& s) {
  if (!s.p) return "(missing)";
  switch (s.type) {
    case S_Q: return show2(s.m) + " = " + show2(s.m2);
    case S_I: return "[" + show2(s.m) + ", " + show2(s.m2) + "]";
    case S_W: { std::string r = "{"; for (size_t i = 0; i < s.list.size(); ++i) r += (i ? ", " : "") + show2(s.list[i]); return r + "}"; }
    case S_T: return "translator";
    case S_N: return "quadrature";
    default: return show2(s.m);
  }
}

// ------------------------------------------------------------------ building and destroying
static OIF* build_uop(P const& t) {
  switch (t->op) {
#define U(c, T) case model::c: return new UOPTYPE(T)();
    U(U_ID, op_id) U(U_EXP, op_exp) U(U_SIN, op_sin) U(U_COS, op_cos) U(U_TAN, op_tan) U(U_FABS, op_fabs) U(U_SQRT, op_sqrt) U(U_LOG, op_log) U(U_LOG10, op_log10)
    U(U_GRAD, op_gradient) U(U_DIV, op_divergence)
#undef U
    case model::U_PARTIAL: return new OpPartial(vm::op_partial_deriv<double>(t->id));
    case model::U_SYMINT: return new OpSym(vm::op_rt_symbolic_integral<IF>(vm::rt_symbolic_interval<IF>(t->id)));
    case model::U_INT: { LE a(build_node(t->lo)), b(build_node(t->hi)); return new OpInt(vm::op_rt_integral<IF>(LI(a, b), LX(t->id))); }
  }
  return 0;
}
static OIF* build_bop(int op) {
  switch (op) {
    case model::B_PLUS: return new BOPTYPE(op_plus)();
    case model::B_MINUS: return new BOPTYPE(op_minus)();
    case model::B_MULT: return new BOPTYPE(op_mult)();
    default: return new BOPTYPE(op_div)();
  }
}
static IF* build_const(P const& t) {
  switch (t->ct) {
    case model::C_INT: return new LCI((int)t->val);
    case model::C_FLOAT: return new vm::rt_constant<float>((float)t->val);
    case model::C_LONG: return new vm::rt_constant<long>((long)t->val);
    default: return new LC(t->val);
  }
}
static void fill_vec(LV& v, P const& t) { for (size_t i = 0; i < t->c.size(); ++i) v[i] = build_node(t->c[i]); }
IF* build_node(P const& t) {
  switch (t->k) {
    case model::CONST: return build_const(t);
    case model::VAR: return new LX(t->id);
    case model::FSYM: return new LF((vm::id_type)t->id, (vm::id_type)t->tag);
    case model::PROBE: return new Probe(t->id, t->val, t->dval, t->tag);
    case model::UN: { IF* a = build_node(t->c[0]); return new LU(a, build_uop(t)); }
    case model::BIN: { IF* a = build_node(t->c[0]); IF* b = build_node(t->c[1]); return new LB(a, build_bop(t->op), b); }
    case model::VEC: { LV* v = new LV(t->c.size()); fill_vec(*v, t); return v; }
  }
  return 0;
}

void build_slot(Slot& s, P const& m, P const& m2) {
  ModeGuard g(sim::SETUP);
  static const size_t sizes[S_NTYPES] = {sizeof(LE), sizeof(LU), sizeof(LB), sizeof(LV), sizeof(LQ), sizeof(LI), sizeof(LT), sizeof(LN), sizeof(LW), sizeof(LX), sizeof(LC), sizeof(LCI), sizeof(LF)};
  void* p = sim::arena_alloc(sizes[s.type], 2);
  if (!p) sim::internal_error("simulated heap is full");
  switch (s.type) {
    case S_E: { LE* e = new (p) LE(); if (m) *e = build_node(m); break; }
    case S_U: { IF* a = build_node(m->c[0]); new (p) LU(a, build_uop(m)); break; }
    case S_B: { IF* a = build_node(m->c[0]); IF* b = build_node(m->c[1]); new (p) LB(a, build_bop(m->op), b); break; }
    case S_V: { LV* v = new (p) LV(m->c.size()); fill_vec(*v, m); break; }
    case S_Q: { if (!m) { new (p) LQ(); break; } LE a(build_node(m)), b(build_node(m2)); new (p) LQ(a, b); break; }
    case S_I: { if (!m) { new (p) LI(); break; } LE a(build_node(m)), b(build_node(m2)); new (p) LI(a, b); break; }
    case S_W: new (p) LW(); break;
    case S_X: new (p) LX(m->id); break;
    case S_C: new (p) LC(m->val); break;
    case S_CI: new (p) LCI((int)m->val); break;
    case S_F: new (p) LF((vm::id_type)m->id, (vm::id_type)m->tag); break;
    default: sim::internal_error("cannot build this object");
  }
  s.p = p;
  g.c->mode = sim::OFF;
  if (s.type == S_I && !m) { s.m = model::mk_const(0); s.m2 = model::mk_const(1); }
  else { s.m = m; s.m2 = m2; }
}

static void end_of_life(Slot& s) {
  Ctx* c = sim::ctx();
  c->steps = 0; c->allocs = 0; c->ucalls = 0; c->fail_at = 0; c->fail_from = ~0ULL; c->ufail_at = 0; c->faulty = false;
  ModeGuard g(sim::LIB);
  switch (s.type) {
    case S_E: obj<LE>(s).~LE(); break;
    case S_U: obj<LU>(s).~LU(); break;
    case S_B: obj<LB>(s).~LB(); break;
    case S_V: obj<LV>(s).~LV(); break;
    case S_Q: obj<LQ>(s).~LQ(); break;
    case S_I: obj<LI>(s).~LI(); break;
    case S_T: obj<LT>(s).~LT(); break;
    case S_N: obj<LN>(s).~LN(); break;
    case S_W: obj<LW>(s).~LW(); break;
    case S_X: obj<LX>(s).~LX(); break;
    case S_C: obj<LC>(s).~LC(); break;
    case S_CI: obj<LCI>(s).~LCI(); break;
    case S_F: obj<LF>(s).~LF(); break;
  }
}
void free_handle(Slot& s) {
  if (s.p) { ModeGuard g(sim::SETUP); sim::arena_free(s.p); }
  s.p = 0; s.m.reset(); s.m2.reset(); s.list.clear(); s.names = model::Names(); s.qkind = s.qparam = 0;
}
void destroy(World&, Slot& s) {
  if (!s.p) return;
  end_of_life(s);
  free_handle(s);
}
static void take(Slot& d, Slot& s) { d.p = s.p; d.m = s.m; d.m2 = s.m2; d.list = s.list; d.names = s.names; d.qkind = s.qkind; d.qparam = s.qparam; s.p = 0; }
void commit(OpCtx& o, Slot& res, Slot& target) { if (target.p) destroy(o.w, target); take(target, res); }
void drop_result(OpCtx& o, Slot& res) { destroy(o.w, res); }

Slot& scratch(OpCtx& o, int type, int i, P const& m, P const& m2) {
  Slot& s = o.w.s[type][SCR + i];
  if (!s.p) build_slot(s, m, m2);
  return s;
}

// ------------------------------------------------------------------ attempts
static unsigned classify() {
  using namespace model;
  try { throw; }
  catch (sim::InjectedFault&) { return X_USER; }
  catch (UserStdFault&) { return X_USERSTD; }
  catch (vm::expression_not_evaluable_exception&) { return X_NOTEVAL; }
  catch (vm::expression_not_unwrappable_exception&) { return X_NOTUNWRAP; }
  catch (vm::expression_not_differentiable_exception&) { return X_NOTDIFF; }
  catch (vm::variable_index_out_of_bounds_exception&) { return X_BOUNDS; }
  catch (vm::analytic_integration_not_supported_exception&) { return X_ANALYTIC; }
  catch (vm::symbolic_integral_evaluation_not_possible_exception&) { return X_SYMINT; }
  catch (vm::integration_without_integral_exception&) { return X_NOINT; }
  catch (std::bad_alloc&) { return X_BADALLOC; }
  catch (std::ios_base::failure&) { return X_IOS; }
  catch (std::exception&) { return X_OTHERSTD; }
  catch (const char* s) { return s && *s ? X_CHARP : X_OTHER; }
  catch (...) { return X_OTHER; }
}

// the message of an exception, looked at while the exception is alive
static void check_text(std::exception const& e) {
  const char* s; size_t n = 0; const char* bad = 0;
  { ModeGuard g(sim::CHECK);
    s = e.what();
    if (!s) bad = "what() is null";
    else {
      char here; uintptr_t d = (uintptr_t)s - (uintptr_t)&here + (64u << 10);
      if (d < (2u << 20) + (64u << 10)) bad = "what() points into a stack frame that is gone";
      else if (sim::in_arena(s) && !sim::accessible(s, 1)) bad = "what() points to released memory";
      else {
        while (n < 4096) { if (sim::in_arena(s + n) && !sim::accessible(s + n, 1)) { bad = "what() runs into released memory"; break; } if (!s[n]) break; unsigned char c = s[n]; if (c < 9 || c > 126) { bad = "what() is not text"; break; } ++n; }
        if (!bad && (n == 0 || n == 4096)) bad = "what() is empty or endless";
        if (!bad) { const char* s2 = e.what(); for (size_t i = 0; i <= n; ++i) if (s2[i] != s[i]) { bad = "what() changes between calls"; break; } }
      }
    }
  }
  if (bad) sim::violation(sim::V_RESULT, "exception-text", "%s", bad);
}
unsigned classify_and_check() {
  try { throw; }
  catch (UserStdFault&) { }
  catch (std::ios_base::failure&) { }
  catch (std::exception& e) { sim::stats().excs++; check_text(e); }
  catch (...) { }
  return classify();
}

void skip(OpCtx& o, const char*) { sim::stats().skipped_ops++; o.digest(3); }

std::string describe_op(OpCtx& o) {
  Op const& p = o.op; char b[200];
  snprintf(b, sizeof b, "op %d %s(a=%d b=%d c=%d d=%d n=%ld,%ld,%ld,%ld)", o.idx, op_names[p.code], p.a, p.b, p.c, p.d, p.n[0], p.n[1], p.n[2], p.n[3]);
  std::string s = b;
  for (int i = 0; i < 3; ++i) if (p.t[i]) s += " " + show2(p.t[i]);
  return s;
}
std::string describe_operands(OpCtx& o) {
  std::string s; int seen[3] = {o.op.a, o.op.b, o.op.c};
  for (int t = 0; t < S_NTYPES; ++t) for (int k = 0; k < 3; ++k) {
    int i = seen[k]; bool dup = false; for (int j = 0; j < k; ++j) if (seen[j] == i) dup = true;
    if (dup || i < 0 || (i >= NSLOT && i < 100) || (i >= 100 && (!o.w.sh || i - 100 >= NSLOT))) continue;
    Slot& sl = o.w.at(t, i); if (!sl.p) continue;
    std::string x = show_slot(sl); if (x.size() > 300) x = x.substr(0, 300) + "...";
    char b[20]; snprintf(b, sizeof b, "; %c%d=", slot_letters[t], i); s += b + x;
  }
  return s;
}
void bad_result(OpCtx& o, const char* key, const char* fmt, ...) {
  char buf[3000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  std::string k = std::string(op_names[o.op.code]) + ":" + key;
  sim::violation(o.w.after_fault_only && !o.retried ? 0u : (unsigned)sim::V_RESULT | (o.retried || o.w.failed ? (unsigned)sim::V_CARRY : 0u), k.c_str(), "%s: %s%s", describe_op(o).c_str(), buf, describe_operands(o).c_str());
}
std::string value_err(OpCtx& o, P const& expected, P const& act, const char* what) {
  if (!act) return "the result is empty";
  std::string why; sim::stats().compared++;
  int r = model::compare(expected, act, expected->hash, o.dim, &why);
  if (r < 0) sim::stats().skipped_points++;
  if (r == 0) return std::string(what) + ": " + why + "; expected " + show2(expected);
  return std::string();
}

void begin_attempt(OpCtx& o, FaultSpec const* f, uint64_t k) {
  Ctx* c = sim::ctx();
  c->steps = 0; c->allocs = c->frees = c->ucalls = 0; c->fail_at = 0; c->fail_from = ~0ULL; c->ufail_at = 0; c->ufail_std = 0; c->fired_total = 0;
  c->op = o.idx; c->attempt = ++o.attempts; c->faulty = f != 0;
  Sink& s = o.w.sink; s.len = 0; s.kind = 0; s.left = 0; s.fired = false;
  if (f) {
    sim::stats().planned[f->kind]++;
    switch (f->kind) {
      case sim::F_ALLOC_AT: c->fail_at = k; break;
      case sim::F_ALLOC_FROM: c->fail_from = k; break;
      case sim::F_USER_AT: c->ufail_at = k; c->ufail_std = 0; break;
      case sim::F_USER_STD_AT: c->ufail_at = k; c->ufail_std = 1; break;
      case sim::F_SINK_FAIL: case sim::F_SINK_SHORT: case sim::F_SINK_THROW: s.kind = f->kind; s.left = k; break;
    }
  }
  sim::stats().attempts++;
}

void (*note_state)(uint64_t, bool) = 0;
void (*note_interleaving)(uint64_t) = 0;

void end_attempt(OpCtx& o, FaultSpec const* f, uint64_t k, Outcome const& r) {
  Ctx* c = sim::ctx();
  c->fail_at = 0; c->fail_from = ~0ULL; c->ufail_at = 0;
  sim::stats().hb++;
  if (r.ok) sim::stats().ok_attempts++; else sim::stats().failed_attempts++;
  sim::log_event(0xA77E ^ ((uint64_t)o.op.code << 32), (uint64_t)r.ok | r.ex << 1 | (uint64_t)c->tid << 40, c->allocs * 1000003 + c->steps);
  if (!(c->opmask & sim::V_RESULT)) return;
  sim::stats().own_attempts++;
  if (note_state) {
    uint64_t h = o.opnd_hash * 31 + o.op.code; h = h * 0x9e3779b97f4a7c15ULL + (f && r.fired ? f->kind * 1000003ULL + k : 0); h = h * 0x9e3779b97f4a7c15ULL + r.ok * 77 + r.ex;
    h ^= hash_str(std::string()) + (uint64_t)o.op.n[0] * 0x51ULL + (uint64_t)o.op.n[1] * 0x1234567ULL; h *= 0xff51afd7ed558ccdULL; h ^= h >> 31;
    note_state(h, r.fired || o.opnd_hash != 0);
  }
}

static void check_slot(OpCtx& o, Slot& s, int index, bool after_failure, bool shared) {
  if (!s.p) return;
  if (match_slot(s)) return;
  P m, m2; std::vector<P> l; std::string why;
  bool readable = read_slot(s, m, m2, l, why);
  if (readable && after_failure && o.basic_slot == &s) { s.m = m; s.m2 = m2; s.list = l; return; }
  if (readable && after_failure && o.value_slot == &s && m && s.m) {
    std::string e = value_err(o, s.m, m, "after a failure the object has another value");
    if (e.empty()) { s.m = m; return; }
    why = e;
  }
  unsigned cls = after_failure ? sim::V_OPERANDF : sim::V_OPERAND;
  std::string key = std::string(op_names[o.op.code]) + (after_failure ? ":changed-by-failure" : ":operand-changed");
  std::string was = show_slot(s);
  if (readable) { Slot n; n.type = s.type; n.p = s.p; n.m = m; n.m2 = m2; n.list = l; std::string now = show_slot(n); n.p = 0;
    sim::violation(cls, key.c_str(), "%s%s: object %c%d%s was %s and is now %s %s%s", describe_op(o).c_str(), after_failure ? " (failed attempt)" : "", slot_letters[s.type], index, shared ? " (shared)" : "", was.c_str(), now.c_str(), why.c_str(), describe_operands(o).c_str());
    s.m = m; s.m2 = m2; s.list = l;
  } else {
    sim::violation(cls, key.c_str(), "%s%s: object %c%d%s, which was %s, has become unreadable: %s", describe_op(o).c_str(), after_failure ? " (failed attempt)" : "", slot_letters[s.type], index, shared ? " (shared)" : "", was.c_str(), why.c_str());
    o.w.tainted = true;
    destroy(o.w, s);
  }
}
void verify_all(OpCtx& o, bool after_failure) {
  for (int t = 0; t < S_NTYPES; ++t) for (int i = 0; i < NSLOT; ++i) check_slot(o, o.w.s[t][i], i, after_failure, false);
  if (o.w.sh && !o.w.threaded) for (int t = 0; t < S_NTYPES; ++t) for (int i = 0; i < NSLOT; ++i) check_slot(o, o.w.sh->s[t][i], 100 + i, after_failure, true);
}

void expect_slot(OpCtx& o, Slot& s, P const& m, P const& m2, std::vector<P> const& list, const char* key) {
  s.m = m; s.m2 = m2; s.list = list;
  o.digest(m ? m->hash : 0); o.digest(m2 ? m2->hash : 0); for (size_t i = 0; i < list.size(); ++i) o.digest(list[i] ? list[i]->hash : 0);
  if (match_slot(s)) return;
  P a, b; std::vector<P> l; std::string why; std::string exp = show_slot(s);
  if (read_slot(s, a, b, l, why)) {
    s.m = a; s.m2 = b; s.list = l;
    bad_result(o, key, "expected %s, got %s", exp.c_str(), show_slot(s).c_str());
  } else {
    bad_result(o, key, "expected %s, the object is unreadable: %s", exp.c_str(), why.c_str());
    o.w.tainted = true; destroy(o.w, s);
  }
}

// ------------------------------------------------------------------ executing plans
namespace {
struct Job {
  Plan const* plan; World* w[sim::MAXT]; unsigned own; bool solo; int only; bool setup;
  std::vector<uint64_t> dig[sim::MAXT];
};

unsigned mask_for(World& w, Op const& op, unsigned own) {
  const unsigned functional = sim::V_RESULT | sim::V_CARRY | sim::V_OPERAND | sim::V_OPERANDF | sim::V_FAULTRES | sim::V_CRASH | sim::V_PROGRESS | sim::V_MEM | sim::V_MEMF;
  unsigned fam = op_family[op.code];
  unsigned m = ~0u;
  if (!(fam & own)) { m &= ~functional; if (w.fam_operand) m |= sim::V_OPERAND | sim::V_OPERANDF; }
  if ((own & OWN_CONCURRENT) && !w.threaded) m &= ~(unsigned)(sim::V_MEM | sim::V_MEMF | sim::V_PROGRESS | sim::V_CARRY);
  if (w.tainted) m &= ~(functional | sim::V_LEAK | sim::V_LEAKF);
  return m;
}

void run_ops(World& w, std::vector<Op> const& ops, unsigned own, std::vector<uint64_t>& dig) {
  Ctx* c = sim::ctx();
  for (size_t i = 0; i < ops.size(); ++i) {
    Op const& op = ops[i];
    OpCtx o(w, op, (int)i);
    c->op = (int)i; c->attempt = 0; c->opmask = mask_for(w, op, own);
    sim::stats().ops++;
    executors[op.code](o);
    bool scr = false;
    for (int t = 0; t < S_NTYPES; ++t) for (int k = SCR; k < NSLOT; ++k) if (w.s[t][k].p) { scr = true; destroy(w, w.s[t][k]); }
    if (scr) verify_all(o, false);
    dig.push_back(o.dig);
    c->opmask = ~0u;
  }
}
void clear_world(World& w, int opidx) {
  Ctx* c = sim::ctx(); c->op = opidx; c->attempt = 0;
  c->opmask = w.tainted ? (sim::V_MEM | sim::V_MEMF | sim::V_RACE | sim::V_DEADLOCK) : ~(unsigned)(sim::V_RESULT | sim::V_CARRY);
  for (int i = 0; i < NSLOT; ++i) for (int t = 0; t < S_NTYPES; ++t) destroy(w, w.s[t][i]);
  c->opmask = ~0u;
}
void thread_fn(int tid, void* arg) {
  Job& j = *(Job*)arg;
  int which = j.only ? j.only : tid;
  World& w = *j.w[which];
  run_ops(w, j.plan->ops[which], j.own, j.dig[which]);
  clear_world(w, (int)j.plan->ops[which].size());
}
void setup_fn(int, void* arg) {
  Job& j = *(Job*)arg;
  run_ops(*j.w[0], j.plan->ops[0], j.own, j.dig[0]);
}
void clear_fn(int, void* arg) { Job& j = *(Job*)arg; clear_world(*j.w[0], 9999); }
struct VerifyArg { World* w; };
void verify_fn(int, void* arg) {
  World& w = *((VerifyArg*)arg)->w; Op op; op.code = O_BUILD_E; OpCtx o(w, op, 9998);
  sim::ctx()->op = 9998;
  verify_all(o, false);
}
// the thread j.only or all of them, over the objects of thread 0
bool phase(Plan const& p, unsigned own, Job& j, sim::SchedCfg const& sc, bool concurrent) {
  sim::SchedCfg solo; memset(&solo, 0, sizeof solo); solo.step_limit = 40000000;
  Job s1; s1.plan = &p; s1.own = own; s1.only = 0;
  World* shared = 0; bool tainted = false;
  if (p.shared) { shared = new World; s1.w[0] = shared; sim::run_threads(1, setup_fn, &s1, solo); }
  for (int i = 0; i < sim::MAXT; ++i) { World* w = new World; w->threaded = concurrent; w->sh = shared; j.w[i] = w; }
  if (concurrent) {
    sim::run_threads(p.nthreads, thread_fn, &j, sc);
    sim::log_event(0x5C4ED, sim::switch_hash());
    if (note_interleaving) note_interleaving(sim::switch_hash());
  } else sim::run_threads(1, thread_fn, &j, solo);
  if (shared && concurrent) { VerifyArg a; a.w = shared; sim::run_threads(1, verify_fn, &a, solo); }
  for (int i = 0; i < sim::MAXT; ++i) { tainted |= j.w[i]->tainted; delete j.w[i]; }
  if (shared) { s1.w[0] = shared; sim::run_threads(1, clear_fn, &s1, solo); tainted |= shared->tainted; delete shared; }
  return tainted;
}
void end_phase(bool tainted) {
  sim::ctx()->opmask = tainted ? 0u : ~0u;
  sim::run_end_leakcheck();
  sim::ctx()->opmask = ~0u;
  sim::run_end_restore();
}
} // namespace

void execute(Plan const& p, unsigned own) {
  sim::set_reuse(p.reuse);
  sim::run_begin();
  sim::SchedCfg solo; memset(&solo, 0, sizeof solo); solo.step_limit = 40000000;
  sim::SchedCfg sc = solo;
  sc.start = p.start; sc.max_switches = p.max_switches;
  if (p.explicit_sched) { sc.explicit_list = p.pre.empty() ? 0 : &p.pre[0]; sc.nexplicit = (int)p.pre.size(); }
  else { sc.dense_seed = p.dense_seed; sc.dense_mean = p.dense_mean; }
  bool tainted = false;
  if (p.nthreads <= 1) {
    World w; w.fam_operand = own & OWN_OPERANDS ? 1 : 0; w.after_fault_only = (own & OWN_AFTER_FAULT) != 0;
    Job j; j.plan = &p; j.own = own; j.only = 0; j.solo = true; j.setup = false; for (int t = 0; t < sim::MAXT; ++t) j.w[t] = &w;
    struct L { static void fn(int, void* a) { Job& q = *(Job*)a; run_ops(*q.w[0], q.plan->ops[0], q.own, q.dig[0]); clear_world(*q.w[0], (int)q.plan->ops[0].size()); } };
    sim::run_threads(1, L::fn, &j, solo);
    tainted = w.tainted;
    for (size_t i = 0; i < j.dig[0].size(); ++i) sim::log_event(j.dig[0][i]);
  } else {
    // every thread alone, each in a run of its own that starts from nothing, then all of them at the same time
    Job con, sol; con.plan = sol.plan = &p; con.own = sol.own = own; con.only = sol.only = 0;
    uint64_t h = 0;
    for (int t = 1; t <= p.nthreads; ++t) { sol.only = t; tainted = phase(p, own, sol, solo, false); h = h * 31 + sim::log_hash(); end_phase(tainted); sim::run_begin(); sim::log_event(0x5010, h); }
    tainted = phase(p, own, con, sc, true);
    Ctx* c = sim::ctx(); c->opmask = ~0u;
    for (int t = 1; t <= p.nthreads; ++t) {
      size_t n = std::min(con.dig[t].size(), sol.dig[t].size());
      for (size_t i = 0; i < n; ++i) {
        sim::log_event(con.dig[t][i]);
        if (con.dig[t][i] != sol.dig[t][i]) {
          Op const& op = p.ops[t][i]; c->op = (int)i;
          sim::violation(sim::V_RACE | sim::V_RESULT, "result-depends-on-other-threads", "thread %d, op %zu %s gives another result when the other threads run at the same time than alone", t, i, op_names[op.code]);
          break;
        }
      }
    }
  }
  end_phase(tainted);
  sim::stats().runs++;
}

// ------------------------------------------------------------------ basic operations
#define BUILD(T, S) \
  static void build_##S(OpCtx& o, P const& m, P const& m2) { \
    Slot& s = o.w.s[S][o.op.a]; if (s.p) destroy(o.w, s); \
    build_slot(s, m, m2); o.digest(1); o.operand(m); o.operand(m2); \
    if (!match_slot(s)) { P a, b; std::vector<P> l; std::string why; \
      bool ok = read_slot(s, a, b, l, why); \
      unsigned keep = sim::ctx()->opmask; \
      bad_result(o, "built-wrong", "the public constructors built %s instead of %s", ok ? show2(a).c_str() : why.c_str(), show_slot(s).c_str()); \
      sim::ctx()->opmask = keep; \
      if (ok) { s.m = a; s.m2 = b; } else { o.w.tainted = true; destroy(o.w, s); } } \
    verify_all(o, false); }
BUILD(LE, S_E) BUILD(LU, S_U) BUILD(LB, S_B) BUILD(LV, S_V) BUILD(LQ, S_Q) BUILD(LI, S_I)
void x_BUILD_E(OpCtx& o) { build_S_E(o, o.op.t[0], P()); }
void x_BUILD_U(OpCtx& o) { NEED(o.op.t[0] && o.op.t[0]->k == model::UN); build_S_U(o, o.op.t[0], P()); }
void x_BUILD_B(OpCtx& o) { NEED(o.op.t[0] && o.op.t[0]->k == model::BIN); build_S_B(o, o.op.t[0], P()); }
void x_BUILD_V(OpCtx& o) { NEED(o.op.t[0] && o.op.t[0]->k == model::VEC); build_S_V(o, o.op.t[0], P()); }
void x_BUILD_Q(OpCtx& o) { NEED(!o.op.t[0] || o.op.t[1]); build_S_Q(o, o.op.t[0], o.op.t[1]); }
void x_BUILD_I(OpCtx& o) { NEED(!o.op.t[0] || o.op.t[1]); build_S_I(o, o.op.t[0], o.op.t[1]); }
void x_DROP(OpCtx& o) {
  NEED(o.op.n[0] >= 0 && o.op.n[0] < S_NTYPES && o.op.a >= 0 && o.op.a < SCR);
  Slot& s = o.w.s[o.op.n[0]][o.op.a];
  NEED(s.present());
  destroy(o.w, s); o.digest(1);
  verify_all(o, false);
}

Executor const executors[O_COUNT] = {
#define X(n, f) &x_##n,
  OPS(X)
#undef X
};

void warm_up() {
  // touches everything that is initialised lazily by the C++ runtime, so that no run is different because it is the first
  std::string s;
  try { throw UserStdFault(0); } catch (std::exception& e) { s = e.what(); }
  try { throw std::bad_alloc(); } catch (std::exception& e) { s = e.what(); }
}
