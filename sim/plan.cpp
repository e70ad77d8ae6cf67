// Plans: generation from a seed, text form.
#include "plan.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>

const char* const op_names[O_COUNT] = {
#define X(n, f) #n,
  OPS(X)
#undef X
};
const unsigned op_family[O_COUNT] = {
#define X(n, f) f,
  OPS(X)
#undef X
};

namespace {
using namespace sim;
using model::P; using model::mk_const; using model::mk_var; using model::mk_fsym; using model::mk_un; using model::mk_bin; using model::mk_vec;
const unsigned FUN = V_RESULT | V_OPERAND | V_OPERANDF | V_FAULTRES | V_CRASH | V_PROGRESS | V_MEM | V_MEMF;
const unsigned ALLF = 0x3fff, OPERANDS = OWN_OPERANDS, CONCURRENT = OWN_CONCURRENT;
const PropInfo props[] = {
  {"C01", FA_HANDLE | OPERANDS, V_RESULT | V_OPERAND | V_CRASH | V_PROGRESS | V_MEM},
  {"C02", FA_HANDLE | FA_CONSTR | OWN_AFTER_FAULT, V_RESULT | V_OPERANDF | V_FAULTRES | V_CRASH | V_PROGRESS | V_MEMF},
  {"C03", ALLF, V_MEM | V_LEAK | V_CRASH},
  {"C04", ALLF | OPERANDS | OWN_AFTER_FAULT, V_RESULT | V_FAULTRES | V_MEMF | V_LEAKF | V_OPERANDF | V_CRASH},
  {"C05", FA_SIMPL, FUN},
  {"C06", FA_DIFF, FUN},
  {"C07", FA_SUBST | FA_EQUAL, FUN},
  {"C08", FA_CONSTR, FUN},
  {"C09", FA_EVAL, FUN},
  {"C10", FA_TRAV, FUN},
  {"C11", FA_MANIP, FUN},
  {"C12", FA_QUAD, FUN},
  {"C13", FA_PRINT, FUN},
  {"C14", FA_LATEX, FUN},
  {"C15", FA_COORD, FUN},
  {"C16", ALLF | CONCURRENT, V_RACE | V_DEADLOCK | V_OPERAND | V_OPERANDF | V_MEM | V_MEMF | V_PROGRESS},
  {"ALL", ALLF | OPERANDS, 0x1fff},      // everything at once, used for soaking
  {"C18", FA_CTM, FUN},
  {"C17", ALLF | CONCURRENT, V_RACE | V_DEADLOCK | V_MEM | V_MEMF | V_PROGRESS | V_CARRY},
};

struct Weighted { int code, w; };

struct Gen {
  Rng& r; Plan& p; std::string prop; bool thorough; bool quiet; // quiet: no faults
  model::GenCfg g; int S; unsigned own; bool shared; int fault_level; // 0 none, 1 functional, 2 heavy
  int nE, nU, nB, nV, nQ, nI, nT, nN;
  std::vector<P> pool;

  Gen(Rng& rr, Plan& pp, bool th) : r(rr), p(pp), thorough(th), quiet(false), S(10), own(0), shared(false), fault_level(0), nE(0), nU(0), nB(0), nV(0), nQ(0), nI(0), nT(0), nN(0) {}

  bool is(const char* a) const { return prop == a; }
  double number() { return model::random_number(r); }

  void config() {
    static const int sizes[] = {3, 6, 9, 14, 20, 30};
    S = sizes[r.below(thorough ? 6 : 5)];
    if (is("C16") || is("C17")) S = sizes[r.below(4)];
    g.max_size = S; g.probes = r.chance(1, 3); g.fsyms = r.chance(3, 5); g.formal = g.fsyms && r.chance(2, 3); g.integrals = r.chance(1, 2);
    g.vectors = r.chance(2, 5); g.other_consts = r.chance(2, 5); g.fabs = r.chance(1, 2); g.nvars = r.chance(1, 8) ? (r.chance(1, 3) ? 9 + (int)r.below(12) : 8) : 1 + (int)r.below(4); g.only_dim = r.chance(1, 2) ? 1 + (int)r.below(3) : 0;
    g.constbounds = r.chance(1, 2); g.nolatexbad = false; g.bigids = r.chance(1, 8); g.close = r.chance(1, 8); g.numbers = r.chance(1, is("C13") || is("C14") ? 4 : 12);
    if (is("C06")) { g.vectors = r.chance(1, 6); g.formal = g.fsyms && r.chance(1, 2); }
    if (is("C09")) { g.vectors = r.chance(1, 6); g.formal = r.chance(1, 5); g.fsyms = g.formal || r.chance(1, 6); }
    if (is("C12")) { g.vectors = false; g.probes = r.chance(1, 6); g.formal = r.chance(1, 4); g.fsyms = r.chance(1, 4); g.integrals = true; g.constbounds = r.chance(3, 4); }
    if (is("C15")) { g.fsyms = g.formal = true; g.vectors = r.chance(1, 3); g.probes = r.chance(1, 6); }
    if (is("C11")) { g.formal = g.fsyms = r.chance(4, 5); g.integrals = true; }
    if (is("C14")) { g.probes = r.chance(1, 5); g.vectors = r.chance(1, 4); g.other_consts = r.chance(1, 4); }
  }

  // ---- trees
  P var() { return mk_var(idn(r.below(g.nvars))); }
  P uv(int id = -1) { return mk_fsym(id >= 0 ? id : r.chance(3, 4) ? 0 : 1, r.below(2)); }
  P quad_tree(int depth) {
    if (depth > 0 && r.chance(1, 2)) { P a = quad_tree(depth - 1), b = r.chance(1, 8) ? r.chance(1, 2) ? a : model::mutate(r, a) : quad_tree(depth - 1); return mk_bin(r.chance(1, 2) ? model::B_PLUS : model::B_MINUS, a, b); }
    if (r.chance(1, 12)) return mk_const(r.chance(1, 2) ? number() : model::odd_number(r));
    if (r.chance(1, 14)) return r.chance(1, 2) ? mk_un(model::U_SYMINT, model::random_tree(r, leafy(), 1 + r.below(4)), r.below(2)) : model::random_tree(r, leafy(), 1 + r.below(3));
    model::GenCfg h = leafy();
    P lo, hi;
    if (g.constbounds || r.chance(3, 4)) { lo = mk_const((double)((long)r.below(9) - 4) / 2); hi = mk_const(r.chance(1, 8) ? lo->val : lo->val + 0.25 * (double)((long)r.below(13) - 4)); }
    else { lo = model::random_tree(r, h, 1 + r.below(3)); hi = model::random_tree(r, h, 1 + r.below(3)); }
    P f = model::random_tree(r, h, 1 + r.below(std::max(1, S / 2)));
    return mk_un(model::U_INT, f, r.chance(2, 3) ? 0 : r.below(3), lo, hi);
  }
  model::GenCfg leafy() { model::GenCfg h = g; h.formal = h.fsyms = h.vectors = false; h.probes = g.probes && r.chance(1, 4); return h; }
  P coord_tree(int size) {
    if (size <= 1) {
      switch (r.below(9)) {
        case 0: case 1: return mk_un(model::U_GRAD, uv());
        case 2: return mk_un(model::U_DIV, mk_un(model::U_GRAD, uv()));
        case 3: return mk_un(model::U_DIV, uv());
        case 4: return uv();
        case 5: { P d = mk_un(model::U_PARTIAL, uv(), r.below(3)); return r.chance(1, 4) ? mk_un(model::U_PARTIAL, d, r.below(3)) : d; }
        default: return model::random_scalar_leaf(r, g);
      }
    }
    switch (r.below(8)) {
      case 0: case 1: return mk_bin(model::B_MULT, mk_un(model::U_GRAD, uv()), mk_un(model::U_GRAD, uv()));
      case 2: return mk_un(model::U_SYMINT, coord_tree(size - 1), r.below(2));
      case 3: { P a = model::random_scalar_leaf(r, g); return mk_bin(model::B_MULT, a, coord_tree(size - 2)); }
      case 4: return mk_un(model::U_INT, coord_tree(size - 1), r.below(g.nvars), mk_const(0), mk_const(1));
      default: { int k = 1 + r.below(std::max(1, size - 1)); P a = coord_tree(k), b = coord_tree(size - k); static const int ops[] = {model::B_PLUS, model::B_MINUS, model::B_MULT, model::B_DIV, model::B_PLUS}; return mk_bin(ops[r.below(5)], a, b); }
    }
  }
  // products, quotients and powers that meet the rules of simplification and differentiation
  P rule_tree(int size) {
    if (size <= 1) { if (r.chance(1, 3)) { static const double v[] = {0, 1, -1, 2}; return mk_const(v[r.below(4)], r.chance(1, 6) ? model::C_INT : model::C_DOUBLE); } return model::random_scalar_leaf(r, g); }
    if (r.chance(1, 5)) return mk_un(r.below(model::U_GRAD), rule_tree(size - 1));
    int k = 1 + r.below(size - 1); P a = rule_tree(k), b = r.chance(1, 8) ? a : rule_tree(std::max(1, size - 1 - k));
    return mk_bin(r.below(4), a, b);
  }
  // long chains, to one side or of unary nodes
  P spine(int n) {
    model::GenCfg h = g; h.vectors = false;
    P t = model::random_scalar_leaf(r, h); int way = r.below(4), op = r.below(5);
    for (int i = 0; i < n; ++i) {
      int o = op < 4 ? op : (int)r.below(4); int w = way < 3 ? way : (int)r.below(3);
      if (w == 2) { if (t->k == model::UN && i > 20) t = mk_bin(model::B_PLUS, t, var()); else t = mk_un(r.chance(1, 8) && g.formal ? model::U_PARTIAL : r.below(model::U_GRAD), t); }
      else { P l = model::random_scalar_leaf(r, h); t = w ? mk_bin(o, l, t) : mk_bin(o, t, l); }
    }
    return t;
  }
  P tree() {
    int n = 1 + (int)r.below(S); P t;
    if (is("C12") && r.chance(4, 5)) t = quad_tree(r.below(4));
    else if (is("C15") && r.chance(3, 4)) t = coord_tree(1 + r.below(S));
    else if (r.chance(1, 14)) t = coord_tree(1 + r.below(std::min(S, 8)));
    else if (r.chance(1, 20)) t = quad_tree(r.below(3));
    else if (r.chance(is("C05") || is("C06") ? 2 : 1, 5)) t = rule_tree(n);
    else if (!pool.empty() && r.chance(1, 10)) t = model::mutate(r, pool[r.below(pool.size())]);
    else if (r.chance(1, 30)) t = spine(r.chance(1, 4) ? 8 + r.below(50) : 4 + r.below(12));
    else t = model::random_tree(r, g, n);
    if (t->size * 2 <= (unsigned)2 * S && t->k != model::VEC && r.chance(1, 30)) t = mk_bin(r.below(4), t, r.chance(1, 2) ? t : model::mutate(r, t));
    if (!pool.empty() && r.chance(1, 8)) { P a = pool[r.below(pool.size())]; if (a->size + t->size < (unsigned)2 * S && t->k != model::VEC && a->k != model::VEC) t = mk_bin(r.below(4), t, a); }
    if (model::bad_shape(t) && !r.chance(1, 12)) t = model::random_scalar_leaf(r, g);
    if (t->size > 150) t = model::random_scalar_leaf(r, g);
    pool.push_back(t); if (pool.size() > 12) pool.erase(pool.begin());
    return t;
  }
  P vec() { return r.chance(1, 25) ? model::random_vec(r, g, 7 + r.below(14), S) : model::random_vec(r, g, g.only_dim ? g.only_dim : r.chance(1, 10) ? 4 + r.below(3) : 1 + r.below(3), S); }
  P unary() { for (int i = 0; i < 20; ++i) { P t = tree(); if (t->k == model::UN) return t; } return mk_un(r.below(model::U_GRAD), var()); }
  P binary() { for (int i = 0; i < 20; ++i) { P t = tree(); if (t->k == model::BIN) return t; } return mk_bin(r.below(4), var(), mk_const(number())); }

  // ---- slots
  int ref(int n) { int i = r.below(std::max(1, n)); if (shared && r.chance(5, 6)) return 100 + i; return i; }
  int E() { return ref(nE); } int U() { return ref(nU); } int B() { return ref(nB); } int V() { return ref(nV); } int Q() { return ref(nQ); } int I() { return ref(nI); } int T() { return ref(nT); } int N() { return ref(nN); }
  int mine(int n) { return r.below(std::max(1, n)); }
  int dest(int n) { return r.chance(2, 3) ? mine(n) : r.below(8); }

  Op build(int code, int a) {
    Op o; o.code = code; o.a = a;
    switch (code) {
      case O_BUILD_E: o.t[0] = r.chance(1, 40) && (is("C01") || is("C02") || is("C03") || is("C04")) ? P() : tree(); break;
      case O_BUILD_U: o.t[0] = unary(); break;
      case O_BUILD_B: o.t[0] = binary(); break;
      case O_BUILD_V: o.t[0] = vec(); break;
      case O_BUILD_Q: o.t[0] = tree(); o.t[1] = tree(); break;
      case O_BUILD_I:
        if (r.chance(1, 8)) break;
        if (r.chance(2, 3)) { o.t[0] = mk_const(g.numbers && r.chance(1, 3) ? model::odd_number(r) : number()); o.t[1] = mk_const(o.t[0]->val + 0.5 * (1 + r.below(4))); } else { model::GenCfg h = leafy(); o.t[0] = model::random_tree(r, h, 1 + r.below(3)); o.t[1] = model::random_tree(r, h, 1 + r.below(3)); } break;
    }
    return o;
  }
  void setup(std::vector<Op>& ops, bool all) {
    nE = 2 + r.below(4);
    for (int i = 0; i < nE; ++i) ops.push_back(build(O_BUILD_E, i));
    unsigned f = own & ALLF;
    bool wide = all || (f & (FA_HANDLE | FA_CONSTR | FA_SIMPL | FA_DIFF | FA_SUBST | FA_EVAL | FA_PRINT | FA_LATEX | FA_COORD)) != 0;
    if (wide || r.chance(1, 3)) { nU = 1 + r.below(2); for (int i = 0; i < nU; ++i) ops.push_back(build(O_BUILD_U, i)); nB = 1 + r.below(2); for (int i = 0; i < nB; ++i) ops.push_back(build(O_BUILD_B, i)); }
    if ((f & (FA_HANDLE | FA_CONSTR | FA_EVAL | FA_PRINT)) || r.chance(1, 4)) { nV = 1 + r.below(2); for (int i = 0; i < nV; ++i) ops.push_back(build(O_BUILD_V, i)); }
    if ((f & (FA_HANDLE | FA_COORD | FA_PRINT | FA_LATEX)) && r.chance(2, 3)) { nQ = 1; for (int i = 0; i < nQ; ++i) ops.push_back(build(O_BUILD_Q, i)); }
    if ((f & (FA_HANDLE | FA_CONSTR | FA_MANIP | FA_QUAD | FA_PRINT | FA_LATEX)) && r.chance(3, 4)) { nI = 1 + r.below(2); for (int i = 0; i < nI; ++i) ops.push_back(build(O_BUILD_I, i)); }
    if ((f & FA_LATEX) && (is("C14") || r.chance(1, 2))) { nT = 1 + r.below(2); for (int i = 0; i < nT; ++i) { Op o; o.code = O_T_NEW; o.a = i; ops.push_back(o); if (r.chance(1, 2)) ops.push_back(gen(O_T_CUSTOM)); if (r.chance(1, 5)) for (int k = 2 + r.below(8); k > 0; --k) { Op q = gen(O_T_ADDPROC); q.a = i; if (r.chance(3, 4)) q.n[0] = 0; ops.push_back(q); } } }
    if ((f & FA_QUAD) && (is("C12") || r.chance(1, 2))) { nN = 1 + r.below(2); for (int i = 0; i < nN; ++i) { Op o = gen(O_N_NEW); o.a = i; ops.push_back(o); } }
  }

  // ---- operations
  Op gen(int code) {
    Op o; o.code = code; o.d = r.chance(1, 5) ? 1 : 0; if (r.chance(1, 12)) o.d |= 4;
    o.x = number(); o.a = dest(nE);
    switch (code) {
      case O_BUILD_E: return build(code, dest(nE)); case O_BUILD_U: return build(code, dest(nU)); case O_BUILD_B: return build(code, dest(nB)); case O_BUILD_V: return build(code, dest(nV));
      case O_BUILD_Q: return build(code, dest(nQ)); case O_BUILD_I: return build(code, dest(nI));
      case O_DROP: { static const int ty[] = {0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8}; o.n[0] = ty[r.below(11)]; o.a = mine(nE); break; }
      case O_COPY: case O_ASSIGN: {
        static const int ty[] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 8};
        int t = ty[r.below(13)]; o.n[0] = t; int n = t == 0 ? nE : t == 1 ? nU : t == 2 ? nB : t == 3 ? nV : t == 4 ? nQ : t == 5 ? nI : 1;
        o.b = ref(n); o.a = code == O_COPY ? dest(n) : (r.chance(1, 8) && o.b < 100) ? o.b : mine(n); break; }
      case O_E_CTOR_FROM: case O_E_ASSIGN_FROM: {
        int k = r.below(12); if (code == O_E_ASSIGN_FROM && k == 10) k = 1;
        o.n[0] = k; o.n[1] = r.below(8); o.n[2] = r.below(2); o.b = k == 0 ? U() : k == 1 ? B() : k == 2 ? V() : E(); o.a = code == O_E_CTOR_FROM ? dest(nE) : mine(nE); break; }
      case O_E_TAKE: o.b = E(); o.a = mine(nE); break;
      case O_E_SWAP: o.a = mine(nE); o.b = mine(nE); break;
      case O_E_ASSIGN_PART: o.a = mine(nE); o.n[0] = r.below(5); o.n[1] = r.below(4); break;
      case O_U_ASSIGN: o.a = mine(nU); o.b = U(); o.n[0] = r.below(7); break;
      case O_B_ASSIGN: o.a = mine(nB); o.b = B(); o.n[0] = r.below(8); o.n[1] = r.below(7); break;
      case O_V_SET: o.a = mine(nV); o.b = E(); o.n[0] = r.below(4); o.n[1] = r.below(24); o.n[2] = r.below(24); break;
      case O_V_RESIZE: o.a = mine(nV); o.b = E(); o.n[0] = r.below(4); o.n[1] = r.below(24); break;
      case O_Q_CTOR: o.a = dest(nQ); o.b = E(); o.c = E(); break;
      case O_I_CTOR: o.a = dest(nI); o.b = E(); o.c = E(); break;
      case O_Q_PART: o.a = mine(nQ); o.n[0] = r.below(2); break;
      case O_I_PART: o.a = mine(nI); o.n[0] = r.below(2); break;
      case O_W_OP: o.a = r.below(2); o.b = E(); o.n[0] = r.chance(1, 3) ? 0 : r.below(8); o.n[1] = r.below(6); break;
      case O_MIX: o.a = mine(nE); o.b = E(); o.n[0] = r.below(4); break;
      case O_EQUAL: o.b = E(); o.c = r.chance(1, 4) ? o.b : E(); o.n[0] = r.below(2); if (r.chance(3, 4)) { o.n[1] = r.chance(5, 6) ? 1 : 2; o.n[2] = r.below(1000000); } break;
      case O_SIMPLIFY: { int t = r.chance(2, 3) ? 0 : 1 + r.below(2); o.n[0] = t; o.b = t == 1 ? U() : t == 2 ? B() : E(); break; }
      case O_INPLACE: o.a = mine(nE); break;
      case O_DIFF: {
        static const int src[] = {0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6};
        int s = src[r.below(13)]; o.n[0] = s; o.b = s == 1 ? U() : s == 2 ? B() : E(); o.n[1] = s >= 4 ? 0 : r.below(3);
        if (o.n[1] == 2) { P f = pick_fsym(); o.n[2] = f->id; o.n[3] = f->tag; } else o.n[2] = r.below(std::max(2, g.nvars));
        if (s == 3) o.t[0] = uv(r.below(2)); if (s == 6) o.n[3] = r.chance(1, 3) ? o.n[2] : r.below(std::max(2, g.nvars)); break; }
      case O_SUBST: {
        int way = r.below(9); o.n[0] = way; o.n[1] = r.below(2); o.b = way == 0 ? (o.n[1] == 1 ? U() : B()) : E();
        P s; P src = pool.empty() ? tree() : pool[r.below(pool.size())];
        switch (way) {
          case 0: case 1: case 2: s = var(); break;
          case 3: case 4: s = pick_fsym(); break;
          case 5: case 6: s = sub_of(src, model::UN); break;
          case 7: s = sub_of(src, model::BIN); break;
          default: s = model::random_subterm(r, src); break;
        }
        if (r.chance(1, 8)) { P m = model::mutate(r, s); if (m->k == s->k) s = m; }
        o.t[0] = s; o.t[1] = repl(s, way == 0 || way == 1 || way == 5 || way == 7); break; }
      case O_SUBSTN: {
        int n = 1 + r.below(r.chance(1, 4) ? 12 : 4); std::vector<P> s, t; o.b = E();
        for (int i = 0; i < n; ++i) { P src = pool.empty() ? tree() : pool[r.below(pool.size())]; P x = r.chance(1, 2) ? var() : model::random_subterm(r, src); if (r.chance(1, 8)) x = model::mutate(r, x); s.push_back(x); t.push_back(r.chance(1, 3) ? var() : repl(x, false)); }
        if (n > 1 && r.chance(1, 3)) { t[0] = s[1]; t[1] = s[0]; }
        o.t[0] = mk_vec(s); o.t[1] = mk_vec(t); break; }
      case O_SYMSUB: o.b = E(); o.c = I(); o.n[0] = r.below(2); o.n[1] = idn(r.below(8)); o.n[2] = idn(r.chance(1, 2) ? 0 : r.below(3)); break;
      case O_MANIP: o.b = E(); o.n[0] = mask(); o.n[1] = r.below(5); o.n[2] = r.below(4); o.n[3] = r.chance(1, 4) ? 1 + r.below(7) : 0; break;
      case O_TRAVERSE: o.b = E(); o.n[0] = r.chance(1, 3) ? 0 : mask(); o.n[1] = r.below(5); o.n[2] = r.chance(1, 4) ? 1 + r.below(7) : 0; break;
      case O_EVAL: {
        static const int ty[] = {0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 7};
        int t = ty[r.below(16)]; o.n[0] = t; o.b = t == 1 ? U() : t == 2 ? B() : t == 3 ? (int)r.below(4) : t == 5 ? V() : E();
        if (t == 6) o.t[0] = uv();
        o.n[1] = r.chance(1, 2) ? (r.chance(1, 2) ? 3 : 8) : r.below(16); o.n[2] = g.nvars > 5 && r.chance(3, 4) ? g.nvars + r.below(4) : r.chance(3, 4) ? 3 + r.below(3) : r.chance(1, 6) ? 9 + r.below(16) : r.below(9); if (t == 3 && r.chance(1, 6)) o.b = r.below(24); o.n[3] = r.below(1000); if (t == 7) { o.b = r.below(100); o.n[1] = r.below(16); o.n[2] = r.below(9); } break; }
      case O_PRINT: case O_STR: case O_LATEX: {
        static const int ty[] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9};
        int t = ty[r.below(15)]; if (code == O_STR && (t == 4 || t == 5)) t = 0; if (code == O_LATEX && (t == 3 || t == 8)) t = 0;
        o.n[0] = t; o.b = t == 1 ? U() : t == 2 ? B() : t == 3 ? V() : t == 4 ? Q() : t == 5 ? I() : E(); if (t == 9) o.t[0] = uv(); if (code == O_PRINT && r.chance(1, 16)) { o.n[0] = 10; o.b = r.below(100); } if (t == 6) o.n[2] = idn(r.below(6)); if (t == 7 && g.numbers && r.chance(1, 2)) o.x = model::odd_number(r);
        if (code == O_PRINT) o.n[1] = r.chance(1, 2) ? 0 : r.below(32); else if (code == O_STR) o.n[1] = r.below(3) == 0; else { o.n[1] = r.below(4); o.c = T(); }
        break; }
      case O_COORD: { int t = r.chance(2, 3) ? 0 : 1 + r.below(2); o.n[0] = 1 + r.below(3); o.n[1] = t; o.b = t == 1 ? U() : t == 2 ? B() : E(); break; }
      case O_COORDQ: o.a = dest(nQ); o.n[0] = 1 + r.below(3); o.b = Q(); break;
      case O_CONSTRUCT:
        if (r.chance(1, 6)) { o.n[0] = 99; o.n[2] = r.below(1000); o.n[3] = r.below(100000); break; }
        o.n[0] = kind(); o.n[1] = kind(); o.n[2] = r.below(4); o.n[3] = salt(); o.b = slot_of(o.n[0]); o.c = slot_of(o.n[1]); break;
      case O_FUNC: {
        o.n[0] = r.below(11); static const int fk[] = {2, 3, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17};
        o.n[1] = o.n[0] < 8 ? fk[r.below(12)] : o.n[0] == 8 ? (r.chance(2, 3) ? 10 : 11) : o.n[0] == 9 ? 10 + (long)r.below(4) : 10;
        o.n[3] = salt(); o.b = slot_of(o.n[1]); break; }
      case O_MAKE: o.n[0] = kind(); o.n[1] = kind(); o.n[2] = r.below(2); o.n[3] = salt(); o.b = slot_of(o.n[0]); o.c = slot_of(o.n[1]); o.a = dest(o.n[2] ? nQ : nI); break;
      case O_INTEGRAL: { o.n[0] = r.below(9); o.n[1] = idn(r.below(4)); o.n[2] = idn(r.below(4)); o.n[3] = salt(); o.c = I(); static const int k[] = {13, 13, 12, 13, 12, 11, 2, 7, 10}; o.b = slot_of(k[o.n[0]]); break; }
      case O_VECOP: { int w = r.below(17); o.n[0] = w; o.n[1] = idn(r.below(4)); o.b = V(); o.c = w <= 2 ? V() : E(); o.a = w == 2 ? dest(nE) : dest(nV); break; }
      case O_CTT: o.n[0] = r.below(100000000); o.n[2] = r.below(1000); break;
      case O_CTM: o.n[0] = r.below(1000000); o.n[1] = r.chance(1, 3) ? 0 : 1; o.n[2] = r.below(1000); if (o.n[1] && r.chance(1, 4)) o.a = mine(nE); break;
      case O_N_NEW: o.a = dest(nN); o.n[0] = r.chance(1, 8) ? 0 : 1 + r.below(2); o.n[1] = r.below(5); break;
      case O_N_ASSIGN: o.a = dest(nN); o.b = N(); o.n[0] = r.below(2); break;
      case O_QUAD: o.b = E(); o.c = N(); break;
      case O_QUAD2: o.b = E(); o.c = N(); o.n[1] = I(); o.n[0] = 1 + r.below(2); o.n[2] = idn(r.below(r.chance(1, 3) ? 8 : 3)); break;
      case O_T_NEW: o.a = dest(nT); break;
      case O_T_COPY: o.a = dest(nT); o.b = T(); break;
      case O_T_ASSIGN: o.a = mine(nT); o.b = T(); break;
      case O_T_CUSTOM: o.a = mine(nT); o.n[0] = r.below(2); o.n[1] = idn(r.below(4)); o.n[2] = r.below(2); o.n[3] = r.below(8); break;
      case O_T_ADDPROC: o.a = mine(nT); o.n[0] = r.chance(1, 3) ? 0 : r.below(10); o.n[1] = r.below(4); o.n[2] = r.below(4); break;
    }
    return o;
  }
  long idn(long small) { return g.bigids && r.chance(1, 4) ? model::far_id(r, small) : small; }
  long salt() { return (long)r.below(4096) | (g.bigids && r.chance(1, 3) ? (1 + (long)r.below(80)) << 12 : 0); }
  long mask() { static const long m[] = {1, 2, 4, 8, 16, 32, 64, 128, 3, 5, 511, 48, 12, 9}; return r.chance(1, 2) ? m[r.below(14)] : (long)r.below(512); }
  int kind() { static const int k[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 11, 12, 13, 2, 7}; return k[r.below(23)]; }
  int slot_of(long k) { return k == 11 ? U() : k == 12 ? B() : E(); }
  P pick_fsym() { for (int i = 0; i < 4 && !pool.empty(); ++i) { P t = pool[r.below(pool.size())]; for (int j = 0; j < 6; ++j) { P s = model::random_subterm(r, t); if (s->k == model::FSYM) return s; } } return uv(); }
  P sub_of(P t, int k) { for (int i = 0; i < 12; ++i) { P s = model::random_subterm(r, t); if (s->k == k) return s; } return k == model::UN ? unary() : binary(); }
  P repl(P const& s, bool typed) {
    P t; int c = r.below(6);
    switch (c) {
      case 0: t = mk_const(number()); break;
      case 1: t = var(); break;
      case 2: t = mk_bin(r.below(4), s->k == model::VEC ? var() : s, mk_const(number())); break;
      case 3: t = g.fsyms ? uv() : mk_un(r.below(model::U_GRAD), var()); break;
      default: { model::GenCfg h = g; h.vectors = h.vectors && r.chance(1, 3); t = model::random_tree(r, h, 1 + r.below(5)); }
    }
    if (typed && t->k == model::PROBE) t = var();
    if (typed && t->k == model::CONST && t->ct != model::C_DOUBLE && t->ct != model::C_INT) t = mk_const(t->val);
    return t;
  }

  void faults(Op& o) {
    if (!fault_level || o.code <= O_DROP) return;
    bool sink = o.code == O_PRINT; bool user = g.probes || o.code == O_MANIP || o.code == O_TRAVERSE || o.code == O_QUAD || o.code == O_QUAD2 || o.code == O_N_NEW || o.code == O_N_ASSIGN || (op_family[o.code] & FA_LATEX);
    int k = r.below(100); int none = fault_level == 2 ? 18 : 48;
    if (k < none) return;
    FaultSpec f; f.kind = F_ALLOC_AT; f.k = 1; f.stride = 0; f.max = 1;
    if (sink && r.chance(1, 2)) { static const int sk[] = {F_SINK_FAIL, F_SINK_SHORT, F_SINK_THROW}; f.kind = sk[r.below(3)]; f.k = r.below(30); if (r.chance(1, 3)) { f.k = r.below(4); f.stride = 1 + r.below(3); f.max = 12; } o.f.push_back(f); if (r.chance(1, 4)) { f.kind = sk[r.below(3)]; f.k = r.below(12); f.stride = 0; o.f.push_back(f); } return; }
    if (user && r.chance(1, 3)) { f.kind = r.chance(1, 2) ? F_USER_AT : F_USER_STD_AT; f.k = 1 + r.below(10); if (r.chance(1, 2)) { f.k = 1; f.stride = 1; f.max = 16; } o.f.push_back(f); if (r.chance(3, 4)) return; f.stride = 0; f.max = 1; }
    if (r.chance(3, 5)) { f.kind = r.chance(4, 5) ? F_ALLOC_AT : F_ALLOC_FROM; f.k = 1 + (r.chance(1, 3) ? r.below(12) : 0); f.stride = r.chance(3, 4) ? 1 : 1 + r.below(5); f.max = thorough ? 120 : 48; o.f.push_back(f); }
    else { int n = 1 + r.below(3); for (int i = 0; i < n; ++i) { f.kind = r.chance(2, 3) ? F_ALLOC_AT : F_ALLOC_FROM; f.k = 1 + r.below(r.chance(1, 2) ? 8 : 40); f.stride = 0; f.max = 1; o.f.push_back(f); } }
  }

  int pick_op() {
    // own operations of the property, sometimes anything else
    static const Weighted handle[] = {{O_COPY, 5}, {O_ASSIGN, 8}, {O_E_CTOR_FROM, 5}, {O_E_ASSIGN_FROM, 6}, {O_E_TAKE, 2}, {O_E_SWAP, 2}, {O_E_ASSIGN_PART, 5}, {O_U_ASSIGN, 5}, {O_B_ASSIGN, 5}, {O_V_SET, 3}, {O_V_RESIZE, 3}, {O_Q_CTOR, 2}, {O_I_CTOR, 2}, {O_Q_PART, 2}, {O_I_PART, 2}, {O_W_OP, 5}, {O_MIX, 3}, {O_DROP, 3}, {O_BUILD_E, 2}};
    static const Weighted simpl[] = {{O_SIMPLIFY, 6}, {O_INPLACE, 3}, {O_BUILD_E, 3}};
    static const Weighted diff[] = {{O_DIFF, 6}, {O_BUILD_E, 2}};
    static const Weighted subst[] = {{O_SUBST, 6}, {O_SUBSTN, 4}, {O_EQUAL, 2}, {O_BUILD_E, 3}};
    static const Weighted constr[] = {{O_CONSTRUCT, 10}, {O_FUNC, 4}, {O_MAKE, 2}, {O_INTEGRAL, 2}, {O_VECOP, 3}};
    static const Weighted eval[] = {{O_EVAL, 8}, {O_BUILD_E, 2}};
    static const Weighted trav[] = {{O_TRAVERSE, 6}, {O_BUILD_E, 2}};
    static const Weighted manip[] = {{O_MANIP, 6}, {O_SYMSUB, 3}, {O_BUILD_E, 2}};
    static const Weighted quad[] = {{O_QUAD, 8}, {O_QUAD2, 3}, {O_N_ASSIGN, 4}, {O_N_NEW, 2}, {O_BUILD_E, 3}};
    static const Weighted print[] = {{O_PRINT, 7}, {O_STR, 3}, {O_BUILD_E, 2}};
    static const Weighted latex[] = {{O_LATEX, 8}, {O_T_CUSTOM, 3}, {O_T_COPY, 2}, {O_T_ASSIGN, 2}, {O_T_ADDPROC, 2}, {O_T_NEW, 1}, {O_BUILD_E, 2}};
    static const Weighted coord[] = {{O_COORD, 6}, {O_COORDQ, 2}, {O_BUILD_E, 2}, {O_BUILD_Q, 1}};
    static const Weighted ctm[] = {{O_CTM, 8}, {O_CTT, 16}, {O_BUILD_E, 1}};
    static const struct { unsigned f; const Weighted* w; int n; } tabs[] = {
#define TB(f, t) {f, t, (int)(sizeof t / sizeof *t)}
      TB(FA_HANDLE, handle), TB(FA_SIMPL, simpl), TB(FA_DIFF, diff), TB(FA_SUBST, subst), TB(FA_CONSTR, constr), TB(FA_EVAL, eval), TB(FA_TRAV, trav), TB(FA_MANIP, manip), TB(FA_QUAD, quad), TB(FA_PRINT, print), TB(FA_LATEX, latex), TB(FA_COORD, coord), TB(FA_CTM, ctm)};
    int ti;
    if (r.chance(13, 17)) { do ti = r.below(13); while (!(tabs[ti].f & own)); if (is("C02") && r.chance(3, 4)) ti = 0; if (is("C01") && r.chance(2, 3)) ti = 0; }
    else ti = r.below(13);
    int sum = 0; for (int i = 0; i < tabs[ti].n; ++i) sum += tabs[ti].w[i].w;
    int k = r.below(sum); for (int i = 0; i < tabs[ti].n; ++i) { if (k < tabs[ti].w[i].w) return tabs[ti].w[i].code; k -= tabs[ti].w[i].w; }
    return O_BUILD_E;
  }
  // the first thread's operations become the theme, the other threads repeat some of them on objects of their own
  void themed(Op& o, std::vector<Op>& theme, int i, int) {
    if (theme.empty() || (theme.size() < 3 && r.chance(1, 3))) { theme.push_back(o); return; }
    if (!r.chance(i == 0 ? 3 : 1, 4)) return;
    Op q = theme[r.below(theme.size())];
    q.f.clear(); q.a = mine(nE); if (q.b < 100) q.b = r.chance(1, 2) ? 0 : mine(nE); if (q.c < 100) q.c = r.chance(1, 2) ? 0 : mine(2);
    o = q;
  }
  static bool needs_own_target(int c) { return c == O_ASSIGN || c == O_E_ASSIGN_FROM || c == O_E_TAKE || c == O_E_SWAP || c == O_E_ASSIGN_PART || c == O_U_ASSIGN || c == O_B_ASSIGN || c == O_V_SET || c == O_V_RESIZE || c == O_Q_PART || c == O_I_PART || c == O_MIX || c == O_INPLACE || c == O_T_ASSIGN || c == O_T_CUSTOM || c == O_T_ADDPROC || c == O_DROP || c == O_N_NEW || c == O_T_NEW || c == O_BUILD_E || c == O_BUILD_Q; }
};
} // namespace

PropInfo const* find_prop(std::string const& id) { for (size_t i = 0; i < sizeof props / sizeof *props; ++i) if (id == props[i].id) return &props[i]; return 0; }

Plan generate(std::string const& prop, uint64_t seed, uint64_t run, bool thorough) {
  uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < prop.size(); ++i) h = (h ^ (unsigned char)prop[i]) * 1099511628211ULL;
  Rng r(h ^ seed * 0x9e3779b97f4a7c15ULL ^ (run + 1) * 0xc2b2ae3d27d4eb4fULL);
  Plan p; p.prop = prop; p.seed = seed; p.run = run;
  { Rng q(h ^ seed * 0xd6e8feb86659fd93ULL ^ (run + 7) * 0xa0761d6478bd642fULL); bool mem = prop == "C03" || prop == "C04" || prop == "C01" || prop == "C02"; p.reuse = q.chance(1, mem ? 3 : 2); }
  Gen g(r, p, thorough); g.prop = prop; g.own = find_prop(prop)->family; g.config();
  bool c16 = prop == "C16", c17 = prop == "C17";
  if (prop == "C02" || prop == "C04") g.fault_level = 2;
  else if (prop == "ALL") g.fault_level = r.below(3);
  else if (prop == "C01" || prop == "C03") g.fault_level = 0;
  else if (c16) g.fault_level = r.chance(1, 4) ? 1 : 0;
  else if (c17) g.fault_level = r.chance(1, 2) ? 2 : 0;
  else g.fault_level = 1;
  if (!c16 && !c17) {
    p.nthreads = 1;
    g.setup(p.ops[0], false);
    int n = 4 + (int)r.below(thorough ? 20 : 12);
    if (prop == "C01" || prop == "C03") n += r.below(20);
    if (prop == "C18") n += 10 + r.below(20);
    for (int i = 0; i < n; ++i) { Op o = g.gen(g.pick_op()); g.faults(o); p.ops[0].push_back(o); }
    return p;
  }
  p.nthreads = 2 + (int)r.below(r.chance(1, 3) ? 3 : 2);
  p.start = 1 + (int)r.below(p.nthreads);
  p.dense_seed = r.next(); { static const unsigned means[] = {3, 10, 40, 150, 600, 3000}; p.dense_mean = means[r.below(6)]; }
  p.max_switches = 2000;
  p.shared = c16;
  std::vector<Op> theme;    // operations that several threads perform in the same way: they meet state shared behind their backs
  if (c16) {
    g.setup(p.ops[0], true);
    g.shared = true;
    for (int t = 1; t <= p.nthreads; ++t) {
      std::vector<P> pool = g.pool;
      int n = 2 + (int)r.below(thorough ? 8 : 5);
      for (int i = 0; i < n; ++i) { int c; do c = g.pick_op(); while (Gen::needs_own_target(c) && r.chance(9, 10)); Op o = g.gen(c); g.themed(o, theme, i, n); g.faults(o); for (size_t k = 0; k < o.f.size(); ++k) o.f[k].max = std::min<uint64_t>(o.f[k].max, 6); p.ops[t].push_back(o); }
      g.pool = pool;
    }
  } else {
    for (int t = 1; t <= p.nthreads; ++t) {
      g.nE = g.nU = g.nB = g.nV = g.nQ = g.nI = g.nT = g.nN = 0;
      g.setup(p.ops[t], false);
      int n = 2 + (int)r.below(thorough ? 8 : 5);
      for (int i = 0; i < n; ++i) { Op o = g.gen(g.pick_op()); g.themed(o, theme, i, n); g.faults(o); for (size_t k = 0; k < o.f.size(); ++k) o.f[k].max = std::min<uint64_t>(o.f[k].max, 6); p.ops[t].push_back(o); }
    }
  }
  return p;
}

// ------------------------------------------------------------------ text
std::string to_text(Plan const& p) {
  std::string s; char b[512];
  snprintf(b, sizeof b, "viennamath-sim plan 1\nproperty %s\nseed %llu run %llu\nthreads %d shared %d start %d\nschedule %s %llu %u %u\n", p.prop.c_str(), (unsigned long long)p.seed, (unsigned long long)p.run, p.nthreads, (int)p.shared, p.start, p.explicit_sched ? "explicit" : "dense", (unsigned long long)p.dense_seed, p.dense_mean, p.max_switches);
  s += b;
  if (p.reuse) s += "heap reuse\n";
  for (int t = 0; t < MAXT; ++t) {
    if (p.ops[t].empty()) continue;
    snprintf(b, sizeof b, "thread %d\n", t); s += b;
    for (size_t i = 0; i < p.ops[t].size(); ++i) {
      Op const& o = p.ops[t][i];
      snprintf(b, sizeof b, "op %s %d %d %d %d | %ld %ld %ld %ld | %a", op_names[o.code], o.a, o.b, o.c, o.d, o.n[0], o.n[1], o.n[2], o.n[3], o.x); s += b;
      for (int k = 0; k < 3; ++k) s += " | " + model::show(o.t[k]);
      s += " |";
      for (size_t k = 0; k < o.f.size(); ++k) { snprintf(b, sizeof b, " %s:%llu:%llu:%llu", fault_names[o.f[k].kind], (unsigned long long)o.f[k].k, (unsigned long long)o.f[k].stride, (unsigned long long)o.f[k].max); s += b; }
      s += "\n";
    }
  }
  for (size_t i = 0; i < p.pre.size(); ++i) { snprintf(b, sizeof b, "preempt %d %llu %d\n", p.pre[i].tid, (unsigned long long)p.pre[i].at, p.pre[i].to); s += b; }
  return s;
}

static std::vector<std::string> split(std::string const& s, char c) { std::vector<std::string> v; size_t i = 0; for (;;) { size_t j = s.find(c, i); v.push_back(s.substr(i, j == std::string::npos ? j : j - i)); if (j == std::string::npos) break; i = j + 1; } return v; }
bool from_text(std::string const& text, Plan& p, std::string& err) {
  p = Plan(); std::vector<std::string> lines = split(text, '\n'); int th = 0; bool head = false;
  for (size_t li = 0; li < lines.size(); ++li) {
    std::string const& l = lines[li]; char w[64] = "", w2[64] = ""; unsigned long long u1, u2; int i1, i2, i3; unsigned m1, m2;
    if (l.empty() || l[0] == '#') continue;
    if (l == "viennamath-sim plan 1") { head = true; continue; }
    if (!head) { err = "not a plan"; return false; }
    if (sscanf(l.c_str(), "property %63s", w) == 1) { p.prop = w; continue; }
    if (sscanf(l.c_str(), "seed %llu run %llu", &u1, &u2) == 2) { p.seed = u1; p.run = u2; continue; }
    if (sscanf(l.c_str(), "threads %d shared %d start %d", &i1, &i2, &i3) == 3) { p.nthreads = i1; p.shared = i2; p.start = i3; continue; }
    if (sscanf(l.c_str(), "schedule %63s %llu %u %u", w, &u1, &m1, &m2) == 4) { p.explicit_sched = !strcmp(w, "explicit"); p.dense_seed = u1; p.dense_mean = m1; p.max_switches = m2; continue; }
    if (l == "heap reuse") { p.reuse = true; continue; }
    if (sscanf(l.c_str(), "thread %d", &i1) == 1) { th = i1; if (th < 0 || th >= MAXT) { err = "thread"; return false; } continue; }
    if (sscanf(l.c_str(), "preempt %d %llu %d", &i1, &u1, &i2) == 3) { Preempt q; q.tid = i1; q.at = u1; q.to = i2; p.pre.push_back(q); continue; }
    if (l.compare(0, 3, "op ") == 0) {
      std::vector<std::string> f = split(l, '|'); Op o; o.code = -1;
      if (f.size() != 7) { err = "fields in: " + l; return false; }
      if (sscanf(f[0].c_str(), "op %63s %d %d %d %d", w2, &o.a, &o.b, &o.c, &o.d) != 5) { err = l; return false; }
      for (int k = 0; k < O_COUNT; ++k) if (!strcmp(w2, op_names[k])) o.code = k;
      if (o.code < 0) { err = std::string("operation ") + w2; return false; }
      if (sscanf(f[1].c_str(), "%ld %ld %ld %ld", &o.n[0], &o.n[1], &o.n[2], &o.n[3]) != 4) { err = l; return false; }
      o.x = strtod(f[2].c_str(), 0);
      for (int k = 0; k < 3; ++k) { const char* q = f[3 + k].c_str(); while (*q == ' ') ++q; o.t[k] = model::parse(q); }
      std::vector<std::string> fs = split(f[6], ' ');
      for (size_t k = 0; k < fs.size(); ++k) {
        if (fs[k].empty()) continue;
        std::vector<std::string> q = split(fs[k], ':'); if (q.size() != 4) { err = "fault " + fs[k]; return false; }
        FaultSpec s; s.kind = 0; for (int n = 1; n < F_NKINDS; ++n) if (q[0] == fault_names[n]) s.kind = n;
        if (!s.kind) { err = "fault " + fs[k]; return false; }
        s.k = strtoull(q[1].c_str(), 0, 10); s.stride = strtoull(q[2].c_str(), 0, 10); s.max = strtoull(q[3].c_str(), 0, 10); o.f.push_back(s);
      }
      p.ops[th].push_back(o); continue;
    }
    err = "line: " + l; return false;
  }
  if (p.prop.empty()) { err = "no property"; return false; }
  return true;
}
