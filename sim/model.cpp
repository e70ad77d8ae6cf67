#include "model.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>

namespace model {

static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 32); }
static uint64_t bits(double d) { uint64_t u; if (d == 0) d = 0; memcpy(&u, &d, 8); return u; }

static P fin(Node* n) {
  uint32_t sz = 1; uint64_t h = mix(n->k * 1000 + n->op * 10 + n->ct, mix(n->id, n->tag)); h = mix(h, bits(n->val)); h = mix(h, bits(n->dval));
  for (auto& x : n->c) { sz += x->size; h = mix(h, x->hash); }
  if (n->lo) { sz += n->lo->size; h = mix(h, n->lo->hash); }
  if (n->hi) { sz += n->hi->size; h = mix(h, n->hi->hash); }
  n->size = sz; n->hash = h;
  return P(n);
}
static Node* raw(Kind k) { Node* n = new Node; n->k = k; n->op = 0; n->ct = C_DOUBLE; n->id = n->tag = 0; n->val = n->dval = 0; n->size = 0; n->hash = 0; return n; }
P mk_const(double v, CType t) { Node* n = raw(CONST); n->ct = t; n->val = v; return fin(n); }
P mk_var(long id) { Node* n = raw(VAR); n->id = id; return fin(n); }
P mk_fsym(long id, long tag) { Node* n = raw(FSYM); n->id = id; n->tag = tag; return fin(n); }
P mk_probe(long id, double v, double d, long l) { Node* n = raw(PROBE); n->id = id; n->val = v; n->dval = d; n->tag = l; return fin(n); }
P mk_un(int op, P a, long id, P lo, P hi) { Node* n = raw(UN); n->op = op; n->id = id; n->c.push_back(a); n->lo = lo; n->hi = hi; return fin(n); }
P mk_bin(int op, P a, P b) { Node* n = raw(BIN); n->op = op; n->c.push_back(a); n->c.push_back(b); return fin(n); }
P mk_vec(std::vector<P> const& e) { Node* n = raw(VEC); n->c = e; return fin(n); }

bool same(P const& a, P const& b) {
  if (a.get() == b.get()) return true;
  if (!a || !b) return false;
  if (a->hash != b->hash || a->k != b->k || a->op != b->op || a->ct != b->ct || a->id != b->id || a->tag != b->tag || a->c.size() != b->c.size()) return false;
  if (!(a->val == b->val || (a->val != a->val && b->val != b->val)) || a->dval != b->dval) return false;
  for (size_t i = 0; i < a->c.size(); ++i) if (!same(a->c[i], b->c[i])) return false;
  return same(a->lo, b->lo) && same(a->hi, b->hi);
}

bool deep_equal(P const& a, P const& b) {
  if (a->k != b->k) return false;
  switch (a->k) {
    case CONST: return a->ct == b->ct && a->val <= b->val && a->val >= b->val;
    case VAR: return a->id == b->id;
    case FSYM: return a->id == b->id && a->tag == b->tag;
    case PROBE: return a->id == b->id && a->val == b->val && a->dval == b->dval && a->tag == b->tag;
    case UN:
      if (a->op != b->op || !deep_equal(a->c[0], b->c[0])) return false;
      if (a->op == U_PARTIAL || a->op == U_SYMINT) return a->id == b->id;
      if (a->op == U_INT) return a->id == b->id && deep_equal(a->lo, b->lo) && deep_equal(a->hi, b->hi);
      return true;
    case BIN: return a->op == b->op && deep_equal(a->c[0], b->c[0]) && deep_equal(a->c[1], b->c[1]);
    case VEC:
      if (a->c.size() != b->c.size()) return false;
      for (size_t i = 0; i < a->c.size(); ++i) if (!deep_equal(a->c[i], b->c[i])) return false;
      return true;
  }
  return false;
}
bool shallow_equal(P const& a, P const& b) { return a->k == b->k && (a->k != CONST || a->ct == b->ct); }

static const char* uname[U_N] = {"id", "exp", "sin", "cos", "tan", "fabs", "sqrt", "log", "log10", "grad", "div", "partial", "int", "symint"};
static const char bname[] = "+-*/";
static const char cname[] = "difl";

std::string show(P const& t) {
  if (!t) return "-";
  char b[120];
  switch (t->k) {
    case CONST: snprintf(b, sizeof b, "%c:%.17g", cname[t->ct], t->val); return b;
    case VAR: snprintf(b, sizeof b, "x%ld", t->id); return b;
    case FSYM: snprintf(b, sizeof b, "%c%ld", "uvw"[t->tag < 2 ? t->tag : 2], t->id); return b;
    case PROBE: snprintf(b, sizeof b, "p:%ld:%.17g:%.17g:%ld", t->id, t->val, t->dval, t->tag); return b;
    case UN:
      if (t->op == U_PARTIAL || t->op == U_SYMINT) { snprintf(b, sizeof b, "(%s %ld ", uname[t->op], t->id); return b + show(t->c[0]) + ")"; }
      if (t->op == U_INT) { snprintf(b, sizeof b, "(int %ld ", t->id); return b + show(t->lo) + " " + show(t->hi) + " " + show(t->c[0]) + ")"; }
      return std::string("(") + uname[t->op] + " " + show(t->c[0]) + ")";
    case BIN: return std::string("(") + bname[t->op] + " " + show(t->c[0]) + " " + show(t->c[1]) + ")";
    case VEC: { std::string s = "(vec"; for (auto& x : t->c) s += " " + show(x); return s + ")"; }
  }
  return "?";
}

static void ws(const char*& s) { while (*s == ' ') ++s; }
P parse(const char*& s) {
  ws(s);
  if (*s == '-' && (s[1] == 0 || s[1] == ' ' || s[1] == '\n' || s[1] == '|')) { ++s; return P(); }
  char* e;
  if (s[1] == ':' && *s != 'p') { const char* f = strchr(cname, *s); double v = strtod(s + 2, &e); s = e; return mk_const(v, (CType)(f ? f - cname : 0)); }
  if (*s == 'p') { long id = strtol(s + 2, &e, 10); double v = strtod(e + 1, &e), d = strtod(e + 1, &e); long l = strtol(e + 1, &e, 10); s = e; return mk_probe(id, v, d, l); }
  if (*s == 'x') { long id = strtol(s + 1, &e, 10); s = e; return mk_var(id); }
  if (*s == 'u' || *s == 'v' || *s == 'w') { long t = *s - 'u'; long id = strtol(s + 1, &e, 10); s = e; return mk_fsym(id, t); }
  if (*s != '(') { fprintf(stderr, "cannot parse tree at '%s'\n", s); _Exit(79); }
  ++s;
  std::string w; while (*s != ' ' && *s != ')') w += *s++;
  P r;
  if (w == "vec") { std::vector<P> el; for (;;) { ws(s); if (*s == ')') break; el.push_back(parse(s)); } r = mk_vec(el); }
  else if (w.size() == 1 && strchr(bname, w[0])) { P a = parse(s), b = parse(s); r = mk_bin(strchr(bname, w[0]) - bname, a, b); }
  else {
    int op = -1; for (int i = 0; i < U_N; ++i) if (w == uname[i]) op = i;
    if (op < 0) { fprintf(stderr, "unknown operation '%s'\n", w.c_str()); _Exit(79); }
    long id = 0; P lo, hi;
    if (op == U_PARTIAL || op == U_SYMINT || op == U_INT) { ws(s); id = strtol(s, &e, 10); s = e; }
    if (op == U_INT) { lo = parse(s); hi = parse(s); }
    r = mk_un(op, parse(s), id, lo, hi);
  }
  ws(s); if (*s == ')') ++s;
  return r;
}

uint32_t depth(P const& t) { uint32_t d = 0; for (auto& x : t->c) d = std::max(d, depth(x)); return d + 1; }

// ------------------------------------------------------------------ numeric semantics
static const double EPS = 2.3e-16;
static Val scal(double v, double e) {
  Val r; r.st = 1; r.s.v = v; r.s.e = e;
  if (!(std::fabs(v) < 1e60) || !(e < 1e-7 * std::max(1.0, std::fabs(v)))) r.st = -1;
  return r;
}
static Val bad(int st) { Val r; r.st = st; r.s.v = r.s.e = 0; return r; }
static bool exact_zero(Val const& a) { return a.st == 1 && a.s.v == 0 && a.s.e == 0; }
static int worse(int a, int b) { if (a == 0 || b == 0) return 0; return std::min(a, b); }

static Val bop(int op, Val const& a, Val const& b) {
  if (op == B_MULT && (exact_zero(a) || exact_zero(b))) return scal(0, 0);
  if (op == B_DIV && exact_zero(a) && !(b.st == 1 && b.s.v == 0)) return scal(0, 0);
  if (a.st <= 0 || b.st <= 0) return bad(a.st <= 0 && b.st <= 0 ? worse(a.st, b.st) : a.st <= 0 ? a.st : b.st);
  if (a.st == 1 && b.st == 1) {
    double x = a.s.v, y = b.s.v, ex = a.s.e, ey = b.s.e, v;
    switch (op) {
      case B_PLUS: v = x + y; return scal(v, exact_zero(a) || exact_zero(b) ? ex + ey : ex + ey + std::fabs(v) * EPS);
      case B_MINUS: v = x - y; return scal(v, exact_zero(a) || exact_zero(b) ? ex + ey : ex + ey + std::fabs(v) * EPS);
      case B_MULT: v = x * y; return scal(v, std::fabs(x) * ey + std::fabs(y) * ex + ex * ey + std::fabs(v) * EPS);
      default:
        if (y == 0 && ey == 0) return bad(-2);
        if (std::fabs(y) <= 8 * ey || std::fabs(y) < 1e-30) return bad(-1);
        v = x / y; return scal(v, (ex + std::fabs(v) * ey) / (std::fabs(y) - ey) + std::fabs(v) * EPS);
    }
  }
  if (op == B_PLUS || op == B_MINUS) {
    if (exact_zero(b)) return a;
    Val r; r.st = 2; r.s.v = r.s.e = 0;
    if (exact_zero(a)) { r = b; if (op == B_MINUS) for (auto& n : r.w) n.v = -n.v; return r; }
    if (a.st != b.st) { Num const& z = a.st == 1 ? a.s : b.s; if (std::fabs(z.v) <= 32 * z.e + 1e-12) return bad(-1); }   // a zero up to rounding
    if (a.st != 2 || b.st != 2 || a.w.size() != b.w.size()) return bad(0);
    for (size_t i = 0; i < a.w.size(); ++i) { Val x = bad(1), y = bad(1); x.s = a.w[i]; y.s = b.w[i]; Val z = bop(op, x, y); if (z.st != 1) return z; r.w.push_back(z.s); }
    return r;
  }
  if (op == B_MULT) {
    if (a.st == 2 && b.st == 2) {
      if (a.w.size() != b.w.size()) return bad(0);
      Val sum = scal(0, 0);
      for (size_t i = 0; i < a.w.size(); ++i) { Val x = bad(1), y = bad(1); x.s = a.w[i]; y.s = b.w[i]; sum = bop(B_PLUS, sum, bop(B_MULT, x, y)); if (sum.st != 1) return sum; }
      return sum;
    }
    Val const& sc = a.st == 1 ? a : b; Val r = a.st == 2 ? a : b;
    for (auto& n : r.w) { Val x = bad(1); x.s = n; Val z = bop(B_MULT, sc, x); if (z.st != 1) return z; n = z.s; }
    return r;
  }
  if (a.st == 2 && b.st == 1) {
    Val r = a;
    for (auto& n : r.w) { Val x = bad(1); x.s = n; Val z = bop(B_DIV, x, b); if (z.st != 1) return z; n = z.s; }
    return r;
  }
  return bad(0);
}

static Val uop(int op, Val const& a) {
  if (a.st <= 0) return a;
  if (op == U_ID) return a;
  if (a.st == 2) return bad(0);
  double x = a.s.v, e = a.s.e, v;
  switch (op) {
    case U_EXP: if (x > 100) return bad(-1); v = std::exp(x); return scal(v, v * (std::expm1(e) + 2 * EPS));
    case U_SIN: v = std::sin(x); return scal(v, e + 2 * EPS);
    case U_COS: v = std::cos(x); return scal(v, e + 2 * EPS);
    case U_TAN: { v = std::tan(x); if (std::fabs(v) > 1e4) return bad(-1); return scal(v, 2 * e * (1 + v * v) + (1 + std::fabs(v)) * 2 * EPS); }
    case U_FABS: return scal(std::fabs(x), e);
    case U_SQRT: if (x == 0 && e == 0) return scal(0, 0); if (x <= -4 * e && x < 0) return bad(-2); if (x <= 4 * e || x < 1e-30) return bad(-1);
      v = std::sqrt(x); return scal(v, e / v + v * EPS);
    case U_LOG: case U_LOG10: if ((x <= -4 * e && x < 0) || (x == 0 && e == 0)) return bad(-2); if (x <= 4 * e || x < 1e-30) return bad(-1);
      if (op == U_LOG) { v = std::log(x); return scal(v, 2 * e / x + (1 + std::fabs(v)) * 2 * EPS); }
      v = std::log10(x); return scal(v, e / x + (1 + std::fabs(v)) * 2 * EPS);
  }
  return bad(0);
}

static double hreal(uint64_t a, uint64_t b, uint64_t c) { uint64_t h = mix(mix(mix(0xabcdef, a), b), c); h = mix(h, 77); return (h >> 11) * (1.0 / 9007199254740992.0); }

static Val lin_add(Val const& acc, Val x, double w, bool first) {
  Val k = scal(w, 0); x = bop(B_MULT, k, x);
  if (first) return x;
  return bop(B_PLUS, acc, x);
}

static Val partial(P const& t, long i, Env& env) {
  Env e1 = env, e2 = env;
  for (int k = 0; k < NP; ++k) { double s = 0.1 + 0.35 * hreal(11, i, k); e1.p[k] += s; e2.p[k] -= s; }
  double c = 0.6 + 0.5 * hreal(12, i, 0);
  Val a = eval(t, e1); e2.budget = e1.budget; if (a.st <= 0) { env.budget = e1.budget; return a; }
  Val b = eval(t, e2); env.budget = e2.budget;
  if (exact_zero(a) && exact_zero(b)) return a;
  return lin_add(lin_add(a, a, c, true), b, -c, false);
}

Val eval(P const& t, Env& env) {
  if (--env.budget < 0) return bad(-1);
  switch (t->k) {
    case CONST: return scal(t->val, 0).st == -1 ? bad(-1) : scal(t->val, 0);
    case VAR: if (t->id >= 0 && t->id < NP) return scal(env.p[t->id], 0); return scal(env.p[(unsigned long)t->id % NP] * 0.5 + 0.3 * hreal(41, t->id, 0), 4 * EPS);
    case PROBE: return scal(t->val, 0);
    case FSYM: {
      double ph = 6.28 * hreal(1, t->id, t->tag), a = 0;
      for (int k = 0; k < 8; ++k) a += env.p[k] * (0.2 + 0.8 * hreal(2 + k, t->id, t->tag));
      for (int k = 8; k < NP; ++k) a += env.p[k] * (0.2 + 0.3 * hreal(60 + k, t->id, t->tag));
      double v = 1.7 + 1.1 * std::sin(a + ph);
      return scal(v, 8 * EPS);
    }
    case BIN: { Val a = eval(t->c[0], env); Val b = eval(t->c[1], env); if (env.strict && (a.st <= 0 || b.st <= 0)) return a.st <= 0 ? a : b; if (env.strict && t->op == B_DIV && b.st == 2) return bad(0); return bop(t->op, a, b); }
    case VEC: {
      Val r; r.st = 2; r.s.v = r.s.e = 0;
      for (auto& x : t->c) { Val v = eval(x, env); if (v.st != 1) return v.st == 2 ? bad(0) : v; r.w.push_back(v.s); }
      return r;
    }
    case UN:
      switch (t->op) {
        case U_GRAD: {
          if (env.dim == 1) { Val v = partial(t->c[0], 0, env); return v.st == 2 ? bad(0) : v; }
          Val r; r.st = 2; r.s.v = r.s.e = 0; bool allz = true;
          for (int i = 0; i < env.dim; ++i) { Val v = partial(t->c[0], i, env); if (v.st != 1) return v.st == 2 ? bad(0) : v; if (!exact_zero(v)) allz = false; r.w.push_back(v.s); }
          return allz ? scal(0, 0) : r;
        }
        case U_DIV: {
          Val sum = scal(0, 0);
          for (int i = 0; i < env.dim; ++i) {
            Val v = partial(t->c[0], i, env);
            if (v.st <= 0) return v;
            if (v.st == 2) { if ((int)v.w.size() != env.dim) return bad(0); Val q = bad(1); q.s = v.w[i]; v = q; }
            sum = bop(B_PLUS, sum, v);
          }
          return sum;
        }
        case U_PARTIAL: return partial(t->c[0], t->id, env);
        case U_INT: {
          Val lo = eval(t->lo, env), hi = eval(t->hi, env);
          if (lo.st <= 0) return lo;
          if (hi.st <= 0) return hi;
          if (lo.st != 1 || hi.st != 1) return bad(0);
          static const double at[3] = {0.2, 0.5, 0.9}, w[3] = {0.3, 0.3, 0.4};
          Val acc = bad(1); double len = hi.s.v - lo.s.v; Val L = bop(B_MINUS, hi, lo);
          for (int i = 0; i < 3; ++i) {
            Env e = env; e.p[(unsigned long)t->id % NP] = lo.s.v + len * at[i];
            Val v = eval(t->c[0], e); env.budget = e.budget;
            if (v.st <= 0) return v;
            // position error
            if (v.st == 1) v.s.e += (lo.s.e + hi.s.e + 4 * EPS) * 50; else for (auto& n : v.w) n.e += (lo.s.e + hi.s.e + 4 * EPS) * 50;
            acc = lin_add(acc, v, w[i], i == 0);
            if (acc.st <= 0) return acc;
          }
          return bop(B_MULT, L, acc);
        }
        case U_SYMINT: {
          Val acc = bad(1);
          for (int i = 0; i < 2; ++i) {
            Env e = env; for (int k = 0; k < NP; ++k) e.p[k] += 0.4 * hreal(21 + i, t->id, k) - 0.15;
            Val v = eval(t->c[0], e); env.budget = e.budget;
            if (v.st <= 0) return v;
            acc = lin_add(acc, v, 0.5 + 0.7 * hreal(31 + i, t->id, 0), i == 0);
            if (acc.st <= 0) return acc;
          }
          return acc;
        }
        default: return uop(t->op, eval(t->c[0], env));
      }
  }
  return bad(0);
}

void random_env(Rng& r, Env& e, int dim) {
  int mode = r.below(3);
  for (int k = 0; k < NP; ++k) e.p[k] = mode == 0 ? 0.2 + 2 * r.real() : mode == 1 ? -2 + 4 * r.real() : 0.6 + 0.7 * r.real();
  e.dim = dim; e.budget = 60000; e.strict = false;
}

int compare(P const& a, P const& b, uint64_t seed, int dim, std::string* why) {
  if (same(a, b)) return 1;
  Rng r(seed ^ 0xc0ffee); int good = 0;
  for (int i = 0; i < 10 && good < 3; ++i) {
    Env e; random_env(r, e, dim);
    Env e1 = e, e2 = e; e1.strict = true;
    Val x = eval(a, e1);
    if (x.st <= 0) continue;
    Val y = eval(b, e2);
    if (y.st == -1) continue;
    bool differ = false; char buf[200] = "";
    if (y.st <= 0) { differ = true; snprintf(buf, sizeof buf, "expected %s value, got one that is %s", x.st == 1 ? "a scalar" : "a vector", y.st == 0 ? "ill-typed" : "undefined"); }
    else {
      std::vector<Num> xs = x.st == 1 ? std::vector<Num>(1, x.s) : x.w, ys = y.st == 1 ? std::vector<Num>(1, y.s) : y.w;
      bool xz = true, yz = true; for (auto& n : xs) if (n.v != 0) xz = false; for (auto& n : ys) if (n.v != 0) yz = false;
      if (x.st != y.st && xz && yz) { ++good; continue; }
      if (x.st != y.st && (xz || yz)) {
        std::vector<Num>& sc = x.st == 1 ? xs : ys; size_t n = std::max(xs.size(), ys.size()); Num z = sc[0];
        if (z.v == 0 && z.e == 0) sc.assign(n, z); else if (std::fabs(z.v) <= 32 * z.e + 1e-12) continue;
      }
      if (xs.size() != ys.size()) { differ = true; snprintf(buf, sizeof buf, "expected %zu component(s), got %zu", xs.size(), ys.size()); }
      else for (size_t k = 0; k < xs.size() && !differ; ++k) {
        double tol = 32 * (xs[k].e + ys[k].e) + 1e-12 * std::max(1.0, std::fabs(xs[k].v));
        if (!(std::fabs(xs[k].v - ys[k].v) <= tol)) { differ = true; snprintf(buf, sizeof buf, "component %zu: expected %.15g, got %.15g", k, xs[k].v, ys[k].v); }
      }
    }
    if (differ) {
      if (why) { char p[200]; snprintf(p, sizeof p, " at x=(%.4g,%.4g,%.4g,%.4g,%.4g,%.4g)", e.p[0], e.p[1], e.p[2], e.p[3], e.p[4], e.p[5]); *why = std::string(buf) + p; }
      return 0;
    }
    ++good;
  }
  return good ? 1 : -1;
}

// ------------------------------------------------------------------ calculus
P subst(P const& t, std::vector<P> const& s, std::vector<P> const& r) {
  for (size_t i = 0; i < s.size(); ++i) if (deep_equal(t, s[i])) return r[i];
  switch (t->k) {
    case UN: return mk_un(t->op, subst(t->c[0], s, r), t->id, t->lo, t->hi);
    case BIN: { P a = subst(t->c[0], s, r); return mk_bin(t->op, a, subst(t->c[1], s, r)); }
    case VEC: { std::vector<P> e; for (auto& x : t->c) e.push_back(subst(x, s, r)); return mk_vec(e); }
    default: return t;
  }
}

static P C(double v) { return mk_const(v); }
static P mul(P a, P b) { return mk_bin(B_MULT, a, b); }

P diff(P const& t, P const& w) {
  switch (t->k) {
    case CONST: return C(0);
    case VAR: return C(w->k == VAR && w->id == t->id ? 1 : 0);
    case FSYM: if (w->k != FSYM) return P(); return C(w->id == t->id && w->tag == t->tag ? 1 : 0);
    case PROBE: return mk_probe(t->id, t->dval, 0, 0);
    case VEC: { std::vector<P> e; for (auto& x : t->c) { P d = diff(x, w); if (!d) return P(); e.push_back(d); } return mk_vec(e); }
    case BIN: {
      P a = t->c[0], b = t->c[1], da = diff(a, w), db = diff(b, w);
      if (!da || !db) return P();
      switch (t->op) {
        case B_PLUS: case B_MINUS: return mk_bin(t->op, da, db);
        case B_MULT: return mk_bin(B_PLUS, mul(da, b), mul(a, db));
        default: return mk_bin(B_DIV, mk_bin(B_MINUS, mul(da, b), mul(a, db)), mul(b, b));   // also for vector numerators
      }
    }
    case UN: {
      P a = t->c[0];
      if (t->op == U_FABS || (formal(t->op) && t->op != U_GRAD) || (t->op == U_GRAD && w->k != FSYM)) return P();
      P da = diff(a, w);
      if (!da) return P();
      switch (t->op) {
        case U_ID: return da;
        case U_EXP: return mul(da, t);
        case U_SIN: return mul(da, mk_un(U_COS, a));
        case U_COS: return mul(C(-1), mul(da, mk_un(U_SIN, a)));
        case U_TAN: return mul(da, mk_bin(B_PLUS, C(1), mul(t, t)));
        case U_SQRT: return mk_bin(B_DIV, mul(C(0.5), da), t);
        case U_LOG: return mk_bin(B_DIV, da, a);
        case U_LOG10: return mk_bin(B_DIV, da, mul(C(2.302585092994045684), a));
        case U_GRAD: return mk_un(U_GRAD, da);
      }
    }
  }
  return P();
}

bool is_const(P const& t) { return t->k == CONST || (t->k == BIN && is_const(t->c[0]) && is_const(t->c[1])); }
double unwrap(P const& t) {
  if (t->k == CONST) return t->val;
  double a = unwrap(t->c[0]), b = unwrap(t->c[1]);
  switch (t->op) { case B_PLUS: return a + b; case B_MINUS: return a - b; case B_MULT: return a * b; default: return a / b; }
}
// does the term contain a trivial operation?
bool can_simplify(P const& t) {
  switch (t->k) {
    case PROBE: return t->tag > 0;
    case UN: return can_simplify(t->c[0]);
    case VEC: for (auto& x : t->c) if (can_simplify(x)) return true; return false;
    case BIN: {
      P a = t->c[0], b = t->c[1]; bool ca = is_const(a), cb = is_const(b);
      if (ca && cb) return true;
      double va = ca ? unwrap(a) : 5, vb = cb ? unwrap(b) : 5;
      if (va == 0) return true;
      if (t->op == B_DIV) { if (vb == 1) return true; }
      else if (vb == 0) return true;
      if (t->op == B_MULT && (va == 1 || vb == 1)) return true;
      if (t->op == B_MULT && a->k == VEC && b->k == VEC) return true;
      return can_simplify(a) || can_simplify(b);
    }
    default: return false;
  }
}

static long shape(P const& t, bool& bad) {   // 0: scalar, n: vector, -1: unknown
  switch (t->k) {
    case VEC: for (auto& x : t->c) if (shape(x, bad) != 0) bad = true; if (t->c.empty()) { bad = true; return -1; } return t->c.size();
    case UN: { long s = shape(t->c[0], bad); if (t->lo) { if (shape(t->lo, bad) != 0) bad = true; if (shape(t->hi, bad) != 0) bad = true; } return t->op == U_GRAD || t->op == U_DIV ? 0 : s; }
    case BIN: {
      long a = shape(t->c[0], bad), b = shape(t->c[1], bad);
      if (a && b && a != b) bad = true;
      return t->op == B_MULT ? (a && b ? 0 : a ? a : b) : a ? a : b;
    }
    default: return 0;
  }
}
bool bad_shape(P const& t) { bool b = false; shape(t, b); return b; }

bool contains(P const& t, bool (*pred)(P const&)) {
  if (pred(t)) return true;
  for (auto& x : t->c) if (contains(x, pred)) return true;
  if (t->lo && (contains(t->lo, pred) || contains(t->hi, pred))) return true;
  return false;
}

P sym_to_rt(P const& t, long id, P const& lo, P const& hi, long var) {
  if (t->k == UN && t->op == U_SYMINT && t->id == id) return mk_un(U_INT, t->c[0], var, lo, hi);
  switch (t->k) {
    case UN: return mk_un(t->op, sym_to_rt(t->c[0], id, lo, hi, var), t->id, t->lo, t->hi);
    case BIN: { P a = sym_to_rt(t->c[0], id, lo, hi, var); return mk_bin(t->op, a, sym_to_rt(t->c[1], id, lo, hi, var)); }
    default: return t;
  }
}

// ------------------------------------------------------------------ text
std::string number(double v, CType t) {
  std::ostringstream s;
  switch (t) { case C_DOUBLE: s << v; break; case C_INT: s << (int)v; break; case C_FLOAT: s << (float)v; break; default: s << (long)v; }
  return s.str();
}
static std::string num(long v) { return std::to_string(v); }
std::string interval_str(P const& lo, P const& hi) { return "interval(" + expr_str(lo) + ", " + expr_str(hi) + ")"; }
std::string unary_op_str(P const& t) {
  switch (t->op) {
    case U_PARTIAL: return "partial_deriv<" + num(t->id) + ">";
    case U_INT: return "rt_integral[" + interval_str(t->lo, t->hi) + ", variable(" + num(t->id) + ")]";
    case U_SYMINT: return "symbolic_integral[symbolic_interval[" + num(t->id) + "]]";
    default: return uname[t->op];
  }
}
std::string deep_str(P const& t) {
  switch (t->k) {
    case CONST: return "constant(" + number(t->val, t->ct) + ")";
    case VAR: return "variable(" + num(t->id) + ")";
    case FSYM: return t->tag == 0 ? "function_symbol<unknown(" + num(t->id) + ")>" : t->tag == 1 ? "function_symbol<test(" + num(t->id) + ")>" : "function_symbol<invalid>";
    case PROBE: return "probe" + num(t->id);
    case UN: return unary_op_str(t) + "(" + deep_str(t->c[0]) + ")";
    case BIN: return "(" + deep_str(t->c[0]) + bname[t->op] + deep_str(t->c[1]) + ")";
    case VEC: { std::string s = "[" + num(t->c.size()) + "]("; for (size_t i = 0; i < t->c.size(); ++i) { if (i) s += ", "; s += expr_str(t->c[i]); } return s + ")"; }
  }
  return "";
}
std::string expr_str(P const& t) { return t->k == BIN ? "expr" + deep_str(t) : "expr(" + deep_str(t) + ")"; }

bool latex_ok(P const& t, Names const& n) {
  if (t->k == VEC) return false;
  if (t->k == CONST && t->ct != C_DOUBLE) return false;
  if (t->k == PROBE && n.probe[t->id & 3] < 0) return false;
  for (auto& x : t->c) if (!latex_ok(x, n)) return false;
  if (t->lo && (!latex_ok(t->lo, n) || !latex_ok(t->hi, n))) return false;
  return true;
}
std::string latex_interval(P const& lo, P const& hi, Names const& n) { return " [ " + latex(lo, false, n) + "; " + latex(hi, false, n) + " ] "; }
std::string latex(P const& t, bool par, Names const& n) {
  switch (t->k) {
    case CONST: return " " + number(t->val, t->ct) + " ";
    case VAR: { auto it = n.var.find(t->id); return it != n.var.end() ? it->second : " x_{" + num(t->id) + "} "; }
    case FSYM: { auto it = n.fs.find(std::make_pair(t->id, t->tag)); return it != n.fs.end() ? it->second : std::string(t->tag == 1 ? " v_{" : " u_{") + num(t->id) + "} "; }
    case PROBE: return " P_{" + num(t->id) + "}" + std::string(n.probe[t->id & 3], '\'') + " ";
    case BIN: {
      if (t->op == B_DIV) return std::string(par ? " \\left( " : "") + " \\frac{" + latex(t->c[0], false, n) + "}{" + latex(t->c[1], false, n) + "} " + (par ? " \\right) " : "");
      bool m = t->op == B_MULT;
      std::string s = latex(t->c[0], m, n) + (m ? std::string(" \\cdot ") : std::string(" ") + bname[t->op] + " ") + latex(t->c[1], m || t->op == B_MINUS, n);
      return par ? "(" + s + ")" : s;
    }
    case UN: {
      P const& a = t->c[0];
      switch (t->op) {
        case U_ID: return latex(a, par, n);
        case U_EXP: return " \\exp " + latex(a, true, n) + " ";
        case U_SIN: return " \\sin " + latex(a, true, n) + " ";
        case U_COS: return " \\cos " + latex(a, true, n) + " ";
        case U_TAN: return " \\tan " + latex(a, true, n) + " ";
        case U_FABS: return " \\left|" + latex(a, false, n) + "\\right| ";
        case U_SQRT: return " \\sqrt{" + latex(a, false, n) + "} ";
        case U_LOG: return " \\ln " + latex(a, true, n) + " ";
        case U_LOG10: return " \\log " + latex(a, true, n) + " ";
        case U_GRAD: return " \\nabla " + latex(a, true, n) + " ";
        case U_DIV: return " \\nabla \\cdot " + latex(a, true, n) + " ";
        case U_PARTIAL: return " \\frac{\\partial " + latex(a, true, n) + "}{\\partial " + latex(mk_var(t->id), false, n) + "} ";
        case U_INT: return " \\int_{ " + latex_interval(t->lo, t->hi, n) + " } " + latex(a, false, n) + " " + " \\: \\mathrm{d} " + latex(mk_var(t->id), false, n) + " ";
        case U_SYMINT: return " \\int_{\\Omega_{" + num(t->id) + "}} " + latex(a, false, n) + " " + " \\: \\mathrm{d} \\Omega ";
      }
    }
    default: return "";
  }
}

// ------------------------------------------------------------------ exceptions
std::string ex_names(unsigned s) {
  static const char* nm[] = {"expression_not_evaluable", "expression_not_unwrappable", "expression_not_differentiable", "variable_index_out_of_bounds", "message (const char*)",
                             "analytic_integration_not_supported", "symbolic_integral_evaluation_not_possible", "integration_without_integral", "user exception", "user exception (std)",
                             "bad_alloc", "other std::exception", "unknown exception", "ios_base::failure"};
  std::string r; for (int i = 0; i < 14; ++i) if (s & (1u << i)) r += (r.empty() ? "" : "|") + std::string(nm[i]);
  return r.empty() ? "none" : r;
}
unsigned eval_exceptions(P const& t, long n, bool scalar) {
  switch (t->k) {
    case CONST: case PROBE: return 0;
    case VAR: return (scalar ? t->id > 0 : t->id >= n) ? X_BOUNDS : 0;
    case FSYM: case VEC: return X_NOTEVAL;
    case BIN: return eval_exceptions(t->c[0], n, scalar) | eval_exceptions(t->c[1], n, scalar);
    case UN: {
      unsigned e = eval_exceptions(t->c[0], n, scalar);
      if (e) return e;
      switch (t->op) { case U_GRAD: case U_DIV: case U_PARTIAL: return X_CHARP; case U_INT: return X_ANALYTIC; case U_SYMINT: return X_SYMINT; default: return 0; }
    }
  }
  return 0;
}

// ------------------------------------------------------------------ random trees
double random_number(Rng& r) {
  switch (r.below(9)) {
    case 0: return 0; case 1: return 1; case 2: return -1; case 3: return 2;
    case 4: return (double)(long)r.below(7) - 3;
    case 5: return 0.5; case 6: return 3;
    default: return (double)((long)r.below(64) - 24) / 8;
  }
}
double odd_number(Rng& r) {
  static const double v[] = {1e-7, 1e10, 0.1, 1.0 / 3, 123456.789, 1234567, -7654321, 1e100, 1e-300, 100000, 1e6, 0.0001, 0.00001, 999999.5, 16777217, 2147483647, -2147483648.0, 1.000000119, 2.5e-3, 0.30000000000000004};
  return v[r.below(sizeof v / sizeof *v)];
}
long big_id(unsigned long i) {
  static const long v[] = {8, 9, 10, 11, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 4096, 32767, 32768, 65535, 65536, 65537, 1000000, 2147483647L, 2147483648L, 4294967295L, 4294967296L, 4294967297L};
  return v[i % (sizeof v / sizeof *v)];
}
long far_id(Rng& r, long small) { return r.chance(1, 3) ? small + (r.chance(1, 2) ? 256L : r.chance(1, 2) ? 65536L : 4294967296L) : big_id(r.next() >> 20); }
static long pick_id(Rng& r, GenCfg const& g, long small) { return g.bigids && r.chance(1, 4) ? far_id(r, small) : small; }
double close_number(Rng& r, double v) { static const double d[] = {1e-7, 1e-8, 1e-10, 1e-12, 2.220446049250313e-16}; double k = d[r.below(5)] * (r.chance(1, 2) ? 1 : -1); return v == 0 ? k : v * (1 + k); }
P random_scalar_leaf(Rng& r, GenCfg const& g) {
  int k = r.below(10);
  if (k < 4) return mk_var(pick_id(r, g, r.below(g.nvars)));
  if (k < 7 || (k == 7 && !g.fsyms) || (k == 8 && !g.fsyms) || (k == 9 && !g.probes)) {
    double v = random_number(r);
    if (g.numbers && r.chance(1, 5)) { v = odd_number(r); int c = r.chance(1, 3) ? 1 + r.below(3) : 0; if (c == C_FLOAT) v = (float)v; else if (c == C_INT) v = v > -2147483649.0 && v < 2147483648.0 ? (double)(int)v : 123456789; else if (c == C_LONG) v = v > -1e15 && v < 1e15 ? (double)(long)v : 1234567890123; return g.other_consts ? mk_const(v, (CType)c) : mk_const(v); }
    if (g.other_consts && r.chance(1, 5)) { int c = 1 + r.below(3); if (c == C_FLOAT) v = (float)v; else v = (double)(long)v; return mk_const(v, (CType)c); }
    return mk_const(g.close && r.chance(1, 5) ? close_number(r, v) : v);
  }
  if (k < 9) return mk_fsym(pick_id(r, g, r.chance(2, 3) ? 0 : r.below(3)), r.below(8) == 0 ? 2 : r.below(2));
  return mk_probe(pick_id(r, g, r.below(4)), random_number(r), random_number(r), r.chance(1, 6) ? 1 + r.below(2) : 0);
}
P random_vec(Rng& r, GenCfg const& g, int dim, int size) {
  GenCfg h = g; h.vectors = false;
  std::vector<P> e;
  for (int i = 0; i < dim; ++i) e.push_back(random_tree(r, h, 1 + r.below(std::max(1, size / dim))));
  return mk_vec(e);
}
P random_tree(Rng& r, GenCfg const& g, int size) {
  if (size <= 1) return random_scalar_leaf(r, g);
  int k = r.below(100);
  if (g.vectors && k < 12 && size > 2) {
    int dim = g.only_dim ? g.only_dim : 1 + r.below(3);
    switch (r.below(4)) {
      case 0: return random_vec(r, g, dim, size);
      case 1: { P a = random_vec(r, g, dim, size / 2); return mk_bin(B_MULT, a, random_vec(r, g, dim, size / 2)); }
      case 2: { P a = random_vec(r, g, dim, size / 2); return mk_bin(r.chance(1, 2) ? B_PLUS : B_MINUS, a, random_vec(r, g, dim, size / 2)); }
      default: { GenCfg h = g; h.vectors = false; P a = random_tree(r, h, size / 2), b = random_vec(r, g, dim, size / 2); return r.chance(1, 2) ? mk_bin(B_MULT, a, b) : mk_bin(r.chance(1, 2) ? B_MULT : B_DIV, b, a); }
    }
  }
  if (k < 35 || size == 2) {
    int op;
    if (g.formal && r.chance(1, 3)) {
      op = U_GRAD + r.below(5);
      if ((op == U_INT || op == U_SYMINT) && !g.integrals) op = U_PARTIAL;
      GenCfg h = g; h.vectors = false;
      if (op == U_GRAD || op == U_DIV) {
        if (g.fsyms && r.chance(3, 4)) { P f = mk_fsym(r.chance(3, 4) ? 0 : 1, r.below(2)); return op == U_DIV && r.chance(1, 2) ? mk_un(U_DIV, mk_un(U_GRAD, f)) : mk_un(op, f); }
        return mk_un(op, random_tree(r, h, size - 1));
      }
      if (op == U_PARTIAL || op == U_SYMINT) { long id = pick_id(r, g, r.below(3)); return mk_un(op, random_tree(r, h, size - 1), id); }
      P lo, hi;
      if (g.constbounds || r.chance(3, 4)) { lo = mk_const((double)((long)r.below(5) - 2) / 2); hi = mk_const(lo->val + 0.5 * (1 + r.below(4))); }
      else { GenCfg b = h; b.formal = false; b.probes = false; lo = random_tree(r, b, 1 + r.below(2)); hi = random_tree(r, b, 1 + r.below(3)); }
      { long id = pick_id(r, g, r.below(g.nvars)); return mk_un(U_INT, random_tree(r, h, std::max(1, size - 3)), id, lo, hi); }
    }
    op = r.below(U_GRAD);
    if (op == U_FABS && !g.fabs) op = U_SIN;
    GenCfg h = g; h.vectors = false;
    return mk_un(op, random_tree(r, h, size - 1));
  }
  GenCfg h = g; h.vectors = g.vectors && r.chance(1, 3);
  GenCfg h0 = g; h0.vectors = false;
  int ls = 1 + r.below(size - 1); int op = r.below(4);
  bool mulside = op == B_MULT;
  P a = random_tree(r, mulside ? h : h0, ls); P b = random_tree(r, h0, std::max(1, size - 1 - ls));
  if (bad_shape(mk_bin(op, a, b))) return a;
  return mk_bin(op, a, b);
}
P random_subterm(Rng& r, P const& t) {
  if (t->c.empty() || r.chance(1, 4)) return t;
  return random_subterm(r, t->c[r.below(t->c.size())]);
}

P mutate(Rng& r, P const& t) {
  auto child = [&](size_t i) {
    std::vector<P> c = t->c; c[i] = mutate(r, c[i]);
    return t->k == UN ? mk_un(t->op, c[0], t->id, t->lo, t->hi) : t->k == BIN ? mk_bin(t->op, c[0], c[1]) : mk_vec(c);
  };
  if (!t->c.empty() && r.chance(2, 3)) return child(r.below(t->c.size()));
  switch (t->k) {
    case CONST: {
      if (t->ct == C_DOUBLE && r.chance(1, 3)) return mk_const(close_number(r, t->val));
      static const double m[] = {-1, 2, 1, 1}; int k = r.below(4); double v = t->val * m[k] + (k > 1);
      if (t->ct == C_FLOAT) v = (float)v;
      if ((t->ct == C_INT && std::fabs(v) > 2e9) || (t->ct == C_LONG && std::fabs(v) > 4e15)) v = 7;
      return mk_const(v, t->ct); }
    case VAR: return mk_var(r.chance(1, 4) ? t->id ^ 256 : t->id ? t->id - 1 : 1);
    case FSYM: return r.chance(1, 2) ? mk_fsym(t->id, (t->tag + 1) % 3) : mk_fsym(t->id ^ 1, t->tag);
    case BIN:
      switch (r.below(3)) { case 0: return mk_bin(t->op, t->c[1], t->c[0]); case 1: return mk_bin(t->op ^ 1, t->c[0], t->c[1]); default: return child(r.below(2)); }
    case UN:
      if (t->op < U_GRAD) return mk_un((t->op + 1 + r.below(U_GRAD - 1)) % U_GRAD, t->c[0]);
      if (t->op == U_PARTIAL) return mk_un(t->op, t->c[0], (t->id + 1 + r.below(2)) % 3);
      if (t->op == U_SYMINT) return mk_un(t->op, t->c[0], t->id ^ 1);
      if (t->op == U_INT) switch (r.below(4)) {
        case 0: return mk_un(t->op, t->c[0], t->id ^ 1, t->lo, t->hi);
        case 1: return mk_un(t->op, t->c[0], t->id, mutate(r, t->lo), t->hi);
        case 2: return mk_un(t->op, t->c[0], t->id, t->lo, mutate(r, t->hi));
        default: return mk_un(t->op, t->c[0], t->id, t->hi, t->lo);
      }
      return child(0);
    case VEC: {
      std::vector<P> c = t->c; if (c.empty()) return t;
      switch (r.below(4)) {
        case 0: c.push_back(c[r.below(c.size())]); return mk_vec(c);
        case 1: if (c.size() > 1) { c.pop_back(); return mk_vec(c); } return child(0);
        case 2: if (c.size() > 1) { std::swap(c[0], c[c.size() - 1]); return mk_vec(c); } return child(0);
        default: return child(r.below(c.size()));
      } }
    default: return t;
  }
}

} // namespace model
