// Judges the types which manipulations of compile-time expressions result in (rows written by ctt_gen.py).
// A type denotes a rational function; source and result are evaluated modulo the prime 2^61 - 1 at a random point, as truncated
// power series in the variable of the operation, so that derivatives, coefficients and integrals of polynomials are exact.
#include <cxxabi.h>
#include <cstdlib>
#include "lib_common.hpp"
#include "ctt.hpp"
CttRow const* ctt_slice[CTT_SLICES]; long ctt_size[CTT_SLICES];
namespace {
typedef unsigned long long u64;
const u64 PRIME = (1ULL << 61) - 1;
u64 mulp(u64 a, u64 b) { unsigned __int128 t = (unsigned __int128)a * b; u64 r = (u64)(t & PRIME) + (u64)(t >> 61); return r >= PRIME ? r - PRIME : r; }
u64 addp(u64 a, u64 b) { u64 r = a + b; return r >= PRIME ? r - PRIME : r; }
u64 subp(u64 a, u64 b) { return a >= b ? a - b : a + PRIME - b; }
u64 powp(u64 a, u64 e) { u64 r = 1; for (; e; e >>= 1, a = mulp(a, a)) if (e & 1) r = mulp(r, a); return r; }
u64 invp(u64 a) { return powp(a, PRIME - 2); }

struct T { char op; long v; int l, r; };     // op: + - * / c x
struct Tree { std::vector<T> n; int root; };

// "CttTag<...>" as the compiler prints it
struct Reader {
  const char* s; Tree& t; bool bad;
  bool eat(const char* w) { size_t n = strlen(w); while (*s == ' ') ++s; if (strncmp(s, w, n)) return false; s += n; return true; }
  int node(char op, long v, int l = -1, int r = -1) { T x = {op, v, l, r}; t.n.push_back(x); return (int)t.n.size() - 1; }
  long number() { char* e; long v = strtol(s, &e, 10); s = e; while (*s == 'l' || *s == 'u') ++s; if (!eat(">")) bad = true; return v; }
  void skip() { int d = 0; for (; *s; ++s) { if (*s == '<') ++d; else if (*s == '>') { if (--d == 0) { ++s; return; } } else if (*s == ',' && d == 0) return; } }
  int expr() {
    while (*s == ' ') ++s;
    if (eat("viennamath::ct_constant<")) return node('c', number());
    if (eat("viennamath::ct_variable<")) return node('x', number());
    if (eat("viennamath::ct_function_symbol")) { skip(); return node('x', 3); }
    if (eat("viennamath::ct_binary_expr<")) {
      int l = expr(); if (bad || !eat(",")) { bad = true; return 0; }
      char op = eat("viennamath::op_plus") ? '+' : eat("viennamath::op_minus") ? '-' : eat("viennamath::op_mult") ? '*' : eat("viennamath::op_div") ? '/' : 0;
      if (!op) { bad = true; return 0; }
      skip(); if (!eat(",")) { bad = true; return 0; }
      int r = expr(); if (bad || !eat(">")) { bad = true; return 0; }
      return node(op, 0, l, r);
    }
    bad = true; return 0;
  }
};
bool read(std::type_info const* ti, Tree& t) {
  int st = 0; char* d = abi::__cxa_demangle(ti->name(), 0, 0, &st); if (!d) return false;
  Reader r = {d, t, false}; bool good = r.eat("CttTag<"); if (good) { t.root = r.expr(); good = !r.bad; }
  free(d); return good;
}
bool equal(Tree const& a, int i, Tree const& b, int j) {
  T const &x = a.n[i], &y = b.n[j]; if (x.op != y.op || x.v != y.v) return false;
  return x.op == 'c' || x.op == 'x' || (equal(a, x.l, b, y.l) && equal(a, x.r, b, y.r));
}
int copy(Tree& to, Tree const& from, int i) { T x = from.n[i]; if (x.l >= 0) { x.l = copy(to, from, x.l); x.r = copy(to, from, x.r); } to.n.push_back(x); return (int)to.n.size() - 1; }
int subst(Tree& to, Tree const& from, int i, Tree const& what, Tree const& by) {
  if (equal(from, i, what, what.root)) return copy(to, by, by.root);
  T x = from.n[i]; if (x.l >= 0) { int l = subst(to, from, x.l, what, by); x.r = subst(to, from, x.r, what, by); x.l = l; } to.n.push_back(x); return (int)to.n.size() - 1;
}
std::string text(Tree const& t, int i) {
  T const& x = t.n[i];
  if (x.op == 'c') return std::to_string(x.v);
  if (x.op == 'x') return x.v < 4 ? std::string(1, "xyzu"[x.v]) : "x" + std::to_string(x.v);
  return "(" + text(t, x.l) + " " + x.op + " " + text(t, x.r) + ")";
}
std::string text(Tree const& t) { return text(t, t.root); }

enum { MAXN = 24 };
struct Series { u64 c[MAXN]; };
struct Eval { u64 p[8]; int var, n; bool around; bool bad; };   // series in the variable var, n terms, around the point or around 0; var -1: none
Series eval(Tree const& t, int i, Eval& e) {
  T const& x = t.n[i]; Series r; memset(&r, 0, sizeof r);
  if (x.op == 'c') { long m = x.v % (long)PRIME; r.c[0] = m < 0 ? m + PRIME : m; return r; }
  if (x.op == 'x') { bool me = x.v == e.var; r.c[0] = me && !e.around ? 0 : e.p[x.v & 7]; if (me && e.n > 1) r.c[1] = 1; return r; }
  Series a = eval(t, x.l, e), b = eval(t, x.r, e);
  switch (x.op) {
    case '+': for (int k = 0; k < e.n; ++k) r.c[k] = addp(a.c[k], b.c[k]); break;
    case '-': for (int k = 0; k < e.n; ++k) r.c[k] = subp(a.c[k], b.c[k]); break;
    case '*': for (int k = 0; k < e.n; ++k) if (a.c[k]) for (int j = 0; j + k < e.n; ++j) if (b.c[j]) r.c[j + k] = addp(r.c[j + k], mulp(a.c[k], b.c[j])); break;
    default: {
      if (b.c[0] == 0) { e.bad = true; return r; }
      u64 inv = invp(b.c[0]);
      for (int k = 0; k < e.n; ++k) { u64 s = a.c[k]; for (int j = 0; j < k; ++j) if (r.c[j] && b.c[k - j]) s = subp(s, mulp(r.c[j], b.c[k - j])); r.c[k] = mulp(s, inv); }
    }
  }
  return r;
}
u64 at(Tree const& t, Eval const& e, bool& bad) { Eval f = e; f.var = -1; f.n = 1; f.around = true; f.bad = false; Series s = eval(t, t.root, f); bad = bad || f.bad; return s.c[0]; }
bool sum_in_product(Tree const& t, int i, bool below) {
  T const& x = t.n[i]; if (x.l < 0) return false;
  if (below && (x.op == '+' || x.op == '-')) return true;
  below = below || x.op == '*'; return sum_in_product(t, x.l, below) || sum_in_product(t, x.r, below);
}
// value of what the row denotes
u64 wanted(CttRow const& row, Tree const& src, Tree const& a, Tree const& b, Eval const& pt, bool& bad) {
  Eval e = pt; e.var = row.var; e.bad = false; Tree sub; Tree const* s = &src;
  if (row.kind == 'S' || row.kind == 'E') { sub.root = subst(sub, src, src.root, a, b); s = &sub; }
  u64 r = 0, t = pt.p[row.var & 7];
  switch (row.kind) {
    case 'M': case 'P': case 'S': return at(*s, pt, bad);
    case 'V': {   // a is (x + y) + z
      Tree q = a; T const& top = a.n[a.root]; q.root = a.n[top.l].l; e.p[0] = at(q, pt, bad); q.root = a.n[top.l].r; e.p[1] = at(q, pt, bad); q.root = top.r; e.p[2] = at(q, pt, bad); return at(*s, e, bad); }
    case 'D': case 'E': { e.n = 2; e.around = true; Series q = eval(*s, s->root, e); r = q.c[1]; break; }
    case '2': { e.n = 3; e.around = true; Series q = eval(*s, s->root, e); r = addp(q.c[2], q.c[2]); break; }
    case 'T': { e.n = 1; e.around = false; Series q = eval(*s, s->root, e); r = q.c[0]; break; }
    case 'C': { e.n = MAXN; e.around = false; Series q = eval(*s, s->root, e); for (int k = MAXN; --k > 0;) r = addp(mulp(r, t), q.c[k]); break; }
    case 'I': {
      e.n = MAXN; e.around = false; Series q = eval(*s, s->root, e); u64 lo = at(a, pt, bad), hi = at(b, pt, bad), pl = lo, ph = hi;
      for (int k = 0; k < MAXN; ++k) { r = addp(r, mulp(q.c[k], mulp(subp(ph, pl), invp(k + 1)))); pl = mulp(pl, lo); ph = mulp(ph, hi); }
      break;
    }
    default: sim::internal_error("kind of a row");
  }
  bad = bad || e.bad; return r;
}
}
// n0: row, n2: seed of the point
void x_CTT(OpCtx& o) {
  NEED(o.op.n[0] >= 0 && o.op.n[2] >= 0);
  int slice = (int)(o.op.n[0] % CTT_SLICES); NEED(ctt_size[slice] > 0);
  CttRow const& row = ctt_slice[slice][o.op.n[0] / CTT_SLICES % ctt_size[slice]];
  Tree src, res, a, b; if (!read(row.source, src)) sim::internal_error("source of a row");
  bool two = row.kind == 'S' || row.kind == 'E' || row.kind == 'I'; if ((two && (!read(row.a, a) || !read(row.b, b))) || (row.kind == 'V' && !read(row.a, a))) sim::internal_error("argument of a row");
  bool known = read(row.result, res);   // (another kind of object is not judged here)
  Rng rn((uint64_t)o.op.n[2] * 0x9e3779b97f4a7c15ULL + 5); Eval pt; pt.var = -1; pt.n = 1; pt.around = true; pt.bad = false; for (int i = 0; i < 8; ++i) pt.p[i] = 2 + rn.next() % (PRIME - 2);
  bool bad = false, worse = false; u64 want = wanted(row, src, a, b, pt, bad), got = known ? at(res, pt, worse) : 0;
  perform(o, [] {}, [&] {
    o.digest(want); o.digest(got); if (!known || bad) { sim::stats().skipped_points++; return; }
    sim::stats().compared++;
    static const char* const names[] = {"Msimplified", "Pexpanded", "Ssubstituted", "Ddifferentiated", "Esubstituted and differentiated", "2differentiated twice", "Tdependent terms dropped", "Ccoefficient", "Iintegrated", "Vevaluated"};
    std::string what; for (auto n : names) if (*n == row.kind) what = n + 1;
    if (two) what += " (" + text(a) + ", " + text(b) + ")"; if (row.kind == 'V') what += " at (" + text(a) + "), x, y and z in this order, the first " + std::to_string(row.var); if (strchr("D2CTEI", row.kind)) what += std::string(" w.r.t. ") + "xyzu"[row.var & 3];
    if (worse || want != got) { bad_result(o, "wrong-type", "%s, %s: the result %s has another value%s", text(src).c_str(), what.c_str(), text(res).c_str(), worse ? " (a division by zero)" : ""); return; }
    if (row.kind == 'P' && sum_in_product(res, res.root, false)) bad_result(o, "not-expanded", "%s, expanded, is %s: a sum is left below a product", text(src).c_str(), text(res).c_str());
  }, NoFail());
}
