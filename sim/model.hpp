// Reference model of ViennaMath expressions. Knows nothing about the library's code.
#ifndef SIM_MODEL_HPP
#define SIM_MODEL_HPP
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ULL + 0x1234567) { next(); }
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

namespace model {

enum Kind : uint8_t { CONST, VAR, FSYM, PROBE, UN, BIN, VEC };
enum UOp : uint8_t { U_ID, U_EXP, U_SIN, U_COS, U_TAN, U_FABS, U_SQRT, U_LOG, U_LOG10, U_GRAD, U_DIV, U_PARTIAL, U_INT, U_SYMINT, U_N };
enum BOp : uint8_t { B_PLUS, B_MINUS, B_MULT, B_DIV };
enum CType : uint8_t { C_DOUBLE, C_INT, C_FLOAT, C_LONG };

struct Node;
typedef std::shared_ptr<const Node> P;
struct Node {
  Kind k; uint8_t op; CType ct;
  long id, tag;          // VAR/FSYM/PROBE id; partial id; integration variable; symbolic interval id; FSYM tag; PROBE layers
  double val, dval;
  std::vector<P> c;      // operands / elements
  P lo, hi;              // integral bounds
  uint32_t size; uint64_t hash;
};

P mk_const(double v, CType t = C_DOUBLE);
P mk_var(long id);
P mk_fsym(long id, long tag);
P mk_probe(long id, double val, double dval, long layers);
P mk_un(int op, P a, long id = 0, P lo = P(), P hi = P());
P mk_bin(int op, P a, P b);
P mk_vec(std::vector<P> const& e);
inline bool formal(int op) { return op >= U_GRAD; }

bool same(P const& a, P const& b);          // structural identity incl. scalar types and user nodes (null-safe)
bool deep_equal(P const& a, P const& b);    // the library's documented equality
bool shallow_equal(P const& a, P const& b);
std::string show(P const& t);               // s-expression, null -> "-"
P parse(const char*& s);                    // inverse of show
uint32_t depth(P const& t);

// ---- numeric semantics ----
struct Num { double v, e; };
enum { NP = 24 };   // coordinates of a point
struct Env { double p[NP]; int dim; long budget; bool strict; Env() : dim(3), budget(60000), strict(false) {} };   // strict: zero times something without a value has no value
struct Val { int st; Num s; std::vector<Num> w; };   // st: 1 scalar, 2 vector, 0 no type, -1 ill conditioned, -2 not defined here
Val eval(P const& t, Env& env);
void random_env(Rng& r, Env& e, int dim);
// -1: unknown (no usable point), 0: differ, 1: equal
int compare(P const& a, P const& b, uint64_t seed, int dim, std::string* why = nullptr);

// ---- calculus of terms ----
P subst(P const& t, std::vector<P> const& s, std::vector<P> const& r);
P diff(P const& t, P const& wrt);           // null: not differentiable
bool is_const(P const& t);
double unwrap(P const& t);                  // of constant trees
bool can_simplify(P const& t);
bool bad_shape(P const& t);                 // products of vectors of different size, nested or empty vectors
bool contains(P const& t, bool (*pred)(P const&));
P sym_to_rt(P const& t, long id, P const& lo, P const& hi, long var);   // integrals over symbolic interval id -> integrals, outermost only

// ---- text ----
std::string number(double v, CType t);
std::string deep_str(P const& t);
std::string expr_str(P const& t);           // operator<<(rt_expr)
std::string interval_str(P const& lo, P const& hi);
std::string unary_op_str(P const& t);
struct Names { std::map<long, std::string> var; std::map<std::pair<long, long>, std::string> fs; signed char probe[4]; Names() { probe[0] = probe[1] = probe[2] = probe[3] = -1; } };   // probe: how nodes of the user with this id % 4 are written, -1: not at all
bool latex_ok(P const& t, Names const& n);
std::string latex(P const& t, bool par, Names const& n);
std::string latex_interval(P const& lo, P const& hi, Names const& n);

// ---- exceptions of evaluation ----
enum Ex : unsigned { X_NOTEVAL = 1, X_NOTUNWRAP = 2, X_NOTDIFF = 4, X_BOUNDS = 8, X_CHARP = 16, X_ANALYTIC = 32, X_SYMINT = 64, X_NOINT = 128,
                     X_USER = 256, X_USERSTD = 512, X_BADALLOC = 1024, X_OTHERSTD = 2048, X_OTHER = 4096, X_IOS = 8192 };
std::string ex_names(unsigned set);
unsigned eval_exceptions(P const& t, long n, bool scalar);   // empty set: must return a value

// ---- random trees ----
struct GenCfg {
  int max_size; bool probes, fsyms, formal, integrals, vectors, other_consts, fabs; int nvars; int only_dim;   // only_dim>0: vectors of that size
  bool constbounds; bool nolatexbad; bool bigids, numbers, close;   // close: constants that differ from usual ones in the last digits
};
P random_tree(Rng& r, GenCfg const& g, int size);
P random_scalar_leaf(Rng& r, GenCfg const& g);
P random_vec(Rng& r, GenCfg const& g, int dim, int size);
P random_subterm(Rng& r, P const& t);
P mutate(Rng& r, P const& t);  // differs from t in one place
double random_number(Rng& r);
double odd_number(Rng& r);     // very large, very small, long or inexact
long far_id(Rng& r, long small);
double close_number(Rng& r, double v);
long big_id(unsigned long i);  // identifiers beyond the usual ones

} // namespace model
#endif
