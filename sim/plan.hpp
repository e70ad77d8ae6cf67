// A plan is one complete scenario: operations with their faults for every simulated thread, plus the schedule.
#ifndef SIM_PLAN_HPP
#define SIM_PLAN_HPP
#include "kernel.hpp"
#include "model.hpp"
#include <string>
#include <vector>

// families decide which property an operation's result belongs to
enum Family : unsigned {
  FA_NONE = 0, FA_HANDLE = 1, FA_SIMPL = 2, FA_DIFF = 4, FA_SUBST = 8, FA_CONSTR = 16, FA_EVAL = 32, FA_TRAV = 64, FA_MANIP = 128,
  FA_QUAD = 256, FA_PRINT = 512, FA_LATEX = 1024, FA_COORD = 2048, FA_EQUAL = 4096, FA_CTM = 8192
};

#define OPS(X) \
  X(BUILD_E, FA_NONE) X(BUILD_U, FA_NONE) X(BUILD_B, FA_NONE) X(BUILD_V, FA_NONE) X(BUILD_Q, FA_NONE) X(BUILD_I, FA_NONE) X(DROP, FA_NONE) \
  X(COPY, FA_HANDLE) X(ASSIGN, FA_HANDLE) X(E_CTOR_FROM, FA_HANDLE) X(E_ASSIGN_FROM, FA_HANDLE) X(E_ASSIGN_PART, FA_HANDLE) X(E_TAKE, FA_HANDLE) X(E_SWAP, FA_HANDLE) \
  X(U_ASSIGN, FA_HANDLE) X(B_ASSIGN, FA_HANDLE) X(V_SET, FA_HANDLE) X(V_RESIZE, FA_HANDLE) X(Q_CTOR, FA_HANDLE) X(I_CTOR, FA_HANDLE) X(Q_PART, FA_HANDLE) X(I_PART, FA_HANDLE) \
  X(W_OP, FA_HANDLE) X(MIX, FA_HANDLE) \
  X(EQUAL, FA_EQUAL) \
  X(SIMPLIFY, FA_SIMPL) X(INPLACE, FA_SIMPL) \
  X(DIFF, FA_DIFF) X(SUBST, FA_SUBST) X(SUBSTN, FA_SUBST) X(SYMSUB, FA_MANIP) X(MANIP, FA_MANIP) X(TRAVERSE, FA_TRAV) \
  X(EVAL, FA_EVAL) X(PRINT, FA_PRINT) X(STR, FA_PRINT) X(COORD, FA_COORD) X(COORDQ, FA_COORD) \
  X(CONSTRUCT, FA_CONSTR) X(FUNC, FA_CONSTR) X(MAKE, FA_CONSTR) X(INTEGRAL, FA_CONSTR) X(VECOP, FA_CONSTR) \
  X(N_NEW, FA_QUAD) X(N_ASSIGN, FA_QUAD) X(QUAD, FA_QUAD) X(QUAD2, FA_QUAD) \
  X(T_NEW, FA_LATEX) X(T_COPY, FA_LATEX) X(T_ASSIGN, FA_LATEX) X(T_CUSTOM, FA_LATEX) X(T_ADDPROC, FA_LATEX) X(LATEX, FA_LATEX) \
  X(CTM, FA_CTM) X(CTT, FA_CTM)

enum OpCode : int {
#define X(n, f) O_##n,
  OPS(X)
#undef X
  O_COUNT
};
extern const char* const op_names[O_COUNT];
extern const unsigned op_family[O_COUNT];

struct FaultSpec { int kind; uint64_t k; uint64_t stride, max; };   // stride > 0: sweep k, k+stride, ... (at most max attempts)

struct Op {
  int code; int a, b, c, d; long n[4]; double x; model::P t[3]; std::vector<FaultSpec> f;
  Op() : code(0), a(0), b(0), c(0), d(0), x(0) { n[0] = n[1] = n[2] = n[3] = 0; }
};

struct Plan {
  std::string prop; uint64_t seed, run;
  int nthreads; bool shared;                    // shared: threads read common objects (set up by thread 0's operations)
  std::vector<Op> ops[sim::MAXT];               // [0]: setup (shared) or the only thread
  // schedule
  int start; uint64_t dense_seed; unsigned dense_mean; unsigned max_switches; bool explicit_sched; std::vector<sim::Preempt> pre;
  bool reuse;                                   // addresses of released blocks are used again
  Plan() : seed(0), run(0), nthreads(1), shared(false), start(1), dense_seed(0), dense_mean(0), max_switches(0), explicit_sched(false), reuse(false) {}
};

struct PropInfo { const char* id; unsigned family; unsigned vmask; };
PropInfo const* find_prop(std::string const& id);

Plan generate(std::string const& prop, uint64_t seed, uint64_t run, bool thorough);
std::string to_text(Plan const& p);
bool from_text(std::string const& s, Plan& p, std::string& err);

// ---- executor (instrumented side) ----
void execute(Plan const& p, unsigned own_family);     // runs the plan completely; violations end the process
void warm_up();
enum : unsigned { OWN_OPERANDS = 0x80000000u, OWN_CONCURRENT = 0x40000000u, OWN_AFTER_FAULT = 0x20000000u };
// called with the hash of every executed interleaving
extern void (*note_interleaving)(uint64_t h);
// distinct-state recorder: called with a hash for every attempt
extern void (*note_state)(uint64_t h, bool nontrivial);
#endif
