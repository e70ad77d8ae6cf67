// Simulation kernel: simulated heap, fault injector, deterministic scheduler, happens-before race detector.
// This file and kernel.cpp are compiled without instrumentation.
#ifndef SIM_KERNEL_HPP
#define SIM_KERNEL_HPP
#include <cstddef>
#include <cstdint>

namespace sim {

enum Mode : uint8_t {
  OFF = 0,    // harness code: operator new is malloc, nothing is checked
  LIB = 1,    // library operation under test: faults, steps, scheduling, race and access checks
  CHECK = 2,  // harness reads library objects: access checks only
  SETUP = 3   // harness builds library objects: simulated heap, access checks, no faults, no steps
};

enum { MAXT = 6 };  // main thread + up to 5 simulated threads

// fault kinds
enum FaultKind : int {
  F_NONE = 0,
  F_ALLOC_AT,     // k-th allocation of the operation fails
  F_ALLOC_FROM,   // k-th and all later allocations of the operation fail
  F_USER_AT,      // k-th call of user-supplied code throws (plain struct)
  F_USER_STD_AT,  // same, throws an exception derived from std::exception
  F_SINK_FAIL,    // stream buffer accepts k characters, then reports failure
  F_SINK_SHORT,   // stream buffer accepts k characters of the current write, then reports a short write
  F_SINK_THROW,   // stream buffer accepts k characters, then throws
  F_NKINDS
};
extern const char* const fault_names[F_NKINDS];

struct InjectedFault { int where; };

struct Ctx {
  Mode mode;
  uint8_t tid;
  bool threaded;
  // per-attempt counters
  uint64_t steps;       // memory accesses of library code in this attempt
  uint64_t lsteps;      // same, whole run of this thread
  uint64_t step_limit;
  uint64_t next_preempt;  // lsteps value at which to give up the processor
  uint64_t allocs, frees;
  uint64_t fail_at, fail_from;
  uint64_t ucalls, ufail_at;
  int ufail_std;
  uint64_t fired[F_NKINDS];
  uint64_t fired_total;  // in this attempt
  int op, attempt;
  bool faulty;
  unsigned opmask;        // classes of violations this operation can be blamed for
  // vector clock
  uint32_t vc[MAXT];
  int pidx;               // position in the preemption list
};

extern thread_local Ctx* tls_ctx __attribute__((tls_model("initial-exec")));
inline Ctx* ctx() { return tls_ctx; }

struct Preempt { int tid; uint64_t at; int to; };

// ---- violations -------------------------------------------------------------
enum { VTEXT = 6000, VKEY = 160 };
struct Report {           // lives in memory shared with the parent process
  volatile int set;
  char key[VKEY];
  char text[VTEXT];
  int op;
  uint64_t hash;          // event log hash at the moment of the violation
};
// classes of violations, filtered by the check that is running
enum VClass : unsigned {
  V_MEM = 1,       // use after free, out of bounds, double/invalid free inside library code, fault-free so far
  V_MEMF = 2,      // same, in or after a faulted attempt
  V_LEAK = 4,      // block obtained in a fault-free attempt never released
  V_LEAKF = 8,     // block obtained in a faulted attempt never released
  V_RACE = 16,
  V_DEADLOCK = 32,
  V_RESULT = 64,   // wrong result / wrong exception / contract broken
  V_OPERAND = 128, // a live object changed or became unreadable
  V_PROGRESS = 256,
  V_CRASH = 512,
  V_FAULTRES = 1024, // an injected failure was swallowed / reported as another one
  V_CARRY = 4096,   // a wrong result or exception after a failure in the same thread
  V_OPERANDF = 2048 // a live object changed or became unreadable by an operation that failed
};
void violation(unsigned cls, const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void internal_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

struct Stats {            // per worker, shared memory
  uint64_t runs, ops, attempts, own_attempts, steps, allocs, frees, switches, fired[F_NKINDS], planned[F_NKINDS];
  uint64_t failed_attempts, ok_attempts, skipped_ops, retries_ok;
  uint64_t foreign;       // violations of classes belonging to other properties
  char foreign_key[VKEY]; uint64_t foreign_run;
  uint64_t compared, skipped_points, excs, simtime_ns;
  volatile uint64_t cur_run;   // run being executed + 1
  volatile uint64_t hb;        // heartbeat
};

struct RunCfg { unsigned vmask; bool trace; };

void init(Report* rep, Stats* st, size_t arena_mb);
void snapshot_globals();   // state of the globals every run starts from
void set_config(RunCfg const& c);
void set_outputs(Report* rep, Stats* st);
Stats& stats();
Report* report();

void run_begin();          // resets heap, shadow, globals
void run_end_leakcheck();  // reports blocks which are neither released nor reachable from globals
void run_end_restore();    // puts the globals back

uint64_t log_hash();                 // event log hash of the run so far
void log_event(uint64_t a, uint64_t b = 0, uint64_t c = 0);
void set_trace_fd(int fd);

void* arena_alloc(size_t n, int kind);   // harness-owned block inside the simulated heap
void arena_free(void* p);
bool in_arena(const void* p);
// The address of a released block is given out again at the next allocation of that size (as most allocators do) instead
// of never in the same run. Finds what is remembered by address; uses of released memory are easier to find without.
void set_reuse(bool on);
uint64_t live_blocks();
uint64_t arena_used();
bool accessible(const void* p, size_t n);

struct ModeGuard {
  Ctx* c; Mode old;
  explicit ModeGuard(Mode m) : c(ctx()), old(c->mode) { c->mode = m; }
  ~ModeGuard() { c->mode = old; }
};

// user-supplied code calls this at its fault points
void user_point(int where);
void note_fired(int kind);    // a fault injected outside of the kernel took effect

// ---- threads ----------------------------------------------------------------
typedef void (*ThreadFn)(int tid, void* arg);
// runs fn in n fresh threads (tids 1..n). For n==1 no scheduling takes place.
struct SchedCfg {
  const Preempt* explicit_list; int nexplicit;   // explicit mode if explicit_list != 0 or dense_mean == 0
  uint64_t dense_seed; unsigned dense_mean;      // dense mode
  int start;
  uint64_t step_limit;
  unsigned max_switches;
};
void run_threads(int n, ThreadFn fn, void* arg, SchedCfg const& cfg);
int taken_count();
Preempt const* taken_list();
uint64_t switch_hash();

} // namespace sim
#endif
