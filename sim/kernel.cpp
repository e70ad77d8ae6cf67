#include "kernel.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <new>
#include <exception>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" char __data_start, _edata, __bss_start, _end;
extern "C" void* __real_memset(void*, int, size_t);   // see the end of this file

namespace sim {

const char* const fault_names[F_NKINDS] = {"none", "alloc_at", "alloc_from", "user_throw", "user_throw_std",
                                           "sink_fail", "sink_short", "sink_throw"};

thread_local Ctx* tls_ctx __attribute__((tls_model("initial-exec"))) = nullptr;

namespace {

const uintptr_t ARENA_BASE = 0x500000000000ULL;
const uint32_t MAGIC = 0x51b10cc5u, MAGIC_FREED = 0x0ddba11fu;

struct Hdr {              // 32 bytes, directly before the payload
  uint32_t magic;
  int32_t op;
  uint64_t size;
  uint32_t seq;
  int16_t attempt;
  uint8_t kind;           // 0 new, 1 new[], 2 harness
  uint8_t flags;          // 1: faulty attempt; 2: mark (reachability)
  uint32_t freed_op;
  uint8_t tid, freed_tid;
  uint16_t pad;
};
static_assert(sizeof(Hdr) == 32, "header");

struct RaceWord {
  uint32_t wclk; uint8_t wtid, wmask; uint8_t rmask[MAXT];
  uint32_t rclk[MAXT];
};

struct SyncObj { uintptr_t addr; uint32_t vc[MAXT]; int owner; int count; int state; int readers; };
enum { NSYNC = 4096, NTAKEN = 20000, NCLASS = 64 };

struct State {
  // heap
  uintptr_t base, bump, end;
  uint8_t* shadow;        // one byte per 8 bytes: 0 unaddressable, 1..8 valid bytes, 0x80 freed
  RaceWord* rw;           // one per 8 bytes of the heap
  RaceWord* grw;          // one per 8 bytes of the globals
  uintptr_t glo, ghi;
  uint8_t* gsnap;
  uint32_t seq;
  uint64_t live;
  bool reuse; Hdr* freelist[NCLASS];   // released blocks by rounded size, the last one first
  bool faulted_before;    // a fault has fired in this run
  // config
  RunCfg cfg;
  Report* rep;
  Stats* st;
  uint64_t hash;
  int trace_fd;
  bool running;
  // scheduler
  int nthreads, cur; bool was_threaded;
  bool done[MAXT];
  uintptr_t blocked_on[MAXT];
  volatile int turn[MAXT];
  Ctx ctxs[MAXT];
  SchedCfg sc;
  uint64_t rng;
  Preempt* taken;         // shared with the parent process: the last one is the number of entries
  uint64_t swhash; unsigned nsw;
  ThreadFn fn; void* fnarg;
  SyncObj sync[NSYNC];
  uint32_t final_vc[MAXT][MAXT];
};
State* S = nullptr;   // set once, before the snapshot of the globals

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }
inline uint64_t rnd() { uint64_t z = (S->rng += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }

void futex_wait(volatile int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void futex_wake(volatile int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

void give_turn(int t) { __atomic_store_n(&S->turn[t], 1, __ATOMIC_SEQ_CST); futex_wake(&S->turn[t]); }
void await_turn(int t) {
  while (!__atomic_load_n(&S->turn[t], __ATOMIC_SEQ_CST)) futex_wait(&S->turn[t], 0);
  __atomic_store_n(&S->turn[t], 0, __ATOMIC_SEQ_CST);
}

const char* describe(uintptr_t a, char* buf, size_t n) {
  if (a >= S->base && a < S->end) {
    uintptr_t p = S->base;
    while (p < S->bump) {
      Hdr* h = (Hdr*)p;
      uintptr_t pay = p + 32; uintptr_t nxt = pay + ((h->size + 15) & ~15ULL) + 16;
      if (a < nxt) {
        snprintf(buf, n, "block #%u (%llu bytes, obtained in op %d attempt %d%s) offset %lld", h->seq, (unsigned long long)h->size,
                 h->op, h->attempt, h->magic == MAGIC_FREED ? ", already released" : "", (long long)(a - pay));
        return buf;
      }
      p = nxt;
    }
    snprintf(buf, n, "heap address beyond all blocks");
  } else if (a >= S->glo && a < S->ghi) snprintf(buf, n, "global variable at image offset 0x%llx", (unsigned long long)(a - S->glo));
  else snprintf(buf, n, "address outside the heap");
  return buf;
}

void mem_violation(const char* key, const char* what, uintptr_t a, size_t n, bool write) {
  Ctx* c = tls_ctx;
  char b[200];
  char k[80];
  if (c->mode == CHECK) {
    snprintf(k, sizeof k, "operand-%s", key);
    violation(V_OPERAND | (S->faulted_before ? V_OPERANDF : 0), k, "reading a live object back touches %s: %s of %zu bytes at %s", what, write ? "write" : "read", n, describe(a, b, sizeof b));
  } else {
    violation(S->faulted_before ? V_MEMF : V_MEM, key, "%s: %s of %zu bytes at %s", what, write ? "write" : "read", n, describe(a, b, sizeof b));
  }
}

inline void check_shadow(uintptr_t a, size_t n, bool write) {
  size_t i = (a - S->base) >> 3, off = a & 7;
  uint8_t s = S->shadow[i];
  if (__builtin_expect(s <= 8 && off + n <= s, 1)) return;
  // slow path: may span several words
  uintptr_t e = a + n;
  for (uintptr_t q = a; q < e;) {
    size_t w = (q - S->base) >> 3; size_t o = q & 7; size_t len = 8 - o; if (q + len > e) len = e - q;
    if (q >= S->end) { mem_violation("oob", "memory outside any block", q, n, write); return; }
    uint8_t sh = S->shadow[w];
    if (sh == 0x80) { mem_violation("uaf", "memory already released", a, n, write); return; }
    if (!(sh <= 8 && o + len <= sh)) { mem_violation("oob", "memory outside any block", a, n, write); return; }
    q += len;
  }
}

void race(uintptr_t a, size_t n, bool write, int other, bool otherwrite) {
  char b[200];
  violation(V_RACE, "race", "data race: %s of %zu bytes by thread %d (op %d) conflicts with an unordered %s by thread %d (op %d) at %s",
            write ? "write" : "read", n, tls_ctx->tid, tls_ctx->op, otherwrite ? "write" : "read", other, S->ctxs[other].op, describe(a, b, sizeof b));
}

inline void race_word(RaceWord* r, Ctx* c, uint8_t mask, bool write, uintptr_t a, size_t n) {
  int t = c->tid; uint32_t clk = c->vc[t];
  if ((r->wmask & mask) && r->wtid != t && r->wclk > c->vc[r->wtid]) { race(a, n, write, r->wtid, true); }
  if (write) {
    for (int u = 0; u < MAXT; ++u)
      if (u != t && (r->rmask[u] & mask) && r->rclk[u] > c->vc[u]) { race(a, n, write, u, false); break; }
    if (r->wtid == t && r->wclk == clk) r->wmask |= mask;
    else { r->wtid = t; r->wclk = clk; r->wmask = mask; }
  } else {
    if (r->rclk[t] == clk) r->rmask[t] |= mask; else { r->rclk[t] = clk; r->rmask[t] = mask; }
  }
}

void race_range(uintptr_t a, size_t n, bool write, Ctx* c) {
  RaceWord* arr; uintptr_t lo;
  if (a >= S->base && a < S->end) { arr = S->rw; lo = S->base; }
  else if (a >= S->glo && a < S->ghi) { arr = S->grw; lo = S->glo & ~7ULL; }
  else return;
  uintptr_t e = a + n;
  for (uintptr_t q = a; q < e;) {
    size_t o = q & 7; size_t len = 8 - o; if (q + len > e) len = e - q;
    race_word(&arr[(q - lo) >> 3], c, (uint8_t)(((1u << len) - 1) << o), write, a, n);
    q += len;
  }
}

void join_vc(uint32_t* d, const uint32_t* s) { for (int i = 0; i < MAXT; ++i) if (s[i] > d[i]) d[i] = s[i]; }

SyncObj* sync_obj(uintptr_t a) {
  size_t h = (a * 0x9e3779b97f4a7c15ULL) >> 52;
  for (size_t i = 0; i < NSYNC; ++i) {
    SyncObj* o = &S->sync[(h + i) & (NSYNC - 1)];
    if (o->addr == a) return o;
    if (!o->addr) { o->addr = a; o->owner = -1; return o; }
  }
  internal_error("too many synchronisation objects");
}

bool runnable(int t) { return !S->done[t] && S->blocked_on[t] == 0; }

void switch_to(int t) {
  int me = tls_ctx->tid;
  if (t == me) return;
  ++S->nsw; S->swhash = mix(S->swhash, (uint64_t)me << 48 | (uint64_t)t << 40 | tls_ctx->lsteps);
  S->st->switches++;
  S->cur = t;
  give_turn(t);
  await_turn(me);
}

int next_runnable(int after) {
  for (int i = 1; i <= S->nthreads; ++i) { int t = (after - 1 + i) % S->nthreads + 1; if (t != after && runnable(t)) return t; }
  return 0;
}

void set_next_preempt(Ctx* c) {
  if (S->sc.dense_mean) {
    if (S->nsw >= S->sc.max_switches) { c->next_preempt = ~0ULL; return; }
    uint64_t m = S->sc.dense_mean;
    uint64_t r = rnd();
    c->next_preempt = c->lsteps + 1 + ((r & 7) == 0 ? (r >> 8) % (m * 8) : (r >> 8) % (2 * m));
  } else {
    c->next_preempt = ~0ULL;
    for (int i = c->pidx; i < S->sc.nexplicit; ++i)
      if (S->sc.explicit_list[i].tid == c->tid && S->sc.explicit_list[i].at > c->lsteps) { c->next_preempt = S->sc.explicit_list[i].at; c->pidx = i; break; }
  }
}

void preempt(Ctx* c) {
  int to = 0;
  if (S->sc.dense_mean) {
    int cand[MAXT], n = 0;
    for (int t = 1; t <= S->nthreads; ++t) if (t != c->tid && runnable(t)) cand[n++] = t;
    if (n) { to = cand[rnd() % n]; if (S->taken[NTAKEN].tid < NTAKEN) S->taken[S->taken[NTAKEN].tid++] = Preempt{c->tid, c->lsteps, to}; }
    set_next_preempt(c);
  } else {
    int i = c->pidx;
    to = S->sc.explicit_list[i].to;
    if (to < 1 || to > S->nthreads || !runnable(to)) to = 0;
    if (to && S->taken[NTAKEN].tid < NTAKEN) S->taken[S->taken[NTAKEN].tid++] = Preempt{c->tid, c->lsteps, to};
    c->pidx = i + 1;
    set_next_preempt(c);
  }
  if (to && to != c->tid) switch_to(to);
}

void no_progress(Ctx* c) {
  Mode old = c->mode; c->mode = OFF;
  violation(V_PROGRESS, "no-progress", "operation %d has not finished after %llu steps", c->op, (unsigned long long)c->steps);
  (void)old;
  _exit(78);  // foreign class: this run cannot go on
}

inline void step(Ctx* c) {
  ++c->steps;
  if (__builtin_expect(++c->lsteps >= c->next_preempt, 0)) preempt(c);
  if (__builtin_expect(c->steps > c->step_limit, 0)) no_progress(c);
}

inline void access(uintptr_t a, size_t n, bool write) {
  Ctx* c = tls_ctx;
  if (!c || c->mode == OFF) return;
  if (c->mode == LIB) {
    step(c);
    if (a - S->base < S->end - S->base) check_shadow(a, n, write);
    if (c->threaded) race_range(a, n, write, c);
  } else {
    if (a - S->base < S->end - S->base) check_shadow(a, n, write);
  }
}

void block(Ctx* c, uintptr_t on) {
  S->blocked_on[c->tid] = on;
  int t = next_runnable(c->tid);
  if (!t) {
    c->mode = OFF;
    violation(V_DEADLOCK, "deadlock", "deadlock: thread %d waits in op %d and no other thread can run", c->tid, c->op);
    _exit(78);
  }
  switch_to(t);
}

void unblock_all(uintptr_t on) { for (int t = 1; t <= S->nthreads; ++t) if (S->blocked_on[t] == on) S->blocked_on[t] = 0; }

void acquire(Ctx* c, SyncObj* o) { join_vc(c->vc, o->vc); }
void release(Ctx* c, SyncObj* o) { join_vc(o->vc, c->vc); ++c->vc[c->tid]; }

} // namespace

// ---------------------------------------------------------------- violations

void violation(unsigned cls, const char* key, const char* fmt, ...) {
  char buf[VTEXT];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (!(S->cfg.vmask & cls & (tls_ctx ? tls_ctx->opmask : ~0u))) {
    S->st->foreign++;
    snprintf(S->st->foreign_key, VKEY, "%s", key); S->st->foreign_run = S->st->cur_run ? S->st->cur_run - 1 : 0;
    return;
  }
  Report* r = S->rep;
  if (!r->set) {
    snprintf(r->key, VKEY, "%s", key);
    snprintf(r->text, VTEXT, "%s", buf);
    r->op = tls_ctx ? tls_ctx->op : -1;
    r->hash = S->hash;
    __sync_synchronize();
    r->set = 1;
    if (getenv("SIM_ABORT")) { signal(SIGABRT, SIG_DFL); abort(); }
  }
  _exit(77);
}

void internal_error(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); fprintf(stderr, "internal error: "); vfprintf(stderr, fmt, ap); va_end(ap);
  fputc('\n', stderr); fflush(stderr);
  _exit(79);
}

static void on_segv(int sig, siginfo_t* si, void* uc) {
  Ctx* c = tls_ctx;
  if (!c || c->mode == OFF) {
    const char m[] = "harness crashed\n"; if (write(2, m, sizeof m - 1)) {}
    _exit(79);
  }
  Mode m = c->mode; c->mode = OFF;
  unsigned cls = V_CRASH;
  if (sig == SIGSEGV || sig == SIGBUS) {
    intptr_t d = (intptr_t)si->si_addr - (intptr_t)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RSP];
    if (d > -65536 && d < 65536) cls |= V_PROGRESS;   // endless recursion
    else cls |= S->faulted_before ? V_MEMF : V_MEM;
  }
  if (m == CHECK) cls |= V_OPERAND | (S->faulted_before ? V_OPERANDF : 0);
  violation(cls, "crash", "%s: signal %d (address %p)", m == LIB ? "library operation crashed" : "reading a live object back crashed", sig, sig == SIGABRT ? 0 : si->si_addr);
  _exit(78);
}

// ---------------------------------------------------------------- setup

void init(Report* rep, Stats* st, size_t arena_mb) {
  static_assert(sizeof(State) < (64u << 20), "state");
  State* s = (State*)mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  size_t sz = arena_mb << 20;
  void* a = mmap((void*)ARENA_BASE, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != (void*)ARENA_BASE) { fprintf(stderr, "cannot map the simulated heap\n"); _exit(79); }
  s->base = ARENA_BASE; s->bump = ARENA_BASE; s->end = ARENA_BASE + sz;
  s->shadow = (uint8_t*)mmap(nullptr, sz / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  s->rw = (RaceWord*)mmap(nullptr, sz / 8 * sizeof(RaceWord), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  s->glo = (uintptr_t)&__data_start; s->ghi = (uintptr_t)&_end;
  size_t gsz = s->ghi - s->glo;
  s->grw = (RaceWord*)mmap(nullptr, (gsz / 8 + 2) * sizeof(RaceWord), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  s->gsnap = (uint8_t*)mmap(nullptr, gsz + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  s->taken = (Preempt*)mmap(nullptr, (NTAKEN + 1) * sizeof(Preempt), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  s->rep = rep; s->st = st; s->trace_fd = -1;
  s->cfg.vmask = ~0u;
  S = s;
  // crash handler on an alternate stack (every simulated thread installs its own)
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
  for (int sg : sigs) sigaction(sg, &sa, nullptr);
  tls_ctx = &s->ctxs[0];
  tls_ctx->fail_from = ~0ULL; tls_ctx->step_limit = ~0ULL; tls_ctx->next_preempt = ~0ULL; tls_ctx->op = -1; tls_ctx->opmask = ~0u;
  snapshot_globals();
}

void snapshot_globals() { memcpy(S->gsnap, (void*)S->glo, S->ghi - S->glo); }

void set_config(RunCfg const& c) { S->cfg = c; }
void set_outputs(Report* r, Stats* st) { S->rep = r; S->st = st; }
Stats& stats() { return *S->st; }
Report* report() { return S->rep; }
void set_trace_fd(int fd) { S->trace_fd = fd; }

void run_begin() {
  size_t used = S->bump - S->base;
  if (used) {
    memset(S->shadow, 0, used / 8 + 64);
    if (S->was_threaded) memset((void*)S->rw, 0, (used / 8 + 8) * sizeof(RaceWord));
    if (used > (8u << 20)) madvise((void*)S->base, used, MADV_DONTNEED);
  }
  S->bump = S->base;
  memset(S->freelist, 0, sizeof S->freelist);
  S->seq = 0; S->live = 0; S->faulted_before = false;
  size_t gsz = S->ghi - S->glo;
  if (S->was_threaded) memset((void*)S->grw, 0, (gsz / 8 + 2) * sizeof(RaceWord));
  if (S->was_threaded) memset(S->sync, 0, sizeof S->sync);
  S->was_threaded = false;
  Ctx* c0 = &S->ctxs[0]; memset(c0->vc, 0, sizeof c0->vc); c0->vc[0] = 1; c0->op = -1; c0->attempt = 0; c0->mode = OFF; c0->opmask = ~0u;
  S->hash = 0x1234567; S->taken[NTAKEN].tid = 0; S->nsw = 0; S->swhash = 1;
}

// The heap is not reused (but see set_reuse) within a run, but the globals of the program (function-local statics of the library, say) must
// not carry anything over to the next run.
void run_end_restore() { memcpy((void*)S->glo, S->gsnap, S->ghi - S->glo); }

void log_event(uint64_t a, uint64_t b, uint64_t c) {
  S->hash = mix(mix(mix(S->hash, a), b), c);
  if (S->trace_fd >= 0) { char t[100]; int n = snprintf(t, sizeof t, "%llx %llx %llx\n", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c); if (write(S->trace_fd, t, n)) {} }
}
uint64_t log_hash() { return S->hash; }

// ---------------------------------------------------------------- heap

bool in_arena(const void* p) { uintptr_t a = (uintptr_t)p; return S && a >= S->base && a < S->end; }
uint64_t live_blocks() { return S->live; }
uint64_t arena_used() { return S->bump - S->base; }
bool accessible(const void* p, size_t n) {
  uintptr_t a = (uintptr_t)p;
  if (!in_arena(p)) return false;
  for (uintptr_t q = a; q < a + n; ++q) { uint8_t s = S->shadow[(q - S->base) >> 3]; if (!(s <= 8 && (q & 7) < s)) return false; }
  return true;
}

void set_reuse(bool on) { S->reuse = on; }

void* arena_alloc(size_t n, int kind) {
  size_t r = (n + 15) & ~15ULL;
  if (n > (1ULL << 40) || S->bump + 32 + r + 16 + 64 > S->end) return nullptr;
  Hdr* h; uintptr_t p;
  Ctx* c = tls_ctx;
  size_t cls = r >> 4;
  if (S->reuse && cls && cls < NCLASS && S->freelist[cls]) {
    h = S->freelist[cls]; p = (uintptr_t)h + 32;
    S->freelist[cls] = *(Hdr**)p;
    // a new block is not in a race with what was done with the old one
    if (c && c->threaded) __real_memset((void*)(S->rw + ((p - S->base) >> 3)), 0, (r >> 3) * sizeof(RaceWord));
  } else {
    h = (Hdr*)S->bump;
    p = S->bump + 32;
    S->bump = p + r + 16;
  }
  h->magic = MAGIC; h->size = n; h->seq = ++S->seq; h->kind = kind; h->flags = (c && c->faulty && c->mode == LIB) ? 1 : 0;
  h->op = c ? c->op : -1; h->attempt = c ? c->attempt : 0; h->tid = c ? c->tid : 0; h->freed_op = 0; h->freed_tid = 0; h->pad = 0;
  __real_memset((void*)p, 0xCD, r);
  uint8_t* s = S->shadow + ((p - S->base) >> 3);
  size_t full = n >> 3; __real_memset(s, 8, full);
  if (n & 7) s[full] = n & 7;
  ++S->live;
  return (void*)p;
}

static void heap_free(void* q, int kind, size_t sized) {
  uintptr_t p = (uintptr_t)q;
  Ctx* c = tls_ctx;
  bool ok = (p & 15) == 0 && p >= S->base + 32 && p < S->bump;
  Hdr* h = (Hdr*)(p - 32);
  if (ok && h->magic != MAGIC) {
    // is it the start of a released block?
    ok = false;
    if (h->magic == MAGIC_FREED) {
      char b[200];
      violation(S->faulted_before ? V_MEMF : V_MEM, "double-free", "block released twice: %s (first in op %d)", describe(p, b, sizeof b), h->freed_op);
      return;
    }
  }
  if (!ok) {
    char b[200];
    violation(S->faulted_before ? V_MEMF : V_MEM, "invalid-free", "release of something that is not the start of a block: %s", describe(p, b, sizeof b));
    return;
  }
  if (h->kind != kind || (sized && sized != h->size)) {
    char b[200];
    violation(S->faulted_before ? V_MEMF : V_MEM, "mismatched-free", "block released in another way (size %zu, form %d) than it was obtained: %s", sized, kind, describe(p, b, sizeof b));
  }
  if (c && c->mode == LIB) { ++c->frees; S->st->frees++; if (c->threaded) race_range(p, h->size ? h->size : 1, true, c); }
  h->magic = MAGIC_FREED; h->freed_op = c ? c->op : -1; h->freed_tid = c ? c->tid : 0;
  size_t r = (h->size + 15) & ~15ULL;
  __real_memset((void*)p, 0xDD, r);
  __real_memset(S->shadow + ((p - S->base) >> 3), 0x80, r ? (r >> 3) : 0);
  --S->live;
  if (S->reuse && r && (r >> 4) < NCLASS) { *(Hdr**)p = S->freelist[r >> 4]; S->freelist[r >> 4] = h; }
}

void arena_free(void* p) { heap_free(p, 2, 0); }

static void* heap_new(size_t n, int kind, bool nothrow) {
  Ctx* c = tls_ctx;
  if (!c || c->mode == OFF) {
    void* p = malloc(n ? n : 1);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    return p;
  }
  if (c->mode == LIB) {
    step(c);
    ++c->allocs; S->st->allocs++;
    if (c->allocs == c->fail_at || c->allocs >= c->fail_from) {
      int k = c->allocs == c->fail_at ? F_ALLOC_AT : F_ALLOC_FROM;
      ++c->fired[k]; ++c->fired_total; S->st->fired[k]++; S->faulted_before = true;
      log_event(0xA110C, c->allocs, n);
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
  }
  void* p = arena_alloc(n, kind);
  if (!p) {
    if (n > (64u << 20)) { if (nothrow) return nullptr; throw std::bad_alloc(); }   // absurd request
    no_progress(c);
  }
  return p;
}

static void any_delete(void* p, int kind, size_t sized) noexcept {
  if (!p) return;
  if (in_arena(p)) heap_free(p, kind, sized);
  else {
    Ctx* c = tls_ctx;
    if (c && c->mode == LIB) {
      // harness memory is never handed to the library for release
      uintptr_t a = (uintptr_t)p;
      (void)a;
      if (a >= S->glo && a < S->ghi) { violation(S->faulted_before ? V_MEMF : V_MEM, "invalid-free", "release of a global variable"); return; }
      char x; uintptr_t sp = (uintptr_t)&x;
      if (a > sp - 65536 && a < sp + (8u << 20)) { violation(S->faulted_before ? V_MEMF : V_MEM, "invalid-free", "release of a local variable"); return; }
    }
    free(p);
  }
}

void note_fired(int k) { Ctx* c = tls_ctx; ++c->fired[k]; ++c->fired_total; S->st->fired[k]++; S->faulted_before = true; log_event(0x05E3, k); }
void user_point(int where) {
  Ctx* c = tls_ctx;
  if (!c || c->mode != LIB) return;
  ++c->ucalls;
  if (c->ucalls == c->ufail_at) {
    int k = c->ufail_std ? F_USER_STD_AT : F_USER_AT;
    ++c->fired[k]; ++c->fired_total; S->st->fired[k]++; S->faulted_before = true;
    log_event(0x05E2, c->ucalls, where);
    extern void throw_user_fault(int where, bool std_derived);
    throw_user_fault(where, c->ufail_std);
  }
}

// blocks reachable from the globals of the program or from live blocks that are reachable count as still in use
void run_end_leakcheck() {
  if (S->live == 0) return;
  // collect live headers
  uint64_t n = 0;
  Hdr** v = (Hdr**)malloc(sizeof(Hdr*) * (S->live + 1));
  for (uintptr_t p = S->base; p < S->bump;) {
    Hdr* h = (Hdr*)p; if (h->magic == MAGIC && h->kind != 2 && n < S->live) { v[n++] = h; h->flags &= ~2; }
    p += 32 + ((h->size + 15) & ~15ULL) + 16;
  }
  auto find = [&](uintptr_t a) -> Hdr* {   // block containing a
    uint64_t lo = 0, hi = n;
    while (lo < hi) { uint64_t m = (lo + hi) / 2; if ((uintptr_t)v[m] + 32 <= a) lo = m + 1; else hi = m; }
    if (!lo) return nullptr;
    Hdr* h = v[lo - 1];
    return a < (uintptr_t)h + 32 + (h->size ? h->size : 1) ? h : nullptr;
  };
  Hdr** stack = (Hdr**)malloc(sizeof(Hdr*) * (n + 1)); uint64_t sp = 0;
  for (uintptr_t a = (S->glo + 7) & ~7ULL; a + 8 <= S->ghi; a += 8) {
    uintptr_t x = *(uintptr_t*)a;
    if (x >= S->base && x < S->bump) { Hdr* h = find(x); if (h && !(h->flags & 2)) { h->flags |= 2; stack[sp++] = h; } }
  }
  while (sp) {
    Hdr* h = stack[--sp];
    for (uintptr_t a = (uintptr_t)h + 32; a + 8 <= (uintptr_t)h + 32 + h->size; a += 8) {
      uintptr_t x = *(uintptr_t*)a;
      if (x >= S->base && x < S->bump) { Hdr* g = find(x); if (g && !(g->flags & 2)) { g->flags |= 2; stack[sp++] = g; } }
    }
  }
  Hdr* first[2] = {nullptr, nullptr}; uint64_t cnt[2] = {0, 0};
  for (uint64_t i = 0; i < n; ++i) if (!(v[i]->flags & 2)) { int f = v[i]->flags & 1; if (!first[f]) first[f] = v[i]; ++cnt[f]; }
  free(v); free(stack);
  for (int f = 0; f < 2; ++f)
    if (first[f]) {
      tls_ctx->op = first[f]->op;
      violation(f ? V_LEAKF : V_LEAK, f ? "leak-after-fault" : "leak",
                "%llu block(s) never released after every handle has died; first: block #%u, %llu bytes, obtained in op %d attempt %d%s",
                (unsigned long long)cnt[f], first[f]->seq, (unsigned long long)first[f]->size, first[f]->op, first[f]->attempt,
                f ? " (a faulted attempt)" : "");
    }
}

// ---------------------------------------------------------------- threads

struct Boot { int tid; };

static void* thread_main(void* p) {
  int tid = (int)(intptr_t)p;
  stack_t ss; memset(&ss, 0, sizeof ss);
  ss.ss_size = 65536; ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack(&ss, nullptr);
  Ctx* c = &S->ctxs[tid];
  tls_ctx = c;
  if (S->nthreads > 1) await_turn(tid);
  S->fn(tid, S->fnarg);
  c->mode = OFF;
  S->done[tid] = true;
  if (S->nthreads > 1) {
    int t = next_runnable(tid);
    if (t) { S->cur = t; S->swhash = mix(S->swhash, (uint64_t)tid << 48 | (uint64_t)t << 40 | 0xE0D); give_turn(t); }
    else {
      bool all = true; for (int i = 1; i <= S->nthreads; ++i) if (!S->done[i]) all = false;
      if (all) give_turn(0);
      else { violation(V_DEADLOCK, "deadlock", "deadlock: all remaining threads are blocked after thread %d has finished", tid); _exit(78); }
    }
  }
  ss.ss_flags = SS_DISABLE; void* m = ss.ss_sp; sigaltstack(&ss, nullptr); munmap(m, 65536);
  // thread_local objects of the library are destroyed after this point, still under this context
  return nullptr;
}

void run_threads(int n, ThreadFn fn, void* arg, SchedCfg const& cfg) {
  Ctx* parent = tls_ctx;
  S->nthreads = n; if (n > 1) S->was_threaded = true; S->sc = cfg; S->rng = cfg.dense_seed; S->fn = fn; S->fnarg = arg;
  if (n > 1) { S->taken[NTAKEN].tid = 0; S->nsw = 0; S->swhash = mix(1, cfg.start); }
  memset((void*)S->turn, 0, sizeof S->turn);
  pthread_t th[MAXT];
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2u << 20);
  for (int t = 1; t <= n; ++t) {
    Ctx* c = &S->ctxs[t];
    memset(c, 0, sizeof *c);
    c->tid = t; c->threaded = n > 1; c->mode = OFF; c->step_limit = cfg.step_limit;
    c->fail_from = ~0ULL; c->op = -1; c->opmask = ~0u;
    if (parent) { memcpy(c->vc, parent->vc, sizeof c->vc); }
    c->vc[t] = 1;
    c->next_preempt = ~0ULL;
    S->done[t] = false; S->blocked_on[t] = 0;
    if (n > 1) set_next_preempt(c);
  }
  for (int t = 1; t <= n; ++t)
    if (pthread_create(&th[t], &at, thread_main, (void*)(intptr_t)t)) internal_error("pthread_create failed");
  pthread_attr_destroy(&at);
  if (n > 1) { int s = cfg.start >= 1 && cfg.start <= n ? cfg.start : 1; S->cur = s; give_turn(s); await_turn(0); }
  for (int t = 1; t <= n; ++t) pthread_join(th[t], nullptr);
  for (int t = 1; t <= n; ++t) { S->st->steps += S->ctxs[t].lsteps; if (parent) join_vc(parent->vc, S->ctxs[t].vc); }
}

int taken_count() { return S->taken[NTAKEN].tid; }
Preempt const* taken_list() { return S->taken; }
uint64_t switch_hash() { return S->swhash; }

// used by the interposed functions below
Ctx* sim_lib_ctx() { Ctx* c = tls_ctx; return c && c->mode == LIB && c->threaded ? c : nullptr; }
void k_acquire(Ctx* c, uintptr_t a) { acquire(c, sync_obj(a)); }
void k_release(Ctx* c, uintptr_t a) { release(c, sync_obj(a)); }
int k_lock(Ctx* c, uintptr_t a, bool recursive, bool try_only, bool shared) {
  SyncObj* o = sync_obj(a);
  step(c);
  for (;;) {
    if (shared) { if (o->owner < 0) { ++o->readers; break; } }
    else if (o->owner == c->tid) { if (recursive) { ++o->count; return 0; } if (try_only) return EBUSY; }
    else if (o->owner < 0 && o->readers == 0) { o->owner = c->tid; o->count = 1; break; }
    if (try_only) return EBUSY;
    block(c, a);
  }
  acquire(c, o);
  return 0;
}
int k_unlock(Ctx* c, uintptr_t a) {
  SyncObj* o = sync_obj(a);
  step(c);
  if (o->owner == c->tid) { if (--o->count) return 0; o->owner = -1; }
  else if (o->readers > 0) --o->readers;
  release(c, o);
  unblock_all(a);
  return 0;
}
int k_once_begin(Ctx* c, uintptr_t a) {   // 1: caller runs the initialiser
  SyncObj* o = sync_obj(a);
  for (;;) {
    if (o->state == 2) { acquire(c, o); return 0; }
    if (o->state == 0) { o->state = 1; o->owner = c->tid; return 1; }
    block(c, a);
  }
}
void k_once_end(Ctx* c, uintptr_t a, bool ok) { SyncObj* o = sync_obj(a); o->state = ok ? 2 : 0; o->owner = -1; release(c, o); unblock_all(a); }
void k_access(uintptr_t a, size_t n, bool w) { access(a, n, w); }
void k_atomic(uintptr_t a, size_t n, bool w) {
  Ctx* c = tls_ctx;
  if (!c || c->mode == OFF) return;
  if (c->mode == LIB) step(c);
  if (a - S->base < S->end - S->base) check_shadow(a, n, w);
  if (c->mode == LIB && c->threaded) { SyncObj* o = sync_obj(a); acquire(c, o); if (w) release(c, o); }
}

} // namespace sim

// ------------------------------------------------------------------ operator new / delete
using namespace sim;
void* operator new(size_t n) { return heap_new(n, 0, false); }
void* operator new[](size_t n) { return heap_new(n, 1, false); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return heap_new(n, 0, true); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return heap_new(n, 1, true); }
void operator delete(void* p) noexcept { any_delete(p, 0, 0); }
void operator delete[](void* p) noexcept { any_delete(p, 1, 0); }
void operator delete(void* p, size_t n) noexcept { any_delete(p, 0, n); }
void operator delete[](void* p, size_t n) noexcept { any_delete(p, 1, n); }
void operator delete(void* p, std::nothrow_t const&) noexcept { any_delete(p, 0, 0); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { any_delete(p, 1, 0); }

// ------------------------------------------------------------------ instrumentation runtime
namespace sim { void k_access(uintptr_t, size_t, bool); void k_atomic(uintptr_t, size_t, bool); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void* a) { sim::k_access((uintptr_t)a, N, false); } \
  void __tsan_write##N(void* a) { sim::k_access((uintptr_t)a, N, true); } \
  void __tsan_unaligned_read##N(void* a) { sim::k_access((uintptr_t)a, N, false); } \
  void __tsan_unaligned_write##N(void* a) { sim::k_access((uintptr_t)a, N, true); } \
  void __tsan_volatile_read##N(void* a) { sim::k_access((uintptr_t)a, N, false); } \
  void __tsan_volatile_write##N(void* a) { sim::k_access((uintptr_t)a, N, true); } \
  void __tsan_unaligned_volatile_read##N(void* a) { sim::k_access((uintptr_t)a, N, false); } \
  void __tsan_unaligned_volatile_write##N(void* a) { sim::k_access((uintptr_t)a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { sim::k_access((uintptr_t)a, n, false); }
void __tsan_write_range(void* a, unsigned long n) { sim::k_access((uintptr_t)a, n, true); }
void __tsan_vptr_update(void** a, void*) { sim::k_access((uintptr_t)a, 8, true); }
void __tsan_vptr_read(void** a) { sim::k_access((uintptr_t)a, 8, false); }
#define ATOM(N, T) \
  T __tsan_atomic##N##_load(const volatile T* a, int) { sim::k_atomic((uintptr_t)a, sizeof(T), false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##N##_store(volatile T* a, T v, int) { sim::k_atomic((uintptr_t)a, sizeof(T), true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { sim::k_atomic((uintptr_t)a, sizeof(T), true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { sim::k_atomic((uintptr_t)a, sizeof(T), true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { sim::k_atomic((uintptr_t)a, sizeof(T), true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { sim::k_atomic((uintptr_t)a, sizeof(T), true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { sim::k_atomic((uintptr_t)a, sizeof(T), true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { sim::k_atomic((uintptr_t)a, sizeof(T), true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { sim::k_atomic((uintptr_t)a, sizeof(T), true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { sim::k_atomic((uintptr_t)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { sim::k_atomic((uintptr_t)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { sim::k_atomic((uintptr_t)a, sizeof(T), true); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

// memory functions called by instrumented code (linked with --wrap)
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t); size_t __real_strlen(const char*);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n && tls_ctx && tls_ctx->mode != OFF) { sim::k_access((uintptr_t)s, n, false); sim::k_access((uintptr_t)d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n && tls_ctx && tls_ctx->mode != OFF) { sim::k_access((uintptr_t)s, n, false); sim::k_access((uintptr_t)d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n && tls_ctx && tls_ctx->mode != OFF) sim::k_access((uintptr_t)d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (n && tls_ctx && tls_ctx->mode != OFF) { sim::k_access((uintptr_t)a, n, false); sim::k_access((uintptr_t)b, n, false); } return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); if (tls_ctx && tls_ctx->mode != OFF) sim::k_access((uintptr_t)s, n + 1, false); return n; }
}

// ------------------------------------------------------------------ synchronisation seams
namespace sim {
Ctx* sim_lib_ctx(); void k_acquire(Ctx*, uintptr_t); void k_release(Ctx*, uintptr_t);
int k_lock(Ctx*, uintptr_t, bool, bool, bool); int k_unlock(Ctx*, uintptr_t); int k_once_begin(Ctx*, uintptr_t); void k_once_end(Ctx*, uintptr_t, bool);
}
template <class F> static F next(const char* n, F) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (Ctx* c = sim::sim_lib_ctx()) return sim::k_lock(c, (uintptr_t)m, (m->__data.__kind & 3) == 1, false, false);
  static int (*f)(pthread_mutex_t*) = nullptr; if (!f) f = next("pthread_mutex_lock", f); return f(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (Ctx* c = sim::sim_lib_ctx()) return sim::k_lock(c, (uintptr_t)m, (m->__data.__kind & 3) == 1, true, false);
  static int (*f)(pthread_mutex_t*) = nullptr; if (!f) f = next("pthread_mutex_trylock", f); return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (Ctx* c = sim::sim_lib_ctx()) return sim::k_unlock(c, (uintptr_t)m);
  static int (*f)(pthread_mutex_t*) = nullptr; if (!f) f = next("pthread_mutex_unlock", f); return f(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (Ctx* c = sim::sim_lib_ctx()) return sim::k_lock(c, (uintptr_t)m, false, false, true);
  static int (*f)(pthread_rwlock_t*) = nullptr; if (!f) f = next("pthread_rwlock_rdlock", f); return f(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (Ctx* c = sim::sim_lib_ctx()) return sim::k_lock(c, (uintptr_t)m, false, false, false);
  static int (*f)(pthread_rwlock_t*) = nullptr; if (!f) f = next("pthread_rwlock_wrlock", f); return f(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (Ctx* c = sim::sim_lib_ctx()) return sim::k_unlock(c, (uintptr_t)m);
  static int (*f)(pthread_rwlock_t*) = nullptr; if (!f) f = next("pthread_rwlock_unlock", f); return f(m);
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (Ctx* c = sim::sim_lib_ctx()) {
    if (sim::k_once_begin(c, (uintptr_t)o)) { try { fn(); } catch (...) { sim::k_once_end(c, (uintptr_t)o, false); throw; } sim::k_once_end(c, (uintptr_t)o, true); }
    return 0;
  }
  static int (*f)(pthread_once_t*, void (*)(void)) = nullptr; if (!f) f = next("pthread_once", f); return f(o, fn);
}
// function-local statics: first byte is the "initialised" flag, second byte "in progress"
int __cxa_guard_acquire(uint64_t* g) {
  unsigned char* b = (unsigned char*)g;
  if (__atomic_load_n(b, __ATOMIC_SEQ_CST)) { if (Ctx* c = sim::sim_lib_ctx()) sim::k_acquire(c, (uintptr_t)g); return 0; }
  if (Ctx* c = sim::sim_lib_ctx()) return sim::k_once_begin(c, (uintptr_t)g);
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  unsigned char* b = (unsigned char*)g;
  __atomic_store_n(b, 1, __ATOMIC_SEQ_CST);
  if (Ctx* c = sim::sim_lib_ctx()) sim::k_once_end(c, (uintptr_t)g, true);
}
void __cxa_guard_abort(uint64_t* g) { if (Ctx* c = sim::sim_lib_ctx()) sim::k_once_end(c, (uintptr_t)g, false); }
}
