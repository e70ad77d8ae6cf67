// Engine: seeds -> plans -> simulated runs; search, minimisation, replay, evidence.
#include "plan.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

namespace {

enum { TABLE_BITS = 24, MAXW = 64 };
struct Table {
  volatile uint64_t n, nontrivial, full;
  uint64_t slot[1u << TABLE_BITS];
  bool insert(uint64_t h) {
    h |= 1; size_t i = (h >> 7) & ((1u << TABLE_BITS) - 1);
    for (int k = 0; k < 64; ++k, i = (i + 1) & ((1u << TABLE_BITS) - 1)) {
      uint64_t v = __atomic_load_n(&slot[i], __ATOMIC_RELAXED);
      if (v == h) return false;
      if (!v) { uint64_t z = 0; if (__atomic_compare_exchange_n(&slot[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_add_fetch(&n, 1, __ATOMIC_RELAXED); return true; } if (z == h) return false; }
    }
    __atomic_add_fetch(&full, 1, __ATOMIC_RELAXED);
    return false;
  }
};
struct Shared {
  volatile uint64_t stop_at;
  Report rep[MAXW]; Stats st[MAXW];
  Report trep; Stats tst; volatile uint64_t thash; volatile int tdone;
  Table states, inter;
  uint64_t hashes[1 << 16];
};
Shared* G;

template <class T> T* shared_alloc() { void* p = mmap(0, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return (T*)p; }

void on_state(uint64_t h, bool nontrivial) { if (G->states.insert(h) && nontrivial) __atomic_add_fetch(&G->states.nontrivial, 1, __ATOMIC_RELAXED); }
void on_interleaving(uint64_t h) { G->inter.insert(h); }

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Opt {
  std::string mode, prop, gen, known, replay_dir, evidence, tier; uint64_t seed, runs, first; int workers; double wall; bool trace; std::string file; uint64_t from, to;
  Opt() : tier("quick"), seed(1), runs(100000), first(0), workers(8), wall(25), trace(false), from(0), to(0) {}
};

// ------------------------------------------------------------------ one trial in a process of its own
struct Trial { int code; std::string key, text; uint64_t hash; int op; std::vector<Preempt> taken; bool violated() const { return code == 77; } };
Trial run_trial(Plan const& p, unsigned vmask, unsigned own, double limit = 20, bool silent = true) {
  G->trep.set = 0; G->tdone = 0; memset((void*)&G->tst, 0, sizeof G->tst);
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    if (silent) { if (!freopen("/dev/null", "w", stderr)) {} }
    set_outputs(&G->trep, &G->tst);
    RunCfg c; c.vmask = vmask; c.trace = false; set_config(c);
    note_state = 0; note_interleaving = 0; snapshot_globals();
    execute(p, own);
    G->thash = log_hash(); G->tdone = 1;
    _exit(0);
  }
  Trial t; double t0 = now(); int st = 0;
  for (useconds_t us = 200;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(us); if (us < 5000) us += us / 4;
  }
  t.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + (WIFSIGNALED(st) ? WTERMSIG(st) : 0);
  if (t.code == 77 && G->trep.set) { t.key = G->trep.key; t.text = G->trep.text; t.hash = G->trep.hash; t.op = G->trep.op; }
  else { if (t.code == 77) t.code = 79; t.hash = G->thash; t.op = -1; }
  Preempt const* q = taken_list(); int n = taken_count();
  t.taken.assign(q, q + n);
  return t;
}

// ------------------------------------------------------------------ minimisation
struct Minimiser {
  PropInfo const* pi; Plan best; std::string key; Trial last; double deadline; int trials, max_trials;
  unsigned own() const { return pi->family; }
  bool accept(Plan const& c) {
    if (trials >= max_trials || now() > deadline) return false;
    ++trials;
    Trial t = run_trial(c, pi->vmask, own(), 10);
    if (t.violated() && t.key == key) { best = c; last = t; return true; }
    return false;
  }
  bool left() const { return trials < max_trials && now() < deadline; }
  static size_t total(Plan const& p) { size_t n = 0; for (int t = 0; t < MAXT; ++t) n += p.ops[t].size(); return n; }
  // with threads the schedule depends on the operations: look for another one
  bool accept_resched(Plan c, int tries) {
    if (accept(c)) return true;
    if (c.nthreads <= 1) return false;
    static const unsigned means[] = {5, 20, 80, 300, 1200};
    for (int i = 0; i < tries && left(); ++i) {
      Plan d = c; d.explicit_sched = false; d.pre.clear(); d.dense_seed = 77 + i; d.dense_mean = means[i % 5]; d.max_switches = 2000; d.start = 1 + i % d.nthreads;
      if (accept(d)) { explicit_schedule(); return true; }
    }
    return false;
  }
  void explicit_schedule() {
    if (best.nthreads <= 1 || best.explicit_sched) return;
    Plan c = best; c.explicit_sched = true; c.pre = last.taken; c.dense_mean = 0; c.dense_seed = 0;
    accept(c);
  }
  void drop_ops(int tries) {
    for (int t = 0; t < MAXT; ++t)
      for (size_t chunk = std::max<size_t>(1, best.ops[t].size() / 2);; chunk /= 2) {
        for (size_t i = best.ops[t].size(); i > 0 && left();) {
          size_t lo = i > chunk ? i - chunk : 0;
          Plan c = best; c.ops[t].erase(c.ops[t].begin() + lo, c.ops[t].begin() + std::min(i, c.ops[t].size()));
          accept_resched(c, tries);
          i = lo; if (i > best.ops[t].size()) i = best.ops[t].size();
        }
        if (chunk <= 1) break;
      }
  }
  void drop_threads(int tries) {
    for (int t = best.nthreads; t >= 1 && best.nthreads > 2 && left(); --t) {
      Plan c = best; for (int u = t; u + 1 < MAXT; ++u) c.ops[u] = c.ops[u + 1]; c.ops[MAXT - 1].clear(); --c.nthreads; c.pre.clear();
      for (size_t i = 0; i < best.pre.size(); ++i) { Preempt q = best.pre[i]; if (q.tid == t || q.to == t) continue; if (q.tid > t) --q.tid; if (q.to > t) --q.to; c.pre.push_back(q); }
      if (c.start > t) --c.start; if (c.start > c.nthreads) c.start = c.nthreads;
      accept_resched(c, tries);
    }
  }
  void drop_preemptions() {
    for (size_t chunk = std::max<size_t>(1, best.pre.size() / 2); !best.pre.empty(); chunk /= 2) {
      for (size_t i = best.pre.size(); i > 0 && left();) { size_t lo = i > chunk ? i - chunk : 0; Plan c = best; c.pre.erase(c.pre.begin() + lo, c.pre.begin() + i); accept(c); i = std::min(lo, best.pre.size()); }
      if (chunk <= 1) break;
    }
  }
  void faults() {
    for (int t = 0; t < MAXT; ++t) for (size_t i = 0; i < best.ops[t].size(); ++i) {
      if (best.ops[t][i].f.empty()) continue;
      { Plan c = best; c.ops[t][i].f.clear(); if (accept(c)) continue; }
      for (size_t k = best.ops[t][i].f.size(); k-- > 0 && left();) { Plan c = best; c.ops[t][i].f.erase(c.ops[t][i].f.begin() + k); accept(c); }
      for (size_t k = 0; k < best.ops[t][i].f.size() && left(); ++k) {
        FaultSpec f = best.ops[t][i].f[k];
        if (f.stride) for (uint64_t j = 0; j < f.max && left(); ++j) { Plan c = best; FaultSpec& g = c.ops[t][i].f[k]; g.k = f.k + j * f.stride; g.stride = 0; g.max = 1; if (accept(c)) break; }
        if (best.ops[t][i].f[k].stride) for (uint64_t m = 1; m < f.max && left(); m *= 2) { Plan c = best; c.ops[t][i].f[k].max = m; if (accept(c)) break; }
        for (uint64_t v = 0; v < best.ops[t][i].f[k].k && v < 12 && left(); ++v) { Plan c = best; c.ops[t][i].f[k].k = v; if (accept(c)) break; }
      }
    }
  }
  static void candidates(model::P const& t, std::vector<model::P>& out, int depth) {
    using namespace model;
    if (!t || depth > 6) return;
    for (size_t i = 0; i < t->c.size(); ++i) if (t->c[i]) out.push_back(t->c[i]);
    if (t->k == UN || t->k == BIN || t->k == VEC) {
      for (size_t i = 0; i < t->c.size(); ++i) {
        std::vector<P> sub; candidates(t->c[i], sub, depth + 1);
        if (t->c[i] && (t->c[i]->k == UN || t->c[i]->k == BIN || t->c[i]->k == PROBE || t->c[i]->k == FSYM)) { sub.push_back(mk_var(0)); sub.push_back(mk_const(1)); }
        for (size_t k = 0; k < sub.size() && out.size() < 60; ++k) {
          if (t->k == UN) out.push_back(mk_un(t->op, sub[k], t->id, t->lo, t->hi));
          else if (t->k == BIN) out.push_back(i == 0 ? mk_bin(t->op, sub[k], t->c[1]) : mk_bin(t->op, t->c[0], sub[k]));
          else { std::vector<P> e = t->c; e[i] = sub[k]; out.push_back(mk_vec(e)); }
        }
      }
      if (t->k == VEC && t->c.size() > 1) { std::vector<P> e(t->c.begin(), t->c.end() - 1); out.push_back(mk_vec(e)); }
    }
    if (t->k == CONST && t->val != 1 && t->val != 0) out.push_back(mk_const(std::abs(t->val) > 4 ? 3 : (double)(long)t->val == t->val ? 1 : 2, t->ct));
  }
  void trees() {
    for (int t = 0; t < MAXT; ++t) for (size_t i = 0; i < best.ops[t].size(); ++i) {
      for (int k = 0; k < 3; ++k) {
        for (bool again = true; again && left();) {
          again = false;
          std::vector<model::P> c; if (best.ops[t][i].t[k]) candidates(best.ops[t][i].t[k], c, 0);
          std::sort(c.begin(), c.end(), [](model::P const& a, model::P const& b) { return a->size < b->size; });
          for (size_t j = 0; j < c.size() && left(); ++j) { if (!(c[j]->size < best.ops[t][i].t[k]->size || (c[j]->size == best.ops[t][i].t[k]->size && c[j]->k == model::CONST))) continue; Plan q = best; q.ops[t][i].t[k] = c[j]; if (accept(q)) { again = best.ops[t][i].t[k]->size > 1; break; } }
        }
      }
      if (best.ops[t][i].d) { Plan c = best; c.ops[t][i].d = 0; accept(c); }
    }
  }
  void run() {
    explicit_schedule();
    if (best.reuse) { Plan c = best; c.reuse = false; accept(c); }
    size_t before;
    int tries = 8;
    for (int round = 0; round < 4 && left(); ++round) {
      before = to_text(best).size();
      drop_threads(tries); drop_ops(tries); faults(); drop_preemptions(); trees();
      if (to_text(best).size() == before) break;
    }
  }
};

// ------------------------------------------------------------------ known findings
struct Known { std::string prop, key, match, line; };
std::vector<Known> read_known(std::string const& file) {
  // known: property=<id> key=<key> match=<text>   (match: the rest of the line, a part of the violation's text)
  std::vector<Known> v; std::ifstream in(file.c_str()); std::string l;
  while (std::getline(in, l)) {
    if (l.compare(0, 6, "known:") != 0) continue;
    Known k; k.line = l.substr(6); size_t a = l.find("property="), b = l.find("key="), c = l.find("match=");
    if (a == std::string::npos || b == std::string::npos || c == std::string::npos) continue;
    k.prop = l.substr(a + 9, l.find(' ', a) - a - 9); k.key = l.substr(b + 4, l.find(' ', b) - b - 4); k.match = l.substr(c + 6); v.push_back(k);
  }
  return v;
}

std::string json_str(std::string const& s) { std::string r = "\""; for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
std::string num(uint64_t v) { char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)v); return b; }

void write_replay(std::string const& path, Plan const& p, Trial const& t) {
  std::ofstream o(path.c_str());
  o << "# replay with: python3 check.py replay " << path << "\n# key " << t.key << "\n# hash " << std::hex << t.hash << std::dec << "\n# op " << t.op << "\n";
  std::istringstream in(t.text); std::string l; while (std::getline(in, l)) o << "# " << l << "\n";
  o << to_text(p);
}

void worker(int w, Opt const& o, PropInfo const* pi, uint64_t start) {
  set_outputs(&G->rep[w], &G->st[w]);
  RunCfg c; c.vmask = pi->vmask; c.trace = false; set_config(c);
  note_state = on_state; note_interleaving = on_interleaving; snapshot_globals();
  double t_end = o.from * 1e-6;   // absolute deadline, passed in microseconds
  for (uint64_t r = start; r < o.first + o.runs && r < __atomic_load_n(&G->stop_at, __ATOMIC_RELAXED); r += o.workers) {
    if (now() > t_end) break;
    G->st[w].cur_run = r + 1; G->st[w].hb++;
    Plan p = generate(o.gen, o.seed, r, o.tier == "thorough");
    execute(p, pi->family);
    if (r - o.first < 400 && r - o.first < (1 << 16)) G->hashes[r - o.first] = log_hash() | 1;
  }
  G->st[w].cur_run = 0;
  _exit(0);
}

int check(Opt o) {
  PropInfo const* pi = find_prop(o.prop);
  if (!pi) { fprintf(stderr, "unknown property %s\n", o.prop.c_str()); return 2; }
  double t0 = now();
  std::vector<Known> known = read_known(o.known);
  std::set<std::string> known_seen;
  G->stop_at = ~0ULL;
  o.from = (uint64_t)((t0 + o.wall) * 1e6);
  if (o.workers > MAXW) o.workers = MAXW;
  std::vector<pid_t> pid(o.workers, 0); std::vector<uint64_t> hb(o.workers, 0); std::vector<double> hbt(o.workers, t0); std::vector<uint64_t> prev(o.workers, ~0ULL);
  uint64_t bad_run = ~0ULL; std::string bad_key; uint64_t restarts = 0, hangs = 0; bool internal = false;
  auto start = [&](int w, uint64_t r) {
    G->rep[w].set = 0; hb[w] = G->st[w].hb; hbt[w] = now();
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) { worker(w, o, pi, r); }
    pid[w] = p;
  };
  for (int w = 0; w < o.workers; ++w) start(w, o.first + w);
  for (int alive = o.workers; alive > 0;) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      usleep(2000);
      for (int w = 0; w < o.workers; ++w) if (pid[w]) {
        if (G->st[w].hb != hb[w]) { hb[w] = G->st[w].hb; hbt[w] = now(); }
        else if (now() - hbt[w] > 20) { fprintf(stderr, "worker %d: run %llu does not answer, ended\n", w, (unsigned long long)G->st[w].cur_run - 1); ++hangs; kill(pid[w], SIGKILL); hbt[w] = now() + 1e9; }
      }
      continue;
    }
    int w = 0; while (w < o.workers && pid[w] != p) ++w;
    if (w == o.workers) continue;
    pid[w] = 0;
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    uint64_t run = G->st[w].cur_run - 1;
    bool again = false;
    if (code == 0) {}
    else if (code == 77 && G->rep[w].set) {
      std::string key = G->rep[w].key, text = G->rep[w].text; bool is_known = false;
      for (size_t i = 0; i < known.size(); ++i) if (known[i].prop == o.prop && known[i].key == key && text.find(known[i].match) != std::string::npos) { is_known = true; known_seen.insert(known[i].line); }
      if (is_known) again = true;
      else { if (run < bad_run) { bad_run = run; bad_key = key; } if (run < G->stop_at) G->stop_at = run; again = true; }
    }
    else if (code == 78) { ++restarts; again = true; }
    else if (code == 79) { fprintf(stderr, "worker %d: internal error in run %llu\n", w, (unsigned long long)run); internal = true; if (run < G->stop_at) G->stop_at = run; }
    else { fprintf(stderr, "worker %d: run %llu ended with %d\n", w, (unsigned long long)run, code); if (code == 1009) { again = true; } else internal = true; }
    if (again && run + o.workers < o.first + o.runs && run + o.workers < G->stop_at && now() < t0 + o.wall) start(w, run + o.workers);
    else --alive;
  }
  double wall_search = now() - t0;
  for (std::set<std::string>::iterator i = known_seen.begin(); i != known_seen.end(); ++i) printf("KNOWN-FINDING:%s\n", i->c_str());

  // determinism gate: some of the runs again, in other processes and another order
  uint64_t det = 0, det_bad = 0;
  if (bad_run == ~0ULL && !internal) {
    uint64_t n = std::min<uint64_t>(o.runs, 120);
    for (uint64_t k = n; k-- > 0 && now() - t0 < o.wall + 15;) {
      if (!G->hashes[k]) continue;
      Plan p = generate(o.gen, o.seed, o.first + k, o.tier == "thorough");
      p.prop = o.prop; std::string txt = to_text(p), err; Plan q; if (!from_text(txt, q, err) || to_text(q) != txt) { fprintf(stderr, "plan text is not faithful: %s\n", err.c_str()); internal = true; break; }
      Trial t = run_trial(q, pi->vmask, pi->family);
      if (t.code == 77) { fprintf(stderr, "run %llu repeated: %s\n", (unsigned long long)(o.first + k), t.text.c_str()); }
      if (t.code) { if (t.code != 78) ++det_bad; continue; }
      ++det; if ((t.hash | 1) != G->hashes[k]) { ++det_bad; fprintf(stderr, "run %llu is not deterministic\n", (unsigned long long)(o.first + k)); }
    }
  }
  int rc = 0; std::string viol_text;
  if (bad_run != ~0ULL) {
    Minimiser m; m.pi = pi; m.trials = 0; m.max_trials = 4000; m.deadline = now() + (o.tier == "thorough" ? 120 : 60);
    m.best = generate(o.gen, o.seed, bad_run, o.tier == "thorough"); m.best.prop = o.prop;
    Plan original = m.best;
    m.last = run_trial(m.best, pi->vmask, pi->family);
    bool ok = false;
    if (m.last.violated()) {
      m.key = m.last.key;
      m.run();
      for (int attempt = 0; attempt < 2 && !ok; ++attempt) {
        Trial a = run_trial(m.best, pi->vmask, pi->family), b = run_trial(m.best, pi->vmask, pi->family);
        ok = a.violated() && b.violated() && a.key == b.key && a.hash == b.hash && a.text == b.text;
        if (!ok && attempt == 1 && a.violated() && b.violated()) { ok = true; fprintf(stderr, "the violation repeats, its event log does not\n"); }
        if (ok) m.last = a; else m.best = original;
      }
    }
    std::string path = o.replay_dir + "/" + o.prop + "-seed" + num(o.seed) + "-run" + num(bad_run) + ".txt";
    if (!ok) {
      fprintf(stderr, "run %llu violated %s (%s) but does not repeat exactly; the plan is in %s\n", (unsigned long long)bad_run, o.prop.c_str(), bad_key.c_str(), path.c_str());
      m.last.key = bad_key; write_replay(path, original, m.last); rc = 2;
    } else {
      write_replay(path, m.best, m.last);
      printf("%s\n", m.last.text.c_str());
      printf("minimised to %zu operations in %d trials\n", Minimiser::total(m.best), m.trials);
      printf("VIOLATION property=%s replay=%s\n", o.prop.c_str(), path.c_str());
      viol_text = m.last.text; rc = 1;
    }
  }
  if (internal || det_bad) rc = rc == 1 ? 1 : 2;

  Stats s; memset(&s, 0, sizeof s);
  for (int w = 0; w < o.workers; ++w) {
    Stats const& q = G->st[w];
    s.runs += q.runs; s.ops += q.ops; s.attempts += q.attempts; s.own_attempts += q.own_attempts; s.steps += q.steps; s.allocs += q.allocs; s.frees += q.frees; s.switches += q.switches;
    for (int k = 0; k < F_NKINDS; ++k) { s.fired[k] += q.fired[k]; s.planned[k] += q.planned[k]; }
    s.failed_attempts += q.failed_attempts; s.ok_attempts += q.ok_attempts; s.skipped_ops += q.skipped_ops; s.retries_ok += q.retries_ok; s.compared += q.compared; s.skipped_points += q.skipped_points; s.excs += q.excs; s.foreign += q.foreign;
    if (q.foreign) fprintf(stderr, "note: %llu event(s) belonging to other properties, e.g. %s in run %llu\n", (unsigned long long)q.foreign, q.foreign_key, (unsigned long long)q.foreign_run);
  }
  double wall = now() - t0;
  if (!o.evidence.empty()) {
    std::ofstream e(o.evidence.c_str());
    bool thr = o.prop == "C16" || o.prop == "C17", heavy = o.prop == "C02" || o.prop == "C04";
    e << "{\n \"property\": " << json_str(o.prop) << ", \"tier\": " << json_str(o.tier) << ", \"seed\": " << o.seed << ", \"level\": " << (heavy ? "\"fault_enumeration\"" : "\"exploration\"") << ",\n \"coverage\": {\n";
    e << "  \"evaluations\": " << s.own_attempts << ",\n  \"distinct_nontrivial\": " << G->states.nontrivial << ",\n";
    e << "  \"rule\": \"A case is one attempt to execute one library operation in a simulated run generated from (property, seed, run number). Two cases are the same if the operation, its parameters, its operands and the fault that took effect (kind and position) and the outcome are the same; a case is non-trivial if it has an expression operand or a fault took effect in it.\",\n";
    e << "  \"samples\": [";
    for (int k = 0; k < 2; ++k) { Plan p = generate(o.gen, o.seed, o.first + k, o.tier == "thorough"); std::string t = to_text(p); if (t.size() > 2500) t = t.substr(0, 2500) + "..."; e << (k ? ", " : "") << json_str(t); }
    e << "],\n";
    e << "  \"simulated_runs\": " << s.runs << ", \"runs_per_hour\": " << (uint64_t)(s.runs / std::max(wall_search, 0.001) * 3600) << ", \"seeds_per_hour\": " << (uint64_t)(s.runs / std::max(wall_search, 0.001) * 3600) << ",\n";
    e << "  \"operations\": " << s.ops << ", \"attempts\": " << s.attempts << ", \"attempts_succeeded\": " << s.ok_attempts << ", \"attempts_ended_by_exception\": " << s.failed_attempts << ", \"operations_completed_after_failures\": " << s.retries_ok << ", \"operations_skipped_missing_operand\": " << s.skipped_ops << ",\n";
    e << "  \"simulated_time\": {\"unit\": \"memory accesses and allocations of library code (the library reads no clock)\", \"steps\": " << s.steps << "},\n";
    e << "  \"allocations\": " << s.allocs << ", \"releases\": " << s.frees << ", \"value_comparisons\": " << s.compared << ", \"value_comparisons_without_usable_point\": " << s.skipped_points << ", \"exception_texts_read\": " << s.excs << ",\n";
    e << "  \"faults\": {";
    for (int k = 1; k < F_NKINDS; ++k) e << (k > 1 ? ", " : "") << "\"" << fault_names[k] << "\": {\"planned\": " << s.planned[k] << ", \"fired\": " << s.fired[k] << "}";
    e << "},\n";
    e << "  \"distinct_states\": {\"measure\": \"hash of operation, parameters, operands, fault and outcome\", \"count\": " << G->states.n << ", \"table_full\": " << G->states.full << "},\n";
    if (thr) e << "  \"interleavings\": {\"measure\": \"hash of the sequence of (thread, its step count, next thread) at every switch\", \"distinct\": " << G->inter.n << ", \"switches\": " << s.switches << "},\n";
    e << "  \"determinism\": {\"runs_repeated_in_other_processes\": " << det << ", \"different\": " << det_bad << "},\n";
    e << "  \"restarts_after_events_of_other_properties\": " << restarts << ", \"hangs\": " << hangs << ", \"events_of_other_properties\": " << s.foreign << ",\n";
    e << "  \"real_components\": [\"all of /repo/viennamath (compiled from the working tree, instrumented)\", \"libstdc++ templates instantiated in the harness\", \"threads of the operating system, one runnable at a time\"],\n";
    e << "  \"stub_components\": [\"operator new/delete (simulated heap)\", \"thread scheduler\", \"mutexes, once-guards and atomics as seen by the race detector\", \"stream buffers\", \"user-supplied nodes, functors, quadrature rules and LaTeX processors\"]\n },\n";
    e << " \"assumptions\": [\"memory accesses of library code are those gcc's thread-sanitizer instrumentation reports, plus memcpy/memmove/memset/memcmp/strlen\", \"code inside libstdc++.so (number formatting, stream internals) is not instrumented\"],\n";
    e << " \"wall_s\": " << wall << ", \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
  }
  fprintf(stderr, "%s: %llu runs, %llu operations, %llu attempts, %llu skipped, %llu comparisons (%llu unusable), %llu distinct cases, %.1f s\n", o.prop.c_str(), (unsigned long long)s.runs, (unsigned long long)s.ops, (unsigned long long)s.attempts, (unsigned long long)s.skipped_ops, (unsigned long long)s.compared, (unsigned long long)s.skipped_points, (unsigned long long)G->states.n, wall);
  return rc;
}

int replay(Opt const& o) {
  std::ifstream in(o.file.c_str()); std::stringstream ss; ss << in.rdbuf(); std::string text = ss.str();
  Plan p; std::string err;
  if (!from_text(text, p, err)) { fprintf(stderr, "cannot read %s: %s\n", o.file.c_str(), err.c_str()); return 2; }
  PropInfo const* pi = find_prop(p.prop); if (!pi) { fprintf(stderr, "unknown property\n"); return 2; }
  unsigned long long want = 0; size_t i = text.find("# hash "); if (i != std::string::npos) sscanf(text.c_str() + i, "# hash %llx", &want);
  if (o.trace) set_trace_fd(2);
  Trial t = run_trial(p, pi->vmask, pi->family, 60, false);
  if (t.violated()) {
    printf("%s\nkey %s, event log hash %llx%s\nVIOLATION property=%s replay=%s\n", t.text.c_str(), t.key.c_str(), (unsigned long long)t.hash, want ? (want == t.hash ? " (as recorded)" : " (DIFFERENT from the recorded one)") : "", p.prop.c_str(), o.file.c_str());
    return 1;
  }
  if (t.code == 0) { printf("no violation\n"); return 0; }
  if (t.code == 78) { printf("the run cannot go on because of an event that belongs to another property: %s\n", G->tst.foreign_key); return 0; }
  fprintf(stderr, "the run ended with %d\n", t.code);
  return 2;
}
} // namespace

int main(int argc, char** argv) {
  int per = personality(0xffffffff);
  if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOEXEC") && personality(per | ADDR_NO_RANDOMIZE) != -1) {
    char* env[4]; int n = 0; static char abrt[] = "SIM_ABORT=1", noexec[] = "SIM_NOEXEC=1"; env[n++] = noexec; if (getenv("SIM_ABORT")) env[n++] = abrt; env[n] = 0;
    execve("/proc/self/exe", argv, env);
  }
  Opt o; if (argc > 1) o.mode = argv[1];
  std::vector<std::string> pos;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i]; auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--gen") o.gen = val();   // scenarios of one property, judged as another one
    else if (a == "--tier") o.tier = val();
    else if (a == "--workers") o.workers = atoi(val().c_str());
    else if (a == "--runs") o.runs = strtoull(val().c_str(), 0, 10);
    else if (a == "--first") o.first = strtoull(val().c_str(), 0, 10);
    else if (a == "--wall") o.wall = atof(val().c_str());
    else if (a == "--known") o.known = val();
    else if (a == "--replay-dir") o.replay_dir = val();
    else if (a == "--evidence") o.evidence = val();
    else if (a == "--trace") o.trace = true;
    else pos.push_back(a);
  }
  G = shared_alloc<Shared>();
  warm_up();
  init(&G->trep, &G->tst, 256);
  if (o.mode == "check" && pos.size() == 1) { o.prop = pos[0]; if (o.gen.empty()) o.gen = o.prop; return check(o); }
  if (o.mode == "replay" && pos.size() == 1) { o.file = pos[0]; return replay(o); }
  if (o.mode == "dump" && pos.size() == 3) { if (!find_prop(pos[0])) return 2; fputs(to_text(generate(pos[0], strtoull(pos[1].c_str(), 0, 10), strtoull(pos[2].c_str(), 0, 10), o.tier == "thorough")).c_str(), stdout); return 0; }
  if (o.mode == "hash" && pos.size() == 4) {
    PropInfo const* pi = find_prop(pos[0]); if (!pi) return 2;
    for (uint64_t r = strtoull(pos[2].c_str(), 0, 10), e = strtoull(pos[3].c_str(), 0, 10); r < e; ++r) { Trial t = run_trial(generate(pos[0], strtoull(pos[1].c_str(), 0, 10), r, o.tier == "thorough"), pi->vmask, pi->family); printf("%s %llu %d %llx %s\n", pos[0].c_str(), (unsigned long long)r, t.code, (unsigned long long)t.hash, t.key.c_str()); }
    return 0;
  }
  fprintf(stderr, "usage: engine check PROP | replay FILE | dump PROP SEED RUN | hash PROP SEED FROM TO\n");
  return 2;
}
