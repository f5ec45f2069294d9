// C07: modelers on real threads under a seeded scheduler.
//
// Exactly one thread runs at a time (a baton).  In the preemption build the library is compiled
// with instrumentation of edges, loads and stores; the trace's schedule says after how many of
// these, counted inside library code, the baton passes to which thread.  So a thread can be stopped
// before any memory access of the library, and the same schedule stops it there again.
#include <dlfcn.h>
#include <pthread.h>

#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>

#include "oracle.h"

namespace {
struct Sched {
  pthread_mutex_t mu;
  pthread_cond_t cv[8];
  int n = 0;
  int running = -1;  // who holds the baton
  bool done[8] = {false};
  const std::vector<uint32_t>* plan = nullptr;
  size_t pos = 0;
  uint64_t budget = 0;  // edges until the next planned switch
  int next = 0;
  uint64_t switches = 0, inside = 0, forced = 0;
  uint64_t stall = 0;
};
Sched* g_s = nullptr;
thread_local int t_id = -1;
thread_local int t_nopreempt = 0;
thread_local bool t_in_hook = false;

// The harness's own locking must not go through the interposed functions below.
int (*r_lock)(pthread_mutex_t*);
int (*r_unlock)(pthread_mutex_t*);
int (*r_trylock)(pthread_mutex_t*);
void Init() {
  if (r_lock) return;
  r_lock = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
  r_unlock = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
  r_trylock = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_trylock"));
}
void LoadPlan() {
  Sched& s = *g_s;
  if (s.plan && s.pos + 1 < s.plan->size()) {
    s.budget = (*s.plan)[s.pos] + 1;
    s.next = (*s.plan)[s.pos + 1] % s.n;
    s.pos += 2;
  } else {
    s.budget = 4000000;  // afterwards only a thread that spins is interrupted
    s.next = -1;
  }
}
// Gives the baton to `to` (or the next unfinished thread after it) and waits to get it back.
void Pass(int to, bool finished) {
  Sched& s = *g_s;
  int me = t_id;
  for (int k = 0; k < s.n; ++k) {
    int c = (to + k) % s.n;
    if (s.done[c] || (c == me && finished)) continue;
    to = c;
    break;
  }
  if (to == me && !finished) return;
  r_lock(&s.mu);
  s.running = to;
  ++s.switches;
  pthread_cond_signal(&s.cv[to]);
  if (!finished)
    while (s.running != me) pthread_cond_wait(&s.cv[me], &s.mu);
  r_unlock(&s.mu);
}
[[maybe_unused]] void Edge() {
  if (t_id < 0 || !g_s || t_in_hook) return;
  Sched& s = *g_s;
  if (t_nopreempt) return;
  if (--s.budget) return;
  t_in_hook = true;
  int to = s.next;
  if (to < 0) { to = (t_id + 1) % s.n; ++s.forced; }
  LoadPlan();
  if (to != t_id && !s.done[to]) ++s.inside;
  Pass(to, false);
  t_in_hook = false;
}
void YieldBlocked() {
  bool h = t_in_hook;
  t_in_hook = true;
  if (++g_s->stall > 10000000) { fprintf(stderr, "SIM-STEP-LIMIT deadlock\n"); _exit(78); }
  Pass((t_id + 1) % g_s->n, false);
  t_in_hook = h;
}
}  // namespace

#ifdef SIM_PREEMPT
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  for (uint32_t* p = start; p < stop; ++p) if (!*p) *p = 1;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t*) { Edge(); }
#define ACCESS(T, n) \
  extern "C" void __sanitizer_cov_load##n(T*) { Edge(); } \
  extern "C" void __sanitizer_cov_store##n(T*) { Edge(); }
ACCESS(uint8_t, 1)
ACCESS(uint16_t, 2)
ACCESS(uint32_t, 4)
ACCESS(uint64_t, 8)
ACCESS(__int128, 16)

// Blocking while holding the baton would stop the world: a simulated thread that must wait
// hands the baton on and tries again.
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
  Init();
  if (t_id < 0 || t_in_hook || !g_s) return r_lock(m);
  while (true) {
    int r = r_trylock(m);
    if (r != EBUSY) return r;
    YieldBlocked();
  }
}
// Initialisation of function-local statics: the initialising thread is not preempted.
extern "C" int __cxa_guard_acquire(uint64_t* g) {
  if (*reinterpret_cast<volatile char*>(g)) return 0;
  ++t_nopreempt;
  return 1;
}
extern "C" void __cxa_guard_release(uint64_t* g) {
  *reinterpret_cast<volatile char*>(g) = 1;
  --t_nopreempt;
}
extern "C" void __cxa_guard_abort(uint64_t*) { --t_nopreempt; }
bool PreemptBuild() { return true; }
#else
bool PreemptBuild() { return false; }
#endif

void FillSched(Trace& t, Rng& r) {
  // A mixture of fine and coarse slices; sometimes two threads in lockstep.
  int style = r.Int(0, 3);
  int len = r.P(.3) ? r.Int(400, 3000) : r.Int(4, 400);
  for (int i = 0; i < len; ++i) {
    uint32_t e;
    switch (style) {
      case 0: e = r.Int(0, 60); break;
      case 1: e = r.Int(0, 2000); break;
      case 2: e = r.P(.5) ? r.Int(0, 8) : r.Int(0, 12000); break;
      default: e = static_cast<uint32_t>(r.LogRange(1, 20000)); break;
    }
    t.sched.push_back(e);
    t.sched.push_back(r.Int(0, t.n_inst - 1));
  }
  // aux[3]: 0 each modeler stays on its thread, 1 modelers migrate between threads
  t.aux.resize(4);
  t.aux[3] = r.P(.3);
}

static std::vector<Call> RunThreads(const Trace& t, bool note) {
  Init();
  std::vector<Call> recs(t.ops.size());
  Session s(t.n_inst, 0xA5);
  static Sched sch;
  sch = Sched();
  pthread_mutex_init(&sch.mu, nullptr);
  for (auto& c : sch.cv) pthread_cond_init(&c, nullptr);
  sch.n = t.n_inst;
  sch.plan = &t.sched;
  // which thread does each call, and which call of the same modeler must have finished before
  std::vector<std::vector<size_t>> work(t.n_inst);
  std::vector<long> dep(t.ops.size(), -1), last(t.n_inst, -1);
  std::vector<char> done(t.ops.size(), 0);
  bool migrate = t.aux.size() > 3 && t.aux[3] != 0;
  for (size_t i = 0; i < t.ops.size(); ++i) {
    int th = t.ops[i].inst;
    if (migrate) th = (th + (HashMix(i / 5, t.seed) % 3 == 0)) % t.n_inst;
    work[th].push_back(i);
    dep[i] = last[t.ops[i].inst];
    last[t.ops[i].inst] = i;
  }
  g_s = &sch;
  LoadPlan();
  std::vector<std::thread> ths;
  std::string failure;
  for (int k = 0; k < t.n_inst; ++k) {
    ths.emplace_back([&, k] {
      r_lock(&sch.mu);
      while (sch.running != k) pthread_cond_wait(&sch.cv[k], &sch.mu);
      r_unlock(&sch.mu);
      t_id = k;
      for (size_t i : work[k]) {
        while (dep[i] >= 0 && !done[dep[i]]) YieldBlocked();
        Op op = t.ops[i];
        if (op.buf == 3) op.buf = 1;  // no shared caller buffers between threads
        recs[i] = s.Do(op, t.params);
        done[i] = 1;
      }
      t_id = -1;
      t_in_hook = true;
      r_lock(&sch.mu);
      sch.done[k] = true;
      int to = -1;
      for (int j = 1; j <= sch.n; ++j) if (!sch.done[(k + j) % sch.n]) { to = (k + j) % sch.n; break; }
      sch.running = to;
      if (to >= 0) pthread_cond_signal(&sch.cv[to]);
      r_unlock(&sch.mu);
    });
  }
  r_lock(&sch.mu);
  sch.running = 0;
  pthread_cond_signal(&sch.cv[0]);
  r_unlock(&sch.mu);
  for (auto& th : ths) th.join();
  g_s = nullptr;
  if (note) {
    g_stats->faults[F_PREEMPT] += sch.inside;
    if (sch.inside) { PROBE("runs with preemption inside a library call"); g_stats->nontrivial = 1; }
    if (migrate) PROBE("runs with modelers migrating between threads");
  }
  return recs;
}

void CheckC07(const Trace& t) {
  std::vector<std::unique_ptr<Elsewhere>> other;
  for (int i = 0; i < t.n_inst; ++i) other.push_back(std::make_unique<Elsewhere>());
  std::vector<Call> recs;
  if (t.variant == 1 && PreemptBuild()) {
    recs = RunThreads(t, true);
    uint64_t o = 1;
    for (size_t i = 0; i < recs.size(); ++i) {
      ++g_stats->ops;
      if (recs[i].ok()) ++g_stats->accepted; else ++g_stats->refused;
      g_stats->results += recs[i].out.size();
      if (t.ops[i].fault) ++g_stats->faults[t.ops[i].fault];
      o = HashMix(o, recs[i].code);
      for (auto& r : recs[i].out) o = HashMix(o, HashBytes(&r.px, 4) ^ HashBytes(&r.t, 8));
    }
    g_stats->outcome_hash = o;
    // the schedule itself is the interleaving: hash its windows as the state measure
    for (size_t i = 0; i + 7 < t.sched.size() && g_stats->n_states < MAXSTATES; i += 2)
      g_stats->states[g_stats->n_states++] = HashBytes(&t.sched[i], 8 * 4, t.n_inst);
  } else {
    Runner run(t, 0xA5);
    int prev = -1;
    for (const Op& op : t.ops) {
      recs.push_back(run.Do(op));
      if (prev >= 0 && prev != op.inst) g_stats->nontrivial = 1;
      prev = op.inst;
      if (op.k == OP_RELOCATE) PROBE("modeler moved in memory");
    }
  }
  for (int inst = 0; inst < t.n_inst; ++inst) {
    // The same calls on the only modeler of another process.
    Trace one;
    one.prop = t.prop;
    one.params = t.params;
    one.n_inst = 1;
    std::vector<size_t> index;
    for (size_t i = 0; i < t.ops.size(); ++i) {
      if (t.ops[i].inst != inst || t.ops[i].k == OP_RELOCATE) continue;
      one.ops.push_back(t.ops[i]);
      one.ops.back().inst = 0;
      one.ops.back().buf = 0;
      index.push_back(i);
    }
    if (one.ops.empty()) continue;
    std::vector<Call> solo;
    ++g_stats->twins;
    bool complete = other[inst]->Run(one, &solo);
    for (size_t k = 0; k < solo.size(); ++k) {
      ++g_stats->checks;
      std::string why;
      if (!SameCall(recs[index[k]], solo[k], &why))
        Fail("modelers-interfere", "call %zu (%s on modeler %d) differs from the same modeler used alone: %s", index[k], kKindNames[one.ops[k].k], inst, why.c_str());
    }
    if (!complete) Fail("modelers-interfere", "modeler %d fails when it is used alone", inst);
  }
}
