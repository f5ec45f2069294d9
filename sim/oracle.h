#ifndef SIM_ORACLE_H_
#define SIM_ORACLE_H_
#include <memory>
#include <functional>
#include <string>
#include <vector>

#include "core.h"
#include "exec.h"
#include "world.h"

enum { MAXSTATES = 1500, NPROBE = 40 };
struct Stats {  // lives in memory shared between a run's process and its parent
  uint64_t ops, accepted, refused, predictions, results, checks, skipped, nontrivial, twins;
  uint64_t faults[NFAULT];
  uint64_t probes[NPROBE];
  double sim_time;
  uint64_t trace_hash, outcome_hash;
  uint32_t n_states;
  uint64_t states[MAXSTATES];
  CallClock clock;
  int violated;
  char cls[80];
  char msg[4000];
};
struct Violation {
  std::string cls, msg;
};
extern Stats* g_stats;
[[noreturn]] void Fail(const std::string& cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
int ProbeId(const char* name);
#define PROBE(name) do { static int id_ = ProbeId(name); ++g_stats->probes[id_]; } while (0)

// What the documented protocol says about one modeler, driven by the calls that were accepted.
// The inputs in effect.  Copies share their storage, so that taking one for every call stays cheap
// in very long strokes.
class Hist {
 public:
  struct Cum {  // about all inputs up to one
    float lo[3] = {INFINITY, INFINITY, INFINITY}, hi[3] = {-INFINITY, -INFINITY, -INFINITY};  // pressure, tilt, orientation
    bool missing[3] = {false, false, false};
    double min_dt = INFINITY;  // shortest time between inputs, other than none
  };
  const Cum& cum() const { return v_->at(n_ - 1).second; }
  class It {
   public:
    explicit It(const std::pair<In, Cum>* p) : p_(p) {}
    const In& operator*() const { return p_->first; }
    It& operator++() { ++p_; return *this; }
    bool operator!=(const It& o) const { return p_ != o.p_; }
   private:
    const std::pair<In, Cum>* p_;
  };
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  const In& operator[](size_t i) const { return (*v_)[i].first; }
  const In& front() const { return (*v_)[0].first; }
  const In& back() const { return (*v_)[n_ - 1].first; }
  It begin() const { return It(v_->data()); }
  It end() const { return It(v_->data() + n_); }
  void clear() { v_ = std::make_shared<Vec>(); n_ = 0; }
  void push_back(const In& in) {
    if (n_ != v_->size()) v_ = std::make_shared<Vec>(v_->begin(), v_->begin() + n_);
    Cum c = n_ ? cum() : Cum();
    const float f[3] = {in.p, in.ti, in.o};
    for (int i = 0; i < 3; ++i) {
      if (f[i] < 0 || !std::isfinite(f[i])) c.missing[i] = true;
      c.lo[i] = std::min(c.lo[i], f[i]);
      c.hi[i] = std::max(c.hi[i], f[i]);
    }
    if (n_ && in.t > back().t) c.min_dt = std::min(c.min_dt, in.t - back().t);
    v_->push_back({in, c});
    ++n_;
  }

 private:
  using Vec = std::vector<std::pair<In, Cum>>;
  std::shared_ptr<Vec> v_ = std::make_shared<Vec>();
  size_t n_ = 0;
};

struct Proto {
  bool init = false;
  int par = -1;
  bool stroke = false;
  Hist eff;  // inputs in effect: accepted since the Down, minus those rolled back
  bool saved = false, s_stroke = false;
  Hist s_eff;
  bool ended_by_up = false;
  void Apply(const Op& op, bool ok);
};

// Executes a trace, keeping statistics and the state measure.
struct Runner {
  Runner(const Trace& t, unsigned char pattern, bool fresh_buffers = false, bool note = true);
  Call Do(const Op& op);
  const Trace& tr;
  Session s;
  std::vector<Proto> proto;
  std::vector<uint64_t> gram;
  bool note;
};

// A process that has never used the library: executes one trace there.  Must be made before the
// library is first used in this process.
class Elsewhere {
 public:
  Elsewhere();
  ~Elsewhere();
  Elsewhere(const Elsewhere&) = delete;
  bool Run(const Trace& t, std::vector<Call>* out);

 private:
  int to_ = -1, from_ = -1, pid_ = -1;
};

struct PropDef {
  const char* id;
  Profile profile;
  std::function<Trace(uint64_t seed, const PropDef&, const Dict&)> gen;
  std::function<void(const Trace&)> check;
};
const std::vector<PropDef>& Props();
const PropDef* FindProp(const std::string& id);

// Individual checks in their own files.
void CheckC13(const Trace& t);
void CheckC14(const Trace& t);
void CheckC17(const Trace& t);
void CheckC18(const Trace& t);
void CheckC07(const Trace& t);
bool PreemptBuild();
void FillSched(Trace& t, Rng& r);
#endif
