// The only door to the code under test: its public API, behind plain data.
#ifndef SIM_EXEC_H_
#define SIM_EXEC_H_
#include <memory>
#include <string>
#include <vector>

#include "core.h"

// Status codes as absl::StatusCode, plus:
enum { ST_OK = 0, ST_INVALID = 3, ST_PRECOND = 9, ST_BADALLOC = 1000, ST_EXCEPTION = 1001 };

// Whether the library is executing, and since which processor time of its process.
struct CallClock {
  int inside;
  double since;
};
extern CallClock* g_call_clock;

struct Call {
  int code = 0;
  std::vector<Res> out;     // newly appended results (Update) or the whole contents (Predict)
  bool prefix_ok = true;    // Update: earlier contents untouched
  bool buffer_ok = true;    // failed Update: size unchanged; failed Predict: empty
  uint64_t allocs = 0;      // allocations made inside the call
  bool ok() const { return code == ST_OK; }
};
bool SameCall(const Call& a, const Call& b, std::string* why);

struct SutImpl;
class Sut {
 public:
  explicit Sut(unsigned char pattern);
  ~Sut();
  Sut(const Sut&) = delete;
  int ResetP(const Par& p);
  int Reset();
  void Save();
  void Restore();
  void Relocate();
  SutImpl* impl;
};

struct BufImpl;
class Buf {
 public:
  Buf();
  ~Buf();
  Buf(const Buf&) = delete;
  size_t Size() const;
  Res Get(size_t i) const;
  void Clear();
  void Garbage(int n, uint64_t seed);
  void Reserve(int n);
  void Shrink();
  void Renew();
  BufImpl* impl;
};
int SutUpdate(Sut& s, const In& in, Buf& b);
int SutPredict(Sut& s, Buf& b);

// Buffer modes: 0 fresh, 1 persistent per instance, 2 fresh with garbage in it, 3 shared by all
// instances, 4 fresh with plenty of capacity, 5 persistent, cleared before the call,
// 6 persistent, shrunk to fit before the call.

// A set of modelers and caller buffers on which a trace is executed.
class Session {
 public:
  Session(int n_inst, unsigned char pattern, bool fresh_buffers = false);
  Call Do(const Op& op, const std::vector<Par>& params);
  std::unique_ptr<Sut>& inst(int i) { return suts_[i]; }

 private:
  Buf& Pick(const Op& op, bool predict);
  std::vector<std::unique_ptr<Sut>> suts_;
  std::vector<std::unique_ptr<Buf>> own_, own_pred_, temps_;
  Buf shared_;
  bool fresh_only_;
  unsigned char pattern_;
};

// Allocation control (alloc.cc)
extern thread_local bool g_in_sut;
extern thread_local long g_alloc_count;
extern thread_local long g_alloc_fail_at;  // -1: never
extern thread_local unsigned char g_alloc_pattern;
extern thread_local long g_live;  // allocations minus frees made inside the library's calls
extern uint64_t g_alloc_failures;
#endif
