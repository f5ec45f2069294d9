// Plain data of the simulator: seeded PRNG, parameters, events, traces.
// Nothing here depends on the code under test.
#ifndef SIM_CORE_H_
#define SIM_CORE_H_
#include <algorithm>
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s[4];
  static uint64_t Mix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed) {
    for (auto& v : s) v = Mix(seed);
  }
  static uint64_t Rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t U64() {
    uint64_t r = Rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
    s[2] ^= t; s[3] = Rotl(s[3], 45);
    return r;
  }
  double U() { return (U64() >> 11) * (1.0 / 9007199254740992.0); }
  double Range(double a, double b) { return a + (b - a) * U(); }
  double LogRange(double a, double b) { return std::exp(Range(std::log(a), std::log(b))); }
  int Int(int lo, int hi) {  // inclusive
    if (hi <= lo) return lo;
    return lo + static_cast<int>(U64() % (static_cast<uint64_t>(hi) - lo + 1));
  }
  bool P(double p) { return U() < p; }
  template <typename T>
  const T& Pick(const std::vector<T>& v) { return v[U64() % v.size()]; }
  template <typename T, size_t N>
  const T& Pick(const T (&v)[N]) { return v[U64() % N]; }
};

inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ull;
  return h;
}
inline uint64_t HashMix(uint64_t h, uint64_t v) {
  uint64_t x = h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2));
  return Rng::Mix(x);
}

// ---------------------------------------------------------------- parameters
enum PF {
  WOB_EN, WOB_TIMEOUT, WOB_FLOOR, WOB_CEIL, PM_MASS, PM_DRAG, LC_EN, LC_LO, LC_HI, LC_SLO,
  LC_SHI, LC_WIN, LC_N, SP_RATE, SP_STOP, SP_ITERS, SP_MAXOUT, SP_ANGLE, ST_MAX, ST_NORM,
  ST_MIN, ST_DUR, PR_KIND, KP_PN, KP_MN, KP_STABLE, KP_MAXT, KP_CATCH, KP_AW, KP_JW,
  KP_INTERVAL, KP_CN, KP_CEST, KP_CMINS, KP_CMAXS, KP_CLIN, KP_CBASE, NPF
};
extern const char* const kParamNames[NPF];
enum { PRED_END = 0, PRED_KALMAN = 1, PRED_NONE = 2 };
struct Par {  // every field is exactly representable in the type the library uses
  double v[NPF];
  double& operator[](int i) { return v[i]; }
  double operator[](int i) const { return v[i]; }
  bool wob() const { return v[WOB_EN] != 0; }
  bool loop() const { return v[LC_EN] != 0; }
  bool norm() const { return v[ST_NORM] != 0; }
  int kind() const { return static_cast<int>(v[PR_KIND]); }
};
enum PType { T_BOOL, T_INT, T_FLOAT, T_DOUBLE };
extern const PType kParamTypes[NPF];
Par DefaultPar();
void RoundPar(Par& p);  // rounds each field to the library's type

// ---------------------------------------------------------------- events
enum { DOWN = 0, MOVE = 1, UP = 2 };
struct In {
  int type = MOVE;
  float x = 0, y = 0;
  double t = 0;
  float p = -1, ti = -1, o = -1;
};
struct Res {
  float px, py, vx, vy, ax, ay;
  double t;
  float p, ti, o;
};
inline bool BitEq(float a, float b) { return std::memcmp(&a, &b, 4) == 0; }
inline bool BitEq(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }
// Equality of observable values: all NaNs are one value, +0 and -0 are distinct.
inline bool SameF(float a, float b) { return BitEq(a, b) || (std::isnan(a) && std::isnan(b)); }
inline bool SameF(double a, double b) { return BitEq(a, b) || (std::isnan(a) && std::isnan(b)); }
inline bool SameRes(const Res& a, const Res& b) {
  return SameF(a.px, b.px) && SameF(a.py, b.py) && SameF(a.vx, b.vx) && SameF(a.vy, b.vy) &&
         SameF(a.ax, b.ax) && SameF(a.ay, b.ay) && SameF(a.t, b.t) && SameF(a.p, b.p) &&
         SameF(a.ti, b.ti) && SameF(a.o, b.o);
}
inline bool SameIn(const In& a, const In& b) {
  return a.type == b.type && BitEq(a.x, b.x) && BitEq(a.y, b.y) && BitEq(a.t, b.t) &&
         BitEq(a.p, b.p) && BitEq(a.ti, b.ti) && BitEq(a.o, b.o);
}
std::string ResStr(const Res& r);
std::string InStr(const In& i);

// ---------------------------------------------------------------- faults
enum Fault {
  F_NONE, F_LOSS, F_DUP, F_REORDER, F_DELAY, F_EQTIME, F_QUANT, F_JUMPFWD, F_JUMPBACK, F_STALL,
  F_NAN, F_INF, F_HUGE, F_TINY, F_FIELDMISS, F_FIELDGARB, F_BADTYPE, F_LOSTDOWN, F_LOSTUP,
  F_SPURDOWN, F_SPURUP, F_SPURMOVE, F_CANCEL, F_RECONF, F_BADCONF, F_TELEPORT, F_PREDSTORM,
  F_RELOCATE, F_SPECULATE, F_ROLLBACK, F_ALLOC, F_DIRTYBUF, F_PREEMPT, F_UNINIT, F_DEADPRED,
  F_CLOCKSKEW, F_REPEAT, F_WORD, F_REPLAY, F_MIRROR, NFAULT
};
extern const char* const kFaultNames[NFAULT];

// ---------------------------------------------------------------- traces
enum Kind { OP_RESETP, OP_RESET, OP_UPDATE, OP_PREDICT, OP_SAVE, OP_RESTORE, OP_RELOCATE, NKIND };
extern const char* const kKindNames[NKIND];
enum { NBUF = 7 };  // buffer modes, see exec.h
struct Op {
  int k = OP_UPDATE;
  int inst = 0;
  int par = -1;     // OP_RESETP: index into Trace::params
  In in;            // OP_UPDATE
  int buf = 0;      // buffer mode, see exec
  int fault = 0;    // what in the world made this call happen like this
  int alloc = -1;   // fail the n-th allocation (0-based) inside this call
};
struct Trace {
  std::string prop;
  uint64_t seed = 0;
  int n_inst = 1;
  int variant = 0;          // property-specific choice (e.g. which transform)
  std::vector<double> aux;  // property-specific numbers
  std::vector<Par> params;
  std::vector<Op> ops;
  std::vector<uint32_t> sched;  // preemption schedule: pairs (edges to run, next thread)
  uint64_t lost = 0;            // events that the transport lost (they leave no operation)
  double sim_span = 0;
};
std::string TraceToText(const Trace& t);
bool TraceFromText(const std::string& s, Trace* t);
uint64_t TraceHash(const Trace& t);
bool ParValid(const Par& p, bool* sure);  // reference validator

// ---------------------------------------------------------------- numeric dictionary
struct Dict {
  std::vector<double> f;
  std::vector<int> n;
};
#endif
