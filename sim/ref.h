// The executable reference model: the documented algorithms in double precision, with a bound on
// what rounding may change.  Written from the documentation; shares no code with the library.
#ifndef SIM_REF_H_
#define SIM_REF_H_
#include "oracle.h"

constexpr double kU = 1.1920928955078125e-07;  // spacing of floats at 1
constexpr double kTiny = 1e-36;

inline double UlpD(double a) { a = std::fabs(a); return std::nextafter(a, INFINITY) - a; }
inline bool FiniteRes(const Res& r) {
  return std::isfinite(r.px) && std::isfinite(r.py) && std::isfinite(r.vx) && std::isfinite(r.vy) && std::isfinite(r.ax) && std::isfinite(r.ay) && std::isfinite(r.t);
}
// a - b > c ?  1 yes, 0 no, 2 rounding decides (differently for equivalent formulas).
int DiffGreater(double a, double b, double c);

struct Rec {          // what is known about one input in effect
  In in;
  double x, y, e;     // smoothed position and error bound per coordinate
  double vx, vy, ev;  // of the polyline at this input
  double ax, ay, ea;
  int f_lo, f_hi;     // first retained input (possible range)
  bool sane;          // magnitudes for which the error analysis holds
  Res tip;            // last result of the update that delivered it
  bool known[3] = {true, true, true};  // pressure, tilt, orientation reported by all inputs so far
  int n_speed = 0;    // speed samples of the stroke up to here
};
// Follows one modeler's stroke.
struct Follow {
  std::vector<Rec> recs;
  // To be called after Proto::Apply; brings recs in step with the inputs in effect.
  void Sync(const Proto& pr, const Par* p, const Call* c);
};

struct End {  // the end-of-stroke steps from `prev` towards (x, y) known up to e
  double x, y, e;
};
// Empty string: fine.  Otherwise what is wrong.
std::string CheckStep(const Par& p, const Res& prev, const Res& r, double ancx, double ancy, double e_anc, int line);
// Spring steps towards a fixed point with time steps 1/rate halved any number of times.
std::string CheckEndSteps(const Par& p, Res prev, const std::vector<Res>& out, size_t from, const End& end);
#endif
