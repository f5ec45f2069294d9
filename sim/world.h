// The simulated world: pens, digitizer, event transport, clocks, frame callbacks, client.
// One seed decides everything; the product is a concrete trace of calls.
#ifndef SIM_WORLD_H_
#define SIM_WORLD_H_
#include "core.h"

struct Profile {
  bool stable_only = false;    // numerically stable parameters of one "sane" family
  bool extreme_params = false; // may use any valid parameter values
  double p_loop = .25, p_norm = .5, p_wob = .6, p_angle = .15;
  double p_end = .35, p_kalman = .45;  // rest: prediction disabled
  int max_inst = 1;
  double p_faultfree = .15;
  double fault_scale = 1;
  bool bad_values = true;      // NaN/inf/huge in inputs
  bool bad_stylus = true;      // NaN/inf/garbage in stylus fields
  bool stylus_missing = true;
  bool predict = true, save = true, reconf = true, cancel = true, badconf = true, relocate = true;
  bool protocol_faults = true; // lost down/up, spurious events, unknown types
  bool time_faults = true;     // jumps, equal timestamps, reordering
  bool buffers = true;
  bool tail = true;
  double p_dyadic = .5;
  double p_long = .04;
  double p_marathon = 0;       // a stroke of more than 2^16 inputs
  double p_repeat = 0;         // some operation is repeated some 2^8 times
  double p_splice = .2;        // short words over the interface are inserted
  double p_replay = .08, p_mirror = .15;
  bool far_epochs = true;
  bool unit_scales = true;
  bool small_maxout = false;   // often choose small output limits
  bool gaps = true;            // long pauses
  double max_gap = 500;        // seconds
  bool grid = false;           // positions always on a coarse dyadic grid
  int min_strokes = 1, max_strokes = 6;
  double p_predstorm = .2;
  double save_boost = 0;
  bool tiny = true;            // denormal and tiny positions
};

struct World {
  Rng rng;
  Profile pf;
  const Dict* dict;
  Trace tr;
  // per-run choices
  double T = 1, S = 1, epoch = 0;
  bool dyadic = false, use_dict = false;
  World(uint64_t seed, const Profile& p, const Dict* d) : rng(seed), pf(p), dict(d) {}
  Trace Generate();
  Par GenPar();
  Par BreakPar(Par p);
  Par ProbePar();
  void Repeat();
  void Splice();
  void Replay();
  void Mirror();
  double DictF(double fallback, double lo, double hi);
  int DictN(int fallback, int lo, int hi);
};
double StableRho(const Par& p, double dt);  // spectral radius of the spring step
#endif
