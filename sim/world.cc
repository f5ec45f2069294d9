#include "world.h"

#include <queue>

double World::DictF(double fb, double lo, double hi) {
  if (!use_dict || dict->f.empty() || !rng.P(.25)) return fb;
  double d = rng.Pick(dict->f);
  if (rng.P(.3)) d = std::nextafter((float)d, rng.P(.5) ? 1e30f : -1e30f);
  return d >= lo && d <= hi ? d : fb;
}
int World::DictN(int fb, int lo, int hi) {
  if (!use_dict || dict->n.empty() || !rng.P(.4)) return fb;
  int d = rng.Pick(dict->n) + rng.Int(-1, 1);
  return d >= lo && d <= hi ? d : fb;
}

double StableRho(const Par& p, double dt) {
  double k = 1 / p[PM_MASS], c = p[PM_DRAG];
  // v' = v + dt (k (a - x) - c v);  x' = x + dt v'
  double a = 1 - k * dt * dt, b = dt * (1 - c * dt), cc = -k * dt, d = 1 - c * dt;
  double tr = a + d, det = a * d - b * cc, disc = tr * tr / 4 - det;
  if (disc >= 0) {
    double s = std::sqrt(disc);
    return std::max(std::fabs(tr / 2 + s), std::fabs(tr / 2 - s));
  }
  return std::sqrt(det);
}

static double Dy(double v, double q) { return std::round(v / q) * q; }

// Keeps the cost of a call within reason: the library averages all speeds in the window anew for
// every result, and every result searches all retained inputs.
static void Tame(Par& p) {
  if (p.loop() && p[SP_RATE] * p[LC_WIN] > 2000) p[LC_WIN] = 2000 / p[SP_RATE];
  if (p.loop()) p[SP_MAXOUT] = std::min(p[SP_MAXOUT], p[LC_N] > 500 ? 2000. : 20000.);
  if (p.kind() == PRED_KALMAN && p[KP_INTERVAL] * p[SP_RATE] > 5000) p[SP_MAXOUT] = std::min(p[SP_MAXOUT], 5000.);
}

// A parameter set of the family used in deployments, in the run's units.
Par World::GenPar() {
  Par p = DefaultPar();
  auto dyt = [&](double v, double q) {  // a duration; on the dyadic clock in dyadic mode
    if (dyadic) v = std::max(Dy(v, q), q);
    return v * T;
  };
  bool extreme = pf.extreme_params && rng.P(.35);
  static const double kRates[] = {60, 90, 120, 180, 240, 480, 1000, 64, 128, 256, 100};
  double rate = rng.P(.8) ? rng.Pick(kRates) : rng.LogRange(20, 2000);
  rate = DictF(rate, 20, 2000);
  p[SP_RATE] = rate / T;
  double dt = 1 / rate;
  // Spring and drag: as given in the documentation, or scaled, always within stability.
  double k = 32400. / 11, c = 72;
  if (rng.P(.5)) { k *= rng.LogRange(.2, 4); c *= rng.LogRange(.3, 2.5); }
  bool stiff = rng.P(.08);
  if (stiff) {
    // Stiff: the step is long against the drag or the spring, yet the motion settles.
    c = rng.Range(.05, 1.8) / dt;
    k = (4 - 2 * c * dt) * rng.Range(.05, .9) / (dt * dt);
    if (rng.P(.2)) { c = 1 / dt; k = 1 / (dt * dt); }  // every step ends at the anchor
  }
  while (!stiff && c * dt > .9) c *= .5;
  while (!stiff && k * dt * dt > 1.4 - .6 * c * dt) k *= .5;
  p[PM_MASS] = 1 / k * T * T;
  p[PM_DRAG] = c / T;
  p[SP_STOP] = S * (rng.P(.5) ? .001 : rng.LogRange(1e-5, .1));
  p[SP_ITERS] = rng.P(.6) ? 20 : DictN(rng.P(.2) ? rng.Int(1, 1000) : rng.Int(1, 60), 1, 1000);
  p[SP_MAXOUT] = rng.P(.5) ? 100000 : 4000;
  if (pf.small_maxout ? rng.P(.7) : rng.P(.12)) {
    p[SP_MAXOUT] = rng.P(.3) ? rng.Int(1, 5) : static_cast<int>(rng.LogRange(1, 3000));
    p[SP_MAXOUT] = DictN(static_cast<int>(p[SP_MAXOUT]), 1, 100000);
  }
  if (rng.P(pf.p_angle)) {
    p[SP_ANGLE] = rng.P(.5) ? 3.14159265358979 / rng.Int(2, 40) : rng.LogRange(.01, 3.1);
    if (rng.P(.05)) {  // a turn may take more than the limit
      p[SP_ANGLE] = rng.LogRange(1e-7, .01);
      p[SP_MAXOUT] = std::min(p[SP_MAXOUT], 2000.);
    }
  }
  // Wobble smoothing
  p[WOB_EN] = rng.P(pf.p_wob);
  p[WOB_TIMEOUT] = dyt(rng.P(.5) ? .04 : rng.LogRange(.002, 1), 1. / 256);
  if (rng.P(.06)) p[WOB_TIMEOUT] = 0;
  double sp = rng.P(.5) ? 1 : rng.LogRange(.05, 20);
  p[WOB_FLOOR] = 1.31 * sp * S / T;
  p[WOB_CEIL] = 1.44 * sp * S / T;
  if (rng.P(.3)) p[WOB_CEIL] = p[WOB_FLOOR] * rng.LogRange(1, 30);
  if (rng.P(.05)) p[WOB_FLOOR] = 0;
  if (rng.P(.05)) p[WOB_CEIL] = p[WOB_FLOOR];
  // Stylus modelling
  p[ST_NORM] = rng.P(pf.p_norm);
  p[ST_MAX] = rng.P(.5) ? 10 : DictN(rng.P(.3) ? rng.Int(1, 4) : rng.Int(1, 60), 1, 100000);
  if (p.norm() || rng.P(.3)) {
    p[ST_MIN] = rng.P(.5) ? 10 : DictN(rng.P(.3) ? rng.Int(1, 4) : rng.Int(1, 40), 1, 100000);
    p[ST_DUR] = dyt(rng.P(.5) ? .05 : rng.LogRange(.004, 1), 1. / 256);
  }
  // Loop contraction mitigation
  if (p.norm() && rng.P(pf.p_loop / std::max(pf.p_norm, 1e-9))) {
    p[LC_EN] = 1;
    double lo = rng.P(.15) ? 0 : rng.LogRange(.05, 40);
    p[LC_LO] = lo * S / T;
    p[LC_HI] = rng.P(.1) ? p[LC_LO] : (lo + rng.LogRange(.1, 40)) * S / T;
    p[LC_SLO] = rng.P(.5) ? 1 : rng.U();
    p[LC_SHI] = rng.P(.3) ? 0 : rng.P(.3) ? .5 * p[LC_SLO] : rng.P(.1) ? p[LC_SLO] : rng.U() * p[LC_SLO];
    p[LC_WIN] = std::min(dyt(rng.P(.5) ? .04 : rng.LogRange(.004, .5), 1. / 256), 9999.);
    p[LC_N] = rng.P(.4) ? rng.Int(1, 5) : DictN(rng.Int(1, 60), 1, 10000);
  }
  // Prediction
  double u = rng.U();
  p[PR_KIND] = u < pf.p_end ? PRED_END : u < pf.p_end + pf.p_kalman ? PRED_KALMAN : PRED_NONE;
  if (p.kind() == PRED_KALMAN) {
    if (rng.P(.5)) {
      p[KP_PN] = rng.LogRange(1e-5, .1);
      p[KP_MN] = rng.LogRange(1e-3, 1);
    }
    p[KP_PN] *= S * S;
    p[KP_MN] *= S * S;
    p[KP_STABLE] = rng.P(.6) ? 4 : DictN(rng.Int(1, 25), 1, 1000);
    p[KP_MAXT] = rng.P(.6) ? 20 : DictN(rng.P(.3) ? rng.Int(1, 3) : rng.Int(1, 40), 1, 1000);
    p[KP_CATCH] *= S / T;
    if (rng.P(.3)) p[KP_CATCH] *= rng.LogRange(.1, 1000);
    if (rng.P(.4)) { p[KP_AW] = rng.P(.2) ? rng.Int(0, 1) : rng.Range(0, 1.2); p[KP_JW] = rng.P(.3) ? rng.Int(0, 1) : rng.Range(0, 1.3); }
    if (rng.P(.06)) p[KP_AW] = p[KP_JW] = 0;  // straight predictions
    p[KP_INTERVAL] = (rng.P(.5) ? 1. / 60 : rng.LogRange(.002, .2)) * T;
    p[KP_CN] = rng.P(.6) ? 20 : rng.Int(1, 40);
    double e = rng.P(.5) ? 1 : rng.LogRange(.3, 100);
    p[KP_CEST] *= S * e;
    double v = rng.P(.5) ? 1 : rng.LogRange(.01, 2);
    p[KP_CMINS] *= S / T * v;
    p[KP_CMAXS] *= S / T * v;
    if (rng.P(.07)) p[KP_CMINS] = 0;
    if (rng.P(.07)) p[KP_CMAXS] = p[KP_CMINS];
    p[KP_CLIN] *= S * (rng.P(.5) ? 1 : rng.LogRange(.1, 100));
    if (rng.P(.4)) p[KP_CBASE] = rng.P(.3) ? rng.Int(0, 1) : rng.U();
  }
  if (extreme) {
    int n = rng.Int(1, 4);
    for (int i = 0; i < n; ++i) {
      switch (rng.Int(0, 16)) {
        case 0: p[PM_MASS] = rng.LogRange(1e-20, 1e20); break;
        case 1: p[PM_DRAG] = rng.LogRange(1e-20, 1e20); break;
        case 2: p[SP_STOP] = rng.LogRange(1e-30, 1e30); break;
        case 3: p[SP_ITERS] = rng.Int(1, 1000); break;
        case 4: p[SP_RATE] = rng.LogRange(1e-6, 1e5) / T; break;
        case 5: p[WOB_TIMEOUT] = rng.P(.2) ? 0 : rng.LogRange(1e-12, 1e12); break;
        case 6: p[WOB_FLOOR] = rng.P(.2) ? 0 : rng.LogRange(1e-20, 1e20); p[WOB_CEIL] = std::max(p[WOB_CEIL], p[WOB_FLOOR]); break;
        case 7: p[WOB_CEIL] = p[WOB_FLOOR] * rng.LogRange(1, 1e15); break;
        case 8: p[ST_MAX] = rng.P(.5) ? 1 : 2147483647; break;
        case 9: if (p[ST_DUR] > 0) p[ST_DUR] = rng.LogRange(1e-12, 1e12); break;
        case 10: if (p[ST_MIN] > 0) p[ST_MIN] = rng.P(.5) ? 1 : 2147483647; break;
        case 11: p[KP_INTERVAL] = rng.LogRange(1e-9, 1e9); break;
        case 12: p[KP_CATCH] = rng.LogRange(1e-30, 1e30); break;
        case 13: p[KP_PN] = rng.LogRange(1e-30, 1e30); p[KP_MN] = rng.LogRange(1e-30, 1e30); break;
        case 14: p[KP_AW] = rng.Range(-1e6, 1e6); p[KP_JW] = rng.Range(-1e6, 1e6); break;
        case 15: p[KP_CEST] = rng.LogRange(1e-30, 1e30); p[KP_CLIN] = rng.LogRange(1e-30, 1e30); break;
        case 16: p[KP_CN] = rng.P(.5) ? 1 : 2147483647; p[KP_MAXT] = rng.P(.5) ? 1 : 2147483647; break;
      }
    }
  }
  RoundPar(p);
  if (p[WOB_CEIL] < p[WOB_FLOOR]) p[WOB_CEIL] = p[WOB_FLOOR];
  if (p.loop()) {
    if (p[LC_HI] < p[LC_LO]) p[LC_HI] = p[LC_LO];
    if (p[LC_SHI] > p[LC_SLO]) p[LC_SHI] = p[LC_SLO];
  }
  if (p[KP_CMAXS] < p[KP_CMINS]) p[KP_CMAXS] = p[KP_CMINS];
  Tame(p);
  return p;
}

Par World::BreakPar(Par p) {
  int n = rng.P(.8) ? 1 : rng.Int(2, 4);
  for (int i = 0; i < n; ++i) {
    int f = rng.Int(0, NPF - 1);
    if (f == WOB_EN || f == LC_EN || f == PR_KIND) { f = SP_RATE; }
    if (f == ST_NORM) {
      p[LC_EN] = 1; p[ST_NORM] = 0;
      p[LC_LO] = 1; p[LC_HI] = 2; p[LC_SLO] = 1; p[LC_SHI] = 0; p[LC_WIN] = .1; p[LC_N] = 3;
      continue;
    }
    if (kParamTypes[f] == T_INT) {
      static const int bad[] = {0, -1, -2147483647 - 1, 1001, 10001, 1, 1000, 10000, 2147483647};
      p[f] = rng.Pick(bad);
    } else {
      static const double bad[] = {0, -1, NAN, INFINITY, -INFINITY, -1e-30, -5, 1.0001, 3.2, 10001, 1e30, -0.0, 1, 10000};
      p[f] = rng.Pick(bad);
    }
  }
  RoundPar(p);
  bool sure;
  if (ParValid(p, &sure)) {  // it happens
    p[SP_MAXOUT] = std::min(p[SP_MAXOUT], 100000.);
    Tame(p);
  }
  return p;
}

// A configuration at, or just across, the border of what is documented as valid.
Par World::ProbePar() {
  double ploop = pf.p_loop, pnorm = pf.p_norm, pk = pf.p_kalman;
  pf.p_loop = .5; pf.p_norm = .7; pf.p_kalman = .5;
  Par p = GenPar();
  pf.p_loop = ploop; pf.p_norm = pnorm; pf.p_kalman = pk;
  if (p.kind() == PRED_END && rng.P(.5)) p[PR_KIND] = PRED_NONE;
  static const int pairs[][2] = {{WOB_FLOOR, WOB_CEIL}, {LC_LO, LC_HI}, {LC_SHI, LC_SLO}, {KP_CMINS, KP_CMAXS}};
  int n = rng.P(.85) ? 1 : 2;
  for (int i = 0; i < n; ++i) {
    std::vector<int> live;  // fields that matter in this configuration
    for (int f = 0; f < NPF; ++f) {
      if (f == WOB_EN || f == LC_EN || f == PR_KIND || f == ST_NORM) continue;
      bool wob = f >= WOB_EN && f <= WOB_CEIL, loop = f >= LC_EN && f <= LC_N, kal = f >= KP_PN;
      if ((wob && !p.wob()) || (loop && !p.loop()) || (kal && p.kind() != PRED_KALMAN)) continue;
      live.push_back(f);
    }
    int f = rng.P(.9) ? rng.Pick(live) : rng.Int(0, NPF - 1);
    if (f == WOB_EN || f == LC_EN || f == PR_KIND || f == ST_NORM) continue;
    if (kParamTypes[f] == T_INT) {
      static const int v[] = {-1, 0, 1, 2, 999, 1000, 1001, 9999, 10000, 10001, 100000, 2147483647, -2147483647 - 1};
      p[f] = rng.Pick(v);
    } else {
      switch (rng.Int(0, 5)) {
        case 0: p[f] = -1; break;  // what a forgotten field holds
        case 1: {
          static const double v[] = {0, -0.0, 1, .5, 2, 10000, 3.1415927, 1e-40, 1e38};
          p[f] = rng.Pick(v);
          break;
        }
        case 2: {
          static const double v[] = {1e-30, -1e-30, 1.0000002, .9999999, 10000.001, 9999.999, 3.14, 3.15, 1.5};
          p[f] = rng.Pick(v);
          break;
        }
        case 3: {
          static const double v[] = {NAN, INFINITY, -INFINITY};
          p[f] = rng.Pick(v);
          break;
        }
        default: {
          const int* q = rng.Pick(pairs);
          f = q[0];
          double a = rng.P(.5) ? rng.U() : p[q[0]];
          p[q[0]] = a;
          p[q[1]] = rng.P(.4) ? a : rng.P(.5) ? a * (1 - 1e-6) - 1e-30 : a * (1 + 1e-6);
          if (rng.P(.5)) std::swap(p[q[0]], p[q[1]]);
          break;
        }
      }
    }
  }
  // What is switched off does not matter.
  if (rng.P(.15)) p[WOB_EN] = 0;
  if (rng.P(.1)) p[LC_EN] = 0;
  if (rng.P(.1)) p[PR_KIND] = rng.P(.5) ? PRED_END : PRED_NONE;
  if (rng.P(.1)) p[ST_NORM] = !p[ST_NORM];
  RoundPar(p);
  return p;
}

namespace {
struct Pen {
  int inst = 0;
  bool down = false;
  int left = 0;           // samples left in this stroke
  int strokes_left = 0;
  int traj = 0;
  double t0 = 0, cx = 0, cy = 0, amp = 1, w1 = 1, w2 = 1, ph = 0, dirx = 1, diry = 0;
  double wx = 0, wy = 0;  // random walk
  int extra = 0;  // inputs beyond 2^16 in a marathon
  int sp = 0, st = 0, so = 0;  // shapes of pressure, tilt, orientation
  double sv[3] = {0, 0, 0};
  bool has[3] = {true, true, true};
  double hz = 120;
};
enum EvType { EV_SAMPLE, EV_DELIVER, EV_VSYNC, EV_CONTROL };
struct Ev {
  double at;
  uint64_t seq;
  EvType ty;
  int pen;
  In in;
  int fault;
  bool operator<(const Ev& o) const { return at != o.at ? at > o.at : seq > o.seq; }
};
}  // namespace

// A client that does the same thing hundreds of times over: whatever is counted or accumulated
// across calls, strokes or snapshots goes through the places where narrow counters wrap around.
void World::Repeat() {
  std::vector<size_t> at;  // after an update (of any type), or after an Up
  std::vector<int> kinds = {0, 0, 0, 4};
  if (pf.predict) kinds.insert(kinds.end(), {1, 1});
  if (pf.save) kinds.insert(kinds.end(), {2, 3, 8, 8});
  if (pf.cancel) kinds.push_back(5);
  if (pf.reconf) kinds.push_back(6);
  if (pf.relocate) kinds.push_back(7);
  int kind = rng.Pick(kinds);
  for (size_t i = 0; i < tr.ops.size(); ++i)
    if (tr.ops[i].k == OP_UPDATE && (kind != 0 || tr.ops[i].in.type == UP)) at.push_back(i);
  if (at.empty()) return;
  size_t pos = rng.Pick(at);
  const Op base = tr.ops[pos];
  int w = rng.P(.7) ? 256 : rng.P(.5) ? 128 : rng.P(.7) ? 512 : 1024;
  if (pf.p_marathon > 0 && rng.P(kind == 0 ? .08 : .02)) w = rng.P(.5) ? 65536 : 32768;
  int n = w + rng.Int(-2, 6);
  std::vector<Op> blk;
  auto add = [&](int k) -> Op& {
    Op o;
    o.k = k;
    o.inst = base.inst;
    o.buf = base.buf;
    o.fault = F_REPEAT;
    blk.push_back(o);
    return blk.back();
  };
  In in = base.in;
  if (!std::isfinite(in.x) || std::fabs(in.x) > 1e5 * S) in.x = 0;
  if (!std::isfinite(in.y) || std::fabs(in.y) > 1e5 * S) in.y = 0;
  if (!std::isfinite(in.t) || std::fabs(in.t) > 1e10 * T) in.t = epoch;
  const double step = (dyadic ? 1. / 128 : .008) * T;
  bool before = false;
  switch (kind) {
    case 0: {
      if (pf.save && rng.P(.7)) before = true;
      bool moves = w < 2000 && rng.P(.5);
      for (int i = 1; i <= n + 3; ++i) {
        bool close = (i & (i - 1)) == 0;  // near a power of two
        for (int d = -2; d <= 2; ++d) close = close || (i + d > 64 && ((i + d) & (i + d - 1)) == 0);
        in.type = DOWN;
        in.t += step;
        in.x += static_cast<float>(S / 64 * ((i % 5) - 2));
        add(OP_UPDATE).in = in;
        if (close && pf.save && rng.P(.7)) add(OP_RESTORE);
        if (close && pf.predict && rng.P(.3)) add(OP_PREDICT);
        for (int j = moves || close ? rng.Int(0, 2) : 0; j > 0; --j) {
          in.type = MOVE;
          in.t += step;
          in.y += static_cast<float>(S / 16);
          add(OP_UPDATE).in = in;
          if (close && pf.save && rng.P(.2)) add(OP_RESTORE);
          if (close && pf.predict) add(OP_PREDICT);
        }
        in.type = UP;
        in.t += step;
        add(OP_UPDATE).in = in;
        if (close && pf.save && rng.P(.1)) add(OP_RESTORE);
      }
      break;
    }
    case 1: case 2: case 3: case 5: case 7: {
      static const int ops[] = {0, OP_PREDICT, OP_SAVE, OP_RESTORE, 0, OP_RESET, 0, OP_RELOCATE};
      for (int i = 0; i < n; ++i) add(ops[kind]);
      break;
    }
    case 4: {
      // the same event again and again, or one that is always too early
      bool dup = rng.P(.5);
      for (int i = 0; i < n; ++i) {
        In d = base.in;
        if (!dup) { d.type = rng.P(.8) ? MOVE : rng.Int(0, 2); d.t = in.t - (1 + i) * step; }
        add(OP_UPDATE).in = d;
      }
      break;
    }
    case 6:
      for (int i = 0; i < n; ++i) add(OP_RESETP).par = rng.Int(0, static_cast<int>(tr.params.size()) - 1);
      break;
    case 8: {
      // optimistic client: every batch is speculative and rolled back
      in.type = MOVE;
      for (int i = 0; i < n; ++i) {
        if (i == 0 || rng.P(.3)) add(OP_SAVE);
        for (int j = rng.Int(1, 2); j > 0; --j) {
          in.t += step;
          in.x += static_cast<float>(S / 64 * rng.Int(-3, 3));
          add(OP_UPDATE).in = in;
        }
        if (rng.P(.05)) { in.type = UP; in.t += step; add(OP_UPDATE).in = in; in.type = MOVE; }
        if (rng.P(.9)) add(OP_RESTORE);
      }
      break;
    }
  }
  if (before) {
    Op o;
    o.k = OP_SAVE;
    o.inst = base.inst;
    o.fault = F_REPEAT;
    tr.ops.insert(tr.ops.begin() + static_cast<long>(pos), o);
    ++pos;
  }
  tr.ops.insert(tr.ops.begin() + static_cast<long>(pos) + 1, blk.begin(), blk.end());
  // The rest of the world goes on; some of it may now be early, and is refused.
}

// Short words over the whole interface, inserted anywhere: what the faults above bring together only by
// chance (a refused re-configuration between a snapshot and its restoration, say) occurs side by side.
void World::Splice() {
  std::vector<int> good, bad;
  for (size_t i = 0; i < tr.params.size(); ++i) {
    bool sure;
    (ParValid(tr.params[i], &sure) ? good : bad).push_back(static_cast<int>(i));
  }
  const double step = (dyadic ? 1. / 4096 : 1e-4) * T;
  for (int words = rng.Int(1, 4); words > 0; --words) {
    std::vector<size_t> at;
    for (size_t i = 0; i < tr.ops.size(); ++i)
      if (tr.ops[i].k == OP_UPDATE && (tr.ops[i].in.type != UP || rng.P(.3))) at.push_back(i);
    if (at.empty()) return;
    const size_t pos = rng.Pick(at);
    const Op base = tr.ops[pos];
    In in = base.in;
    if (!std::isfinite(in.x) || std::fabs(in.x) > 1e5 * S) in.x = 0;
    if (!std::isfinite(in.y) || std::fabs(in.y) > 1e5 * S) in.y = 0;
    if (!std::isfinite(in.t) || std::fabs(in.t) > 1e10 * T) in.t = epoch;
    if (in.type == UP) in.type = DOWN;
    std::vector<Op> blk;
    auto add = [&](int k) -> Op& {
      Op o;
      o.k = k;
      o.inst = base.inst;
      o.buf = base.buf;
      o.fault = F_WORD;
      blk.push_back(o);
      return blk.back();
    };
    auto letter = [&](bool fatal) {
      switch (rng.Int(pf.save ? -2 : -1, fatal ? 12 : 9)) {
        case -2: {  // two ways to the same input
          In a = in, b, last = in;
          a.type = last.type = MOVE;
          last.t += step * rng.Int(2, 80);
          last.x += static_cast<float>(S / 64 * rng.Int(-8, 8));
          a.t += step * rng.Int(1, 2);
          if (rng.P(.3)) a.t = last.t;
          if (a.t == last.t && !pf.time_faults) break;
          b = a;
          a.y += static_cast<float>(S / 64 * rng.Int(-40, 40));
          if (rng.P(.3)) a.x += static_cast<float>(S / 64 * rng.Int(-40, 40));
          if (rng.P(.3)) b.p = b.ti = b.o = rng.P(.5) ? -1 : .25f;
          const int same = rng.Int(1, 3), pr = pf.predict && rng.P(.8);
          add(OP_SAVE);
          for (int way = 0; way < 2; ++way) {
            if (way) add(OP_RESTORE);
            In l = last;
            add(OP_UPDATE).in = way ? a : b;
            for (int j = 0; j < same; ++j) {
              add(OP_UPDATE).in = l;
              if (pr) add(OP_PREDICT);
              l.t += step * 16;
              l.y += static_cast<float>(S / 16);
            }
          }
          if (rng.P(.7)) add(OP_RESTORE);
          break;
        }
        case -1: {  // elsewhere at the same time, and back: the last input is the same again, the state is not
          if (!pf.time_faults) break;
          if (pf.save && rng.P(.5)) add(OP_SAVE);
          if (pf.predict && rng.P(.5)) add(OP_PREDICT);
          if (in.type == DOWN || rng.P(.3)) {
            in.type = MOVE;
            in.t += step * rng.Int(0, 60);
            add(OP_UPDATE).in = in;
            if (pf.save && rng.P(.4)) add(OP_SAVE);
          }
          In d = in;
          (rng.P(.5) ? d.x : d.y) += static_cast<float>(S / 64 * rng.Int(1, 80));
          if (rng.P(.3)) d.p = rng.P(.5) ? -1 : .5f;
          add(OP_UPDATE).in = d;
          add(OP_UPDATE).in = in;
          if (pf.save && rng.P(.5)) add(rng.P(.6) ? OP_SAVE : OP_RESTORE);
          if (pf.predict && rng.P(.5)) add(OP_PREDICT);
          break;
        }
        case 0: case 1: {  // onwards
          if (in.type == DOWN && rng.P(.8)) in.type = MOVE;
          in.t += step * rng.Int(1, 60);
          in.x += static_cast<float>(S / 64 * rng.Int(-8, 8));
          in.y += static_cast<float>(S / 64 * rng.Int(-8, 8));
          add(OP_UPDATE).in = in;
          break;
        }
        case 2: {  // same time
          if (!pf.time_faults) break;
          In d = in;
          d.type = MOVE;
          if (rng.P(.8)) d.x += static_cast<float>(S / 64 * rng.Int(-8, 8));
          add(OP_UPDATE).in = d;
          break;
        }
        case 3: {  // refused in one way or another
          In d = in;
          switch (rng.Int(0, 4)) {
            case 0: break;  // exact duplicate
            case 1: d.type = MOVE; d.t -= step * rng.Int(1, 100); break;
            case 2: d.type = MOVE; d.t += (dyadic ? 65536. : 1e5) * T; if (!pf.gaps) return; break;
            case 3: if (!pf.bad_values) return; (rng.P(.5) ? d.x : d.y) = rng.P(.5) ? NAN : INFINITY; break;
            default: if (!pf.protocol_faults) return; d.type = DOWN; d.t += step;
          }
          if (d.t < in.t && !pf.time_faults) break;
          add(OP_UPDATE).in = d;
          break;
        }
        case 4: if (pf.predict) add(OP_PREDICT); break;
        case 5: case 6: if (pf.save) add(OP_SAVE); break;
        case 7: if (pf.save) add(OP_RESTORE); break;
        case 8: if (pf.badconf && !bad.empty()) add(OP_RESETP).par = rng.Pick(bad); break;
        case 9: if (pf.relocate) add(OP_RELOCATE); break;
        case 10: if (pf.cancel) add(OP_RESET); break;
        case 11: if (pf.reconf && !good.empty()) add(OP_RESETP).par = rng.Pick(good); break;
        default: {  // the stroke ends, and perhaps another begins
          if (!pf.protocol_faults) break;
          In d = in;
          d.type = UP;
          if (!pf.time_faults || rng.P(.6)) d.t += step * rng.Int(1, 60);
          add(OP_UPDATE).in = d;
          if (rng.P(.5)) { d.type = DOWN; d.t += step; add(OP_UPDATE).in = d; in.t = d.t; in.type = MOVE; }
        }
      }
    };
    const bool bracket = pf.save && rng.P(.5);
    if (bracket) add(OP_SAVE);
    const bool fatal = rng.P(.4);
    for (int n = rng.Int(1, 5); n > 0; --n) letter(fatal);
    if (bracket) add(OP_RESTORE);
    if (pf.predict && rng.P(.6)) add(OP_PREDICT);
    tr.ops.insert(tr.ops.begin() + static_cast<long>(pos) + 1, blk.begin(), blk.end());
  }
}

// A stroke is drawn again with the same timing, but not quite the same way.
void World::Replay() {
  if (!pf.time_faults) return;
  std::vector<std::pair<size_t, size_t>> strokes;
  std::vector<long> down(tr.n_inst, -1);
  for (size_t i = 0; i < tr.ops.size(); ++i) {
    const Op& o = tr.ops[i];
    if (o.k == OP_RESETP) down[o.inst] = -1;
    if (o.k != OP_UPDATE) continue;
    if (o.in.type == DOWN && down[o.inst] < 0) down[o.inst] = static_cast<long>(i);
    if (o.in.type == UP && down[o.inst] >= 0) {
      if (i - static_cast<size_t>(down[o.inst]) < 400) strokes.push_back({static_cast<size_t>(down[o.inst]), i});
      down[o.inst] = -1;
    }
  }
  if (strokes.empty()) return;
  auto [a, b] = rng.Pick(strokes);
  const int inst = tr.ops[a].inst;
  std::vector<Op> blk;
  std::vector<size_t> ups;
  for (size_t i = a; i <= b; ++i) {
    if (tr.ops[i].inst != inst) continue;
    blk.push_back(tr.ops[i]);
    blk.back().fault = F_REPLAY;
    blk.back().alloc = -1;
    if (blk.back().k == OP_UPDATE && i < b) ups.push_back(blk.size() - 1);
  }
  for (int n = rng.Int(1, 3); n > 0 && !ups.empty(); --n) {
    In& in = blk[rng.Pick(ups)].in;
    if (!std::isfinite(in.x) || !std::isfinite(in.y) || std::fabs(in.x) > 1e5 * S || std::fabs(in.y) > 1e5 * S) continue;
    switch (rng.Int(0, 3)) {
      case 0: in.x += static_cast<float>(S / 64 * rng.Int(-80, 80)); break;
      case 1: in.y += static_cast<float>(S / 64 * rng.Int(-80, 80)); break;
      case 2: in.x += static_cast<float>(S / 64 * rng.Int(-8, 8)); in.y += static_cast<float>(S / 64 * rng.Int(-8, 8)); break;
      default: if (pf.stylus_missing) { (rng.P(.5) ? in.p : in.ti) = rng.P(.5) ? -1 : .75f; }
    }
  }
  if (pf.predict && rng.P(.5))
    for (size_t i = 0; i < blk.size(); ++i)
      if (blk[i].k == OP_UPDATE && blk[i].in.type != UP && rng.P(.3)) {
        Op o;
        o.k = OP_PREDICT;
        o.inst = inst;
        o.buf = blk[i].buf;
        o.fault = F_REPLAY;
        blk.insert(blk.begin() + static_cast<long>(++i), o);
      }
  tr.ops.insert(tr.ops.begin() + static_cast<long>(b) + 1, blk.begin(), blk.end());
}
// Two modelers are fed the same events, perhaps with different parameters, the second a little later.
void World::Mirror() {
  const int a = rng.Int(0, tr.n_inst - 1), b = (a + rng.Int(1, tr.n_inst - 1)) % tr.n_inst;
  std::vector<int> good;
  for (size_t i = 0; i < tr.params.size(); ++i) {
    bool sure;
    if (ParValid(tr.params[i], &sure) && sure) good.push_back(static_cast<int>(i));
  }
  if (good.empty()) return;
  const int lag = rng.P(.5) ? 0 : rng.Int(0, 5);
  const int other = rng.P(.5) ? rng.Pick(good) : -1;
  const double differ = rng.P(.3) ? .05 : 0;
  std::vector<Op> out, due;
  size_t fed = 0;
  auto feed = [&](size_t upto) { while (fed < upto) out.push_back(due[fed++]); };
  for (const Op& o : tr.ops) {
    if (o.inst == b) continue;
    out.push_back(o);
    if (o.inst != a) continue;
    Op c = o;
    c.inst = b;
    c.alloc = -1;
    c.fault = F_MIRROR;
    if (c.k == OP_RESETP && other >= 0) c.par = other;
    if (c.k == OP_UPDATE && rng.P(differ) && std::isfinite(c.in.x) && std::fabs(c.in.x) < 1e5 * S) c.in.x += static_cast<float>(S / 64 * rng.Int(-80, 80));
    due.push_back(c);
    if (due.size() > static_cast<size_t>(lag)) feed(due.size() - lag);
  }
  feed(due.size());
  tr.ops = out;
}

Trace World::Generate() {
  tr = Trace();
  dyadic = rng.P(pf.p_dyadic);
  use_dict = rng.P(.4);
  if (pf.unit_scales && rng.P(.35)) T = dyadic || rng.P(.5) ? std::ldexp(1, rng.Int(-10, 12)) : rng.Pick(std::vector<double>{1000., .001, 60., 1e6});
  if (pf.unit_scales && rng.P(.35)) S = dyadic || rng.P(.5) ? std::ldexp(1, rng.Int(-10, 12)) : rng.Pick(std::vector<double>{1000., .01, 2.54, 1e4});
  switch (rng.Int(0, pf.far_epochs ? 9 : 3)) {
    case 0: case 1: case 2: epoch = 0; break;
    case 3: epoch = rng.Int(1, 1000); break;
    case 4: epoch = -rng.Int(1, 100000); break;
    case 5: epoch = rng.Int(1000, 1000000); break;
    case 6: epoch = 1.7e9 + rng.Int(0, 100000000); break;
    case 7: epoch = std::ldexp(1, rng.Int(8, 24)) - 1; break;
    case 8: epoch = -.5; break;
    case 9: epoch = rng.Range(-10, 10); break;
  }
  epoch = DictF(epoch, -1e9, 1e10);
  if (dyadic) epoch = Dy(epoch, 1. / 4096);
  epoch *= T;

  // parameters
  int np = 1 + (pf.reconf ? rng.Int(0, 2) : 0);
  for (int i = 0; i < np; ++i) tr.params.push_back(GenPar());
  bool marathon = rng.P(pf.p_marathon);
  if (marathon) {
    for (Par& p : tr.params) {
      p[ST_MAX] = std::min(p[ST_MAX], 60.);
      p[ST_MIN] = std::min(p[ST_MIN], 40.);
      p[ST_DUR] = std::min<double>(p[ST_DUR], static_cast<float>(T / 16));
      p[LC_N] = std::min(p[LC_N], 30.);
      p[LC_WIN] = std::min<double>(p[LC_WIN], static_cast<float>(T / 16));
      p[WOB_TIMEOUT] = std::min<double>(p[WOB_TIMEOUT], static_cast<float>(T / 16));
      p[SP_ANGLE] = -1;
    }
  }
  int n_valid = np;
  if (pf.badconf && rng.P(.5))
    for (int i = 0, n = rng.Int(1, 3); i < n; ++i) tr.params.push_back(BreakPar(tr.params[rng.Int(0, n_valid - 1)]));

  // swarm: which fault kinds exist in this run, and how often they fire
  bool clean = rng.P(pf.p_faultfree);
  double rate[NFAULT] = {0};
  auto on = [&](int f, double p_on, double lo, double hi) {
    if (!clean && rng.P(p_on)) rate[f] = rng.LogRange(lo, hi) * pf.fault_scale;
  };
  on(F_LOSS, .4, .01, .3);
  on(F_DUP, .3, .01, .2);
  if (pf.time_faults) {
    on(F_REORDER, .3, .01, .2);
    on(F_EQTIME, .35, .01, .4);
    on(F_JUMPFWD, .3, .005, .05);
    on(F_JUMPBACK, .25, .005, .05);
    if (rng.P(.3)) rate[F_QUANT] = 1;
  }
  on(F_DELAY, .3, .02, .3);
  if (pf.gaps) on(F_STALL, .3, .005, .05);
  if (pf.bad_values) {
    on(F_NAN, .2, .005, .1);
    on(F_INF, .2, .005, .1);
    on(F_HUGE, .2, .005, .1);
  }
  if (pf.tiny) on(F_TINY, .15, .01, .2);
  if (pf.stylus_missing) on(F_FIELDMISS, .35, .005, .2);
  if (pf.bad_stylus) on(F_FIELDGARB, .3, .01, .2);
  if (pf.protocol_faults) {
    on(F_BADTYPE, .2, .005, .1);
    on(F_LOSTDOWN, .2, .05, .5);
    on(F_LOSTUP, .25, .05, .5);
    on(F_SPURDOWN, .25, .01, .1);
    on(F_SPURUP, .2, .005, .05);
    on(F_SPURMOVE, .3, .05, .5);
  }
  on(F_TELEPORT, .3, .01, .1);
  if (pf.cancel) on(F_CANCEL, .3, .005, .05);
  if (pf.reconf) on(F_RECONF, .3, .005, .05);
  if (pf.badconf) on(F_BADCONF, .3, .01, .1);
  if (pf.predict) on(F_DEADPRED, .3, .05, .5);
  if (pf.relocate) on(F_RELOCATE, .3, .01, .2);
  double save_rate = 0, restore_rate = 0;
  if (pf.save && (rng.P(.6) || rng.P(pf.save_boost))) { save_rate = rng.LogRange(.02, .5); restore_rate = rng.LogRange(.02, .6); }
  bool storm = pf.predict && rng.P(pf.p_predstorm);

  // pens
  tr.n_inst = rng.Int(1, pf.max_inst);
  if (pf.max_inst > 1 && tr.n_inst == 1 && rng.P(.8)) tr.n_inst = 2;
  bool lng = rng.P(pf.p_long);
  bool wide = lng && rng.P(.6);
  if (wide) {
    // Windows that hold most of a long stroke.
    auto dur = [&](double lo, double hi) { double v = rng.LogRange(lo, hi); return (dyadic ? Dy(v, 1. / 256) : v) * T; };
    for (int i = 0; i < n_valid; ++i) {
      Par& p = tr.params[i];
      if (rng.P(.6)) p[WOB_TIMEOUT] = dur(1, 40);
      if (rng.P(.6)) p[ST_MAX] = rng.Int(100, 2000);
      if (p.norm() && rng.P(.4)) p[ST_MIN] = rng.Int(100, 2000);
      if (p.norm() && rng.P(.4)) p[ST_DUR] = dur(1, 20);
      if (p.loop() && rng.P(.4)) p[LC_N] = rng.Int(100, 2000);
      if (p.loop() && rng.P(.4)) p[LC_WIN] = dur(.5, 5);
      if (p.kind() == PRED_KALMAN && rng.P(.5)) p[KP_MAXT] = rng.Int(60, 1500);
      RoundPar(p);
      Tame(p);
    }
  }
  std::vector<Pen> pens(tr.n_inst);
  std::vector<bool> g_stroke(tr.n_inst, false);  // what the client believes
  std::vector<double> last_t(tr.n_inst, epoch);
  std::vector<In> last_in(tr.n_inst);
  std::priority_queue<Ev> q;
  uint64_t seq = 0;
  auto push = [&](double at, EvType ty, int pen, const In& in = In(), int fault = 0) {
    q.push(Ev{at, seq++, ty, pen, in, fault});
  };
  auto emit = [&](int k, int inst, int fault = 0) -> Op& {
    Op o;
    o.k = k;
    o.inst = inst;
    o.fault = fault;
    if (pf.buffers && (k == OP_UPDATE || k == OP_PREDICT)) {
      o.buf = rng.P(.4) ? 0 : rng.Int(0, NBUF - 1);
    }
    tr.ops.push_back(o);
    return tr.ops.back();
  };
  auto emit_reset = [&](int inst, int par, int fault) { emit(OP_RESETP, inst, fault).par = par; };

  if (marathon) {
    for (double& r : rate) r *= 1e-3;
    rate[F_QUANT] = 0;
    save_rate *= 1e-3;
    restore_rate *= 1e-3;
    tr.n_inst = 1;
    storm = false;
  }

  double hz = marathon ? 1024 : rng.P(.7) ? rng.Pick(std::vector<double>{60, 120, 128, 240, 64, 133, 1000, 256, 30}) : rng.LogRange(10, 1000);
  double jitter = rng.P(.5) ? 0 : rng.Range(0, .4);
  bool grid = pf.grid || rng.P(.35);
  int strokes = rng.Int(pf.min_strokes, pf.max_strokes);
  int len_hi = wide && rng.P(.5) ? 1500 : lng ? 600 : rng.P(.3) ? 8 : rng.P(.5) ? 25 : 60;
  bool many = !lng && !marathon && rng.P(.03);
  if (many) { strokes = rng.Int(20, 80); len_hi = 6; }
  strokes = DictN(strokes, 1, 100);
  if (marathon) strokes = 1;
  int op_cap = marathon ? 100000 : lng || many ? 2500 : 500;
  for (int i = 0; i < tr.n_inst; ++i) {
    pens[i].inst = i;
    pens[i].hz = hz * (i ? rng.Range(.5, 2) : 1);
    pens[i].strokes_left = strokes;
    if (!rng.P(.03)) emit_reset(i, rng.Int(0, n_valid - 1), 0);
    push(rng.Range(0, .05), EV_SAMPLE, i);
    if (pf.predict && rng.P(.8)) push(rng.Range(0, .02), EV_VSYNC, i);
    push(rng.Range(0, .05), EV_CONTROL, i);
  }
  double vs_hz = storm ? hz * rng.Range(1, 4) : rng.P(.5) ? 60 : rng.LogRange(5, 240);
  if (marathon) vs_hz = rng.LogRange(.2, 5);
  double skew = 0;  // device clock offset, moves at clock jumps
  double wnow = 0;
  double wmax = 0;

  auto stylus = [&](Pen& p, int which, double t) -> float {
    int sh = which == 0 ? p.sp : which == 1 ? p.st : p.so;
    double top = which == 0 ? 1 : which == 1 ? 1.5707 : 6.2831;
    switch (sh) {
      case 0: return static_cast<float>(p.sv[which] * top);
      case 1: return static_cast<float>(std::fmod(p.sv[which] * top + t * 3, top));
      case 2: return static_cast<float>(top * (.5 + .5 * std::sin(p.sv[which] * 9 + 5 * t)));
      case 3: return static_cast<float>(top * rng.U());
      case 4: return rng.P(.5) ? 0.f : static_cast<float>(top);
      default: return static_cast<float>(top * std::round(8 * (.5 + .5 * std::sin(3 * t))) / 8);
    }
  };
  auto position = [&](Pen& p, double t, double* x, double* y) {
    double a = p.w1 * t + p.ph;
    double tri = 2 * std::fabs(2 * (t * p.w1 / 6.28 - std::floor(t * p.w1 / 6.28 + .5))) - 1;
    switch (p.traj) {
      case 0: *x = p.dirx * p.amp * p.w1 * t; *y = p.diry * p.amp * p.w1 * t; break;
      case 1: *x = p.amp * std::cos(a); *y = p.amp * std::sin(a); break;
      case 2: *x = p.amp * std::cos(a); *y = p.amp * std::sin(p.w2 * t); break;
      case 3: *x = p.amp * p.w1 * t; *y = p.amp * tri; break;
      case 4: p.wx += p.amp * .2 * rng.Range(-1, 1); p.wy += p.amp * .2 * rng.Range(-1, 1); *x = p.wx; *y = p.wy; break;
      case 5: *x = 0; *y = 0; break;
      case 6: { double f = std::floor(t * p.w1); double r = t * p.w1 - f; double q2 = f + (r < .7 ? 0 : (r - .7) / .3); *x = p.dirx * p.amp * q2; *y = p.diry * p.amp * q2; break; }
      case 7: *x = p.amp * (1 + t) * std::cos(a); *y = p.amp * (1 + t) * std::sin(a); break;
      case 8: *x = .01 * p.amp * rng.Range(-1, 1); *y = .01 * p.amp * rng.Range(-1, 1); break;
      case 9: *x = p.dirx * p.amp * tri; *y = p.diry * p.amp * tri; break;
      case 10: { int s4 = static_cast<int>(std::floor(t * p.w1)) & 3; double r = t * p.w1 - std::floor(t * p.w1); static const double sx[] = {0, 1, 1, 0}, sy[] = {0, 0, 1, 1}; *x = p.amp * (sx[s4] + (sx[(s4 + 1) & 3] - sx[s4]) * r); *y = p.amp * (sy[s4] + (sy[(s4 + 1) & 3] - sy[s4]) * r); break; }
      default: *x = p.dirx * p.amp * t * t * p.w1; *y = p.diry * p.amp * t * t * p.w1; break;
    }
  };
  auto device_time = [&](double w) {
    double v = w + skew;
    if (dyadic) v = Dy(v, 1. / 4096);
    else if (rate[F_QUANT]) v = Dy(v, .001);
    return epoch + v * T;
  };
  auto start_stroke = [&](Pen& p) {
    p.down = true;
    p.extra = rng.Int(50, 4000);
    p.left = marathon ? 65536 + p.extra : rng.P(.05) ? 0 : DictN(rng.Int(0, len_hi), 0, lng ? 3000 : 400);
    p.traj = rng.Int(0, 11);
    p.t0 = wnow;
    p.cx = DictF(rng.P(.2) ? 0 : rng.Range(-20, 20), -1e4, 1e4);
    p.cy = rng.P(.2) ? 0 : rng.Range(-20, 20);
    p.amp = rng.P(.7) ? rng.LogRange(.2, 8) : rng.LogRange(.01, 60);
    p.w1 = rng.LogRange(.5, 20);
    p.w2 = rng.LogRange(.5, 20);
    p.ph = rng.Range(0, 6.28);
    double an = rng.P(.4) ? 1.5707963267948966 * rng.Int(0, 3) : rng.Range(0, 6.28);
    p.dirx = std::cos(an);
    p.diry = std::sin(an);
    if (std::fabs(p.dirx) < 1e-9) p.dirx = 0;
    if (std::fabs(p.diry) < 1e-9) p.diry = 0;
    p.wx = p.wy = 0;
    p.sp = rng.Int(0, 5); p.st = rng.Int(0, 5); p.so = rng.Int(0, 5);
    for (int i = 0; i < 3; ++i) {
      p.sv[i] = rng.U();
      p.has[i] = !pf.stylus_missing || rng.P(.8);
    }
    if (rng.P(.1) && pf.stylus_missing) p.has[0] = p.has[1] = p.has[2] = false;
  };

  auto corrupt = [&](In& in, int* fault) {
    auto val = [&](int kind) -> float {
      switch (kind) {
        case F_NAN: return NAN;
        case F_INF: return rng.P(.5) ? INFINITY : -INFINITY;
        case F_HUGE: return static_cast<float>((rng.P(.5) ? 1 : -1) * rng.LogRange(1e6, 3e38));
        default: return static_cast<float>((rng.P(.5) ? 1 : -1) * rng.LogRange(1e-45, 1e-20));
      }
    };
    for (int k : {F_NAN, F_INF, F_HUGE}) {
      if (rng.P(rate[k])) {
        switch (rng.Int(0, 3)) {
          case 0: in.x = val(k); break;
          case 1: in.y = val(k); break;
          case 2: in.x = val(k); in.y = rng.P(.5) ? in.x : val(k); break;
          default:
            if (k == F_HUGE) in.t = in.t + rng.LogRange(1e6, 1e300) * (rng.P(.3) ? -1 : 1);
            else in.t = val(k);
        }
        *fault = k;
      }
    }
    if (rng.P(rate[F_TINY])) {
      if (rng.P(.5)) in.x += val(F_TINY); else in.x = val(F_TINY);
      *fault = F_TINY;
    }
    if (rng.P(rate[F_FIELDMISS])) {
      float miss = rng.P(.8) ? -1.f : static_cast<float>(-rng.LogRange(1e-6, 100));
      int w = rng.Int(1, 7);
      if (w & 1) in.p = miss;
      if (w & 2) in.ti = miss;
      if (w & 4) in.o = miss;
      *fault = F_FIELDMISS;
    }
    if (rng.P(rate[F_FIELDGARB])) {
      float g;
      switch (rng.Int(0, 5)) {
        case 0: g = NAN; break;
        case 1: g = INFINITY; break;
        case 2: g = static_cast<float>(rng.LogRange(1e-40, 3e38)); break;
        case 3: g = static_cast<float>(rng.Range(6.2831, 40)); break;
        case 4: g = rng.P(.5) ? -0.f : 0.f; break;
        default: g = static_cast<float>(rng.Range(0, 10)); break;
      }
      switch (rng.Int(0, 2)) {
        case 0: in.p = g; break;
        case 1: in.ti = g; break;
        default: in.o = g; break;
      }
      *fault = F_FIELDGARB;
    }
    if (rng.P(rate[F_BADTYPE])) {
      static const int bad[] = {3, -1, 7, 100, 2147483647};
      in.type = rng.Pick(bad);
      *fault = F_BADTYPE;
    }
  };

  auto to_f = [&](double v) -> float {
    v *= S;
    if (grid) v = Dy(v, S / 64);
    return static_cast<float>(v);
  };

  auto deliver_client = [&](int inst, const In& in, int fault) {
    // client policy: a Down while it believes a stroke is running cancels first (sometimes)
    if (in.type == DOWN && g_stroke[inst] && rng.P(.4)) { emit(OP_RESET, inst, F_CANCEL); }
    emit(OP_UPDATE, inst, fault).in = in;
    if (in.type == DOWN) g_stroke[inst] = true;
    if (in.type == UP) g_stroke[inst] = false;
    if (std::isfinite(in.t) && in.t > last_t[inst] && std::fabs(in.t - last_t[inst]) < 1e6 * T) last_t[inst] = in.t;
    last_in[inst] = in;
  };

  while (!q.empty() && static_cast<int>(tr.ops.size()) < op_cap) {
    Ev e = q.top();
    q.pop();
    wnow = e.at;
    wmax = std::max(wmax, wnow);
    Pen& p = pens[e.pen];
    bool any = false;
    for (auto& x : pens) any = any || x.strokes_left > 0 || x.down;
    switch (e.ty) {
      case EV_SAMPLE: {
        if (!p.down && p.strokes_left <= 0) break;
        In in;
        int fault = 0;
        if (!p.down) {
          start_stroke(p);
          --p.strokes_left;
          in.type = DOWN;
        } else if (p.left > 0) {
          --p.left;
          in.type = MOVE;
        } else {
          in.type = UP;
          p.down = false;
        }
        double x, y, lt = wnow - p.t0;
        position(p, lt, &x, &y);
        if (rng.P(rate[F_TELEPORT])) { p.cx += rng.Range(-1, 1) * rng.LogRange(1, 300); fault = F_TELEPORT; }
        in.x = to_f(x + p.cx);
        in.y = to_f(y + p.cy);
        if (use_dict && rng.P(.03)) in.x = static_cast<float>(DictF(in.x, -1e6, 1e6) * S);
        in.p = p.has[0] ? stylus(p, 0, lt) : -1;
        in.ti = p.has[1] ? stylus(p, 1, lt) : -1;
        in.o = p.has[2] ? stylus(p, 2, lt) : -1;
        if (use_dict && rng.P(.05)) in.p = static_cast<float>(DictF(in.p, 0, 1e6));
        if (use_dict && rng.P(.05)) in.o = static_cast<float>(DictF(in.o, 0, 7));
        if (in.type == MOVE && rng.P(.03) && last_in[p.inst].type != UP) { in.x = last_in[p.inst].x; in.y = last_in[p.inst].y; }
        if (rng.P(rate[F_JUMPFWD])) { skew += rng.P(.3) ? rng.LogRange(1, pf.max_gap) : rng.LogRange(.01, 3); fault = F_JUMPFWD; }
        if (rng.P(rate[F_JUMPBACK])) { skew -= rng.LogRange(.001, 2); fault = F_JUMPBACK; }
        in.t = device_time(wnow);
        if (rng.P(rate[F_EQTIME]) && std::isfinite(last_t[p.inst])) {
          in.t = last_t[p.inst];
          // ... or a hair later, as when two clocks are merged
          if (!dyadic && rng.P(.4)) in.t = rng.P(.4) && std::fabs(in.t) > .01 * T ? std::nextafter(in.t, INFINITY) : in.t + rng.LogRange(1e-12, 1e-4) * T;
          fault = F_EQTIME;
        }
        // schedule the next sample
        double dt = 1 / p.hz * (1 + jitter * rng.Range(-1, 1));
        if (use_dict && rng.P(.05)) dt = DictF(dt, 0, 20);
        if (rng.P(rate[F_STALL])) { dt += rng.P(.2) ? rng.LogRange(1, pf.max_gap) : rng.LogRange(.02, 1); fault = F_STALL; }
        if (in.type == UP) dt += rng.P(.3) ? 0 : rng.LogRange(.001, .5);
        push(wnow + dt, EV_SAMPLE, e.pen);
        // the transport
        if (in.type == DOWN && rng.P(rate[F_LOSTDOWN])) { ++tr.lost; break; }
        if (in.type == UP && rng.P(rate[F_LOSTUP])) { ++tr.lost; break; }
        if (in.type == MOVE && rng.P(rate[F_LOSS])) { ++tr.lost; break; }
        corrupt(in, &fault);
        double delay = 0;
        if (rng.P(rate[F_DELAY])) { delay = rng.LogRange(.001, .1); if (!fault) fault = F_DELAY; }
        if (rng.P(rate[F_REORDER])) { delay += 1.5 / p.hz * rng.Int(1, 3); fault = F_REORDER; }
        push(wnow + delay, EV_DELIVER, e.pen, in, fault);
        if (rng.P(rate[F_DUP])) push(wnow + delay + (rng.P(.6) ? 0 : .5 / p.hz), EV_DELIVER, e.pen, in, F_DUP);
        break;
      }
      case EV_DELIVER: {
        deliver_client(p.inst, e.in, e.fault);
        if (e.in.type == DOWN && rng.P(rate[F_SPURDOWN])) {
          In d = e.in;
          if (rng.P(.7)) { d.x = static_cast<float>(d.x + S); d.t += (dyadic ? 1. / 1024 : .001) * T; }
          deliver_client(p.inst, d, F_SPURDOWN);
        }
        if (rng.P(rate[F_SPURDOWN] * .3)) { In d = e.in; d.type = DOWN; d.t += rng.P(.5) ? 0 : (dyadic ? 1. / 128 : .01) * T; deliver_client(p.inst, d, F_SPURDOWN); }
        if (rng.P(rate[F_SPURUP])) { In d = e.in; d.type = UP; d.t += rng.P(.5) ? 0 : (dyadic ? 1. / 128 : .01) * T; deliver_client(p.inst, d, F_SPURUP); }
        if (e.in.type == UP && rng.P(rate[F_SPURMOVE])) { In d = e.in; d.type = rng.P(.6) ? MOVE : UP; d.t += rng.P(.5) ? 0 : (dyadic ? 1. / 128 : .01) * T; deliver_client(p.inst, d, F_SPURMOVE); }
        if (marathon) {
          // look closely where counters wrap around
          int n = 65536 + p.extra - p.left;
          for (int w : {128, 256, 1024, 4096, 32768, 65536})
            if (n > w - 8 && n < w + 40) {
              if (pf.predict) emit(OP_PREDICT, p.inst, F_PREDSTORM);
              if (rng.P(save_rate * 100)) emit(OP_SAVE, p.inst, F_SPECULATE);
              if (rng.P(restore_rate * 100)) emit(OP_RESTORE, p.inst, F_ROLLBACK);
            }
        }
        if (storm) for (int i = rng.Int(0, 3); i > 0; --i) emit(OP_PREDICT, p.inst, F_PREDSTORM);
        if (rng.P(save_rate)) emit(OP_SAVE, p.inst, F_SPECULATE);
        if (rng.P(restore_rate)) {
          emit(OP_RESTORE, p.inst, F_ROLLBACK);
          if (rng.P(.3)) emit(OP_RESTORE, p.inst, F_ROLLBACK);
        }
        break;
      }
      case EV_VSYNC: {
        if (g_stroke[p.inst] || rng.P(rate[F_DEADPRED])) emit(OP_PREDICT, p.inst, g_stroke[p.inst] ? 0 : F_DEADPRED);
        if (any) push(wnow + 1 / vs_hz, EV_VSYNC, e.pen);
        break;
      }
      case EV_CONTROL: {
        if (rng.P(rate[F_CANCEL])) { emit(OP_RESET, p.inst, F_CANCEL); g_stroke[p.inst] = false; }
        if (rng.P(rate[F_RECONF])) { emit_reset(p.inst, rng.Int(0, n_valid - 1), F_RECONF); g_stroke[p.inst] = false; }
        if (static_cast<int>(tr.params.size()) > n_valid && rng.P(rate[F_BADCONF])) emit_reset(p.inst, rng.Int(n_valid, tr.params.size() - 1), F_BADCONF);
        if (rng.P(rate[F_RELOCATE])) emit(OP_RELOCATE, p.inst, F_RELOCATE);
        if (any) push(wnow + rng.Range(.2, 2) / p.hz, EV_CONTROL, e.pen);
        break;
      }
    }
  }
  // A fault-free tail makes anything that leaked visible: finish the stroke, then a new one.
  if (pf.tail) {
    for (int i = 0; i < tr.n_inst; ++i) {
      double t = last_t[i], step = (dyadic ? 1. / 128 : 1 / hz) * T;
      double bx = last_in[i].x, by = last_in[i].y;
      if (!std::isfinite(bx) || std::fabs(bx) > 1e5 * S) bx = 0;
      if (!std::isfinite(by) || std::fabs(by) > 1e5 * S) by = 0;
      auto send = [&](int ty, double dx, double dy, float pr) {
        t += step;
        In in;
        in.type = ty;
        in.x = static_cast<float>(bx + dx * S);
        in.y = static_cast<float>(by + dy * S);
        in.t = t;
        in.p = pr; in.ti = pr * .5f; in.o = pr * 3;
        Op& o = emit(OP_UPDATE, i);
        o.in = in;
      };
      for (int j = 1; j <= 3; ++j) send(MOVE, .25 * j, .5 * j * j, .125f * j);
      if (pf.predict) emit(OP_PREDICT, i);
      send(UP, 1.5, 4, .5f);
      if (rng.P(.3)) { emit(OP_RESET, i, F_CANCEL); }
      send(DOWN, 0, 0, .25f);
      for (int j = 1; j <= 6; ++j) send(MOVE, .25 * j, .125 * j * j, .125f * j);
      if (pf.predict) emit(OP_PREDICT, i);
      send(UP, 1.5, 3, .5f);
    }
  }
  if (!marathon && rng.P(pf.p_splice)) Splice();
  if (!marathon && rng.P(pf.p_replay)) Replay();
  if (!marathon && tr.n_inst > 1 && rng.P(pf.p_mirror)) Mirror();
  if (!marathon && rng.P(pf.p_repeat)) Repeat();
  if (rng.P(.05)) {
    // Limits that are never reached, and that nothing may be sized by.
    double lo = INFINITY, hi = -INFINITY, rate = 0;
    bool fit = true;
    for (const Op& o : tr.ops)
      if (o.k == OP_UPDATE && std::isfinite(o.in.t)) { lo = std::min(lo, o.in.t); hi = std::max(hi, o.in.t); }
    for (const Par& p : tr.params) {
      if (std::isfinite(p[SP_RATE])) rate = std::max(rate, p[SP_RATE]);
      fit = fit && p.kind() != PRED_KALMAN && (p[SP_ANGLE] == -1 || p[SP_ANGLE] > .001);
    }
    if (fit && (hi - lo) * rate < 20000)
      for (Par& p : tr.params) if (p[SP_MAXOUT] == 100000) p[SP_MAXOUT] = rng.P(.4) ? 2147483647 : std::floor(rng.LogRange(1e5, 2147483647));
  }
  // Dirty caller buffers are faults too.
  for (Op& o : tr.ops) if (o.buf != 0 && o.fault == 0) o.fault = F_DIRTYBUF;
  tr.sim_span = wmax;
  return tr;
}
