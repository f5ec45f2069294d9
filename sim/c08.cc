// C08: the same history in another frame of reference.
//
// The trace's variant says which frame: another epoch, another unit of time or distance (by a power
// of two), another origin, a quarter turn.  The base history lives on dyadic times and a coarse grid
// of positions, so that every input is exact in both frames.  Whatever is then not identical must be
// explained by rounding: the base history is repeated with its positions moved by a rounding error
// and in frames with up to eight times the shift, and the other frame's results have to lie within
// (three times) what that changes.
#include <functional>

#include "oracle.h"
#include "ref.h"

namespace {
enum { V_EPOCH, V_TIME, V_SPACE, V_MOVE, V_TURN, NV };
struct Frame {
  int v;
  double a, b;  // shift / exponent / offset
};
Par MapPar(const Par& q, const Frame& f) {
  Par p = q;
  auto mul = [&](std::initializer_list<int> fs, double m) { for (int i : fs) if (p[i] > 0) p[i] *= m; };
  double k = std::ldexp(1, static_cast<int>(f.a));
  if (f.v == V_TIME) {
    mul({WOB_TIMEOUT, LC_WIN, ST_DUR, KP_INTERVAL}, k);
    mul({WOB_FLOOR, WOB_CEIL, LC_LO, LC_HI, PM_DRAG, SP_RATE, KP_CATCH, KP_CMINS, KP_CMAXS}, 1 / k);
    mul({PM_MASS}, k * k);
  } else if (f.v == V_SPACE) {
    mul({WOB_FLOOR, WOB_CEIL, LC_LO, LC_HI, SP_STOP}, k);
  }
  return p;
}
In MapIn(In i, const Frame& f) {
  float k = std::ldexp(1.f, static_cast<int>(f.a));
  switch (f.v) {
    case V_EPOCH: i.t += f.a; break;
    case V_TIME: i.t *= k; break;
    case V_SPACE: i.x *= k; i.y *= k; break;
    case V_MOVE: i.x += static_cast<float>(f.a); i.y += static_cast<float>(f.b); break;
    case V_TURN: { float x = i.x; i.x = -i.y; i.y = x; break; }
  }
  return i;
}
struct D {
  double v[10];  // px py vx vy ax ay t p ti o
};
D Raw(const Res& r) { return D{{r.px, r.py, r.vx, r.vy, r.ax, r.ay, r.t, r.p, r.ti, r.o}}; }
// A result of the other frame, seen from the base frame.
D Back(const Res& r, const Frame& f) {
  D d = Raw(r);
  double k = std::ldexp(1, static_cast<int>(f.a));
  switch (f.v) {
    case V_EPOCH: d.v[6] -= f.a; break;
    case V_TIME:
      for (int i = 2; i < 4; ++i) d.v[i] *= k;
      for (int i = 4; i < 6; ++i) d.v[i] *= k * k;
      d.v[6] /= k;
      break;
    case V_SPACE: for (int i = 0; i < 6; ++i) d.v[i] /= k; break;
    case V_MOVE: d.v[0] -= f.a; d.v[1] -= f.b; break;
    case V_TURN: for (int i = 0; i < 6; i += 2) { double x = d.v[i]; d.v[i] = d.v[i + 1]; d.v[i + 1] = -x; } break;
  }
  return d;
}
std::string Fmt2(double a, double b) { char s[80]; snprintf(s, sizeof s, " (%.17g, %.17g)", a, b); return s; }
const char* const kNames[] = {"x", "y", "x velocity", "y velocity", "x acceleration", "y acceleration", "time", "pressure", "tilt", "orientation"};
const double kTwoPi = 6.283185307179586;

std::vector<Call> Execute(const Trace& t, unsigned char pat, bool note) {
  Runner r(t, pat, true, note);
  std::vector<Call> c;
  for (const Op& o : t.ops) c.push_back(r.Do(o));
  return c;
}
// The base history with positions disturbed as rounding in either frame would.
Trace Disturb(const Trace& t, const Frame& f, uint64_t seed, double amp) {
  Trace d = t;
  Rng r(seed);
  std::vector<In> last(t.n_inst);
  double big_t = f.v == V_EPOCH ? std::fabs(f.a) : 0;
  for (Op& o : d.ops) {
    if (o.k != OP_UPDATE) continue;
    In raw = o.in;
    double dt = raw.t - last[o.inst].t;
    double ut = UlpD(std::max(big_t, std::fabs(raw.t)));
    double speed = dt > 0 ? std::hypot((double)raw.x - last[o.inst].x, (double)raw.y - last[o.inst].y) / dt : 0;
    double ox = f.v == V_MOVE ? f.a : 0, oy = f.v == V_MOVE ? f.b : 0;
    auto noise = [&](double v, double off) {
      double u = kU * std::max({std::fabs(v), std::fabs(v + off), 1e-3});
      return static_cast<float>(v + amp * r.Range(-1, 1) * (u + 2 * ut * speed));
    };
    // Equal positions stay equal half of the time (repeated positions are special).
    if (!(raw.x == last[o.inst].x && r.P(.5))) o.in.x = noise(raw.x, ox);
    if (!(raw.y == last[o.inst].y && r.P(.5))) o.in.y = noise(raw.y, oy);
    last[o.inst] = raw;
  }
  for (Par& p : d.params) {
    p[PM_MASS] = static_cast<float>(p[PM_MASS] * (1 + amp * 2 * kU * r.Range(-1, 1)));
    p[PM_DRAG] = static_cast<float>(p[PM_DRAG] * (1 + amp * 2 * kU * r.Range(-1, 1)));
  }
  return d;
}
}  // namespace

static void Judge(const Trace& t) {
  Frame f{t.variant % NV, t.aux.size() > 3 ? t.aux[3] : 0, t.aux.size() > 4 ? t.aux[4] : 0};
  Trace u = t;
  for (Par& p : u.params) p = MapPar(p, f);
  for (Op& o : u.ops) if (o.k == OP_UPDATE) o.in = MapIn(o.in, f);
  for (const Par& p : u.params) { bool sure; if (!ParValid(p, &sure) || !sure) return; }
  std::vector<Call> B = Execute(t, 0xA5, true), V = Execute(u, 0x5A, false);
  ++g_stats->twins;
  size_t total = 1;
  for (const Call& c : B) total += c.out.size();
  const size_t members = std::min<size_t>(64, 6000000 / total);
  if (members < 24) { ++g_stats->skipped; return; }
  static const char* const kFrames[] = {"another epoch", "another unit of time", "another unit of distance", "another origin", "a frame turned by 90 degrees"};
  std::vector<std::vector<Call>> ens;
  std::vector<Call> model;
  std::vector<std::vector<std::pair<int, size_t>>> sizes(64);
  std::vector<std::vector<std::vector<D>>> ens_out(64);
  auto make = [&](size_t m, Frame* g) {
    static const double amps[] = {1, 4, 16, 2};
    Rng r(HashMix(t.seed, 717 + m));
    Trace d = Disturb(t, f, HashMix(t.seed, 80808 + m), m % 3 == 2 ? 0 : amps[m % 4]);
    *g = Frame{f.v, 0, 0};
    if ((f.v == V_EPOCH || f.v == V_MOVE) && m % 4 != 3) {
      double k = std::ldexp(1, r.Int(0, 3));
      g->a = f.a * k + (f.v == V_EPOCH ? r.Int(0, 4096) / 4096. : r.Int(-2, 2) / 64.);
      g->b = f.b * k + (f.v == V_EPOCH ? 0 : r.Int(-2, 2) / 64.);
      if (r.P(.5)) g->a = -g->a;
      if (r.P(.5)) g->b = -g->b;
      if (f.v == V_MOVE && r.P(.3)) std::swap(g->a, g->b);
      for (Op& o : d.ops) if (o.k == OP_UPDATE) o.in = MapIn(o.in, *g);
    } else {
      g->v = NV;
    }
    ++g_stats->twins;
    return Execute(d, 0x11, false);
  };
  auto member = [&](size_t i) -> const std::vector<std::pair<int, size_t>>& {
    while (ens.size() <= i) {
      size_t m = ens.size();
      Frame g;
      ens.push_back(make(m, &g));
      for (Call& c : ens.back()) { std::vector<D> o; for (const Res& x : c.out) o.push_back(Back(x, g)); ens_out[m].push_back(o); }
      for (Call& c : ens.back()) { sizes[m].push_back({c.code, c.out.size()}); std::vector<Res>().swap(c.out); }
    }
    return sizes[i];
  };
  std::vector<int> par(t.n_inst, -1);
  std::vector<bool> lost(t.n_inst, false);  // rounding decided something discrete in this stroke
  // How large the stroke's raw positions, velocities, accelerations, pressures and tilts are: a place on a
  // segment is only known to within rounding of its length.
  struct Extent { double v[10] = {0}; bool any = false; In last; double lvx = 0, lvy = 0; };
  std::vector<Extent> extent(t.n_inst);
  // The protocol may have to follow what rounding decided; strokes are independent otherwise.
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    const Call &b = B[i], &v = V[i];
    if (op.k == OP_RESETP && b.ok()) par[op.inst] = op.par;
    if (op.k == OP_UPDATE && op.in.type == DOWN && b.ok() && v.ok()) lost[op.inst] = false;
    if (op.k == OP_UPDATE && b.ok()) {
      Extent& e = extent[op.inst];
      if (op.in.type == DOWN) e = Extent();
      auto grow = [&](int q, double z) { if (std::isfinite(z)) e.v[q] = e.v[q + 1] = std::max(e.v[q], std::fabs(z)); };
      grow(0, op.in.x), grow(0, op.in.y);
      if (std::isfinite(op.in.p)) e.v[7] = std::max(e.v[7], std::fabs((double)op.in.p));
      if (std::isfinite(op.in.ti)) e.v[8] = std::max(e.v[8], std::fabs((double)op.in.ti));
      double dt = op.in.t - e.last.t;
      if (e.any && dt > 0) {
        double vx = (op.in.x - (double)e.last.x) / dt, vy = (op.in.y - (double)e.last.y) / dt;
        grow(2, vx), grow(2, vy), grow(4, (vx - e.lvx) / dt), grow(4, (vy - e.lvy) / dt);
        e.lvx = vx, e.lvy = vy;
      }
      e.any = true, e.last = op.in;
    }
    if (op.k == OP_RESTORE) { /* returns to a state of the same stroke: stays as uncertain as it was */ }
    if (par[op.inst] < 0) continue;
    const Par& p = t.params[par[op.inst]];
    if (op.k == OP_PREDICT && f.v == V_SPACE && p.kind() == PRED_KALMAN) continue;
    if (lost[op.inst]) { ++g_stats->skipped; continue; }
    if ((f.v == V_EPOCH || f.v == V_MOVE) && ((op.k == OP_UPDATE && op.in.type == UP) || (op.k == OP_PREDICT && p.kind() == PRED_END))) {
      // A spring that brings the tip to the anchor in exactly one step: rounding decides whether that overshoots.
      bool lands = false;
      double dt = 1 / p[SP_RATE];
      for (int h = 0; h < 24; ++h, dt /= 2) lands = lands || (std::fabs(dt * dt / p[PM_MASS] - 1) < 1e-3 && std::fabs(dt * p[PM_DRAG] - 1) < 1e-3);
      if (lands) { ++g_stats->skipped; PROBE("end of stroke with a spring that lands in one step"); continue; }
    }
    std::string what = "call " + std::to_string(i) + " (" + kKindNames[op.k] + (op.k == OP_UPDATE ? " " + InStr(op.in) : "") + ") in " + kFrames[f.v] + Fmt2(f.a, f.b);
    auto structure = [&](const std::pair<int, size_t>& c) { return c.first == b.code && c.second == b.out.size(); };
    ++g_stats->checks;
    if (!structure({v.code, v.out.size()})) {
      bool excused = f.v == V_MOVE && p[SP_ANGLE] != -1;  // the direction of a resting tip
      for (size_t m = 0; m < members && !excused; ++m) excused = !structure(member(m)[i]);
      if (!excused) Fail(v.code != b.code ? "status-depends-on-frame" : "count-depends-on-frame", "%s: code %d and %zu results, in the base frame code %d and %zu results", what.c_str(), v.code, v.out.size(), b.code, b.out.size());
      lost[op.inst] = true;
      PROBE("number of results decided by rounding");
      continue;
    }
    if (b.out.empty()) continue;
    if (op.k == OP_UPDATE && op.in.type != DOWN) g_stats->nontrivial = 1;
    // Scale of each kind of value in this call.
    double scale[10] = {0};
    for (const Res& r : b.out) {
      D d = Raw(r);
      for (int q = 0; q < 10; ++q) if (std::isfinite(d.v[q])) scale[q] = std::max(scale[q], std::fabs(d.v[q]));
    }
    for (int q = 0; q < 6; q += 2) scale[q] = scale[q + 1] = std::max(scale[q], scale[q + 1]);
    bool exact = true;
    for (size_t j = 0; j < b.out.size(); ++j) {
      D x = Raw(b.out[j]), y = Back(v.out[j], f);
      for (int q = 0; q < 10; ++q) {
        if (x.v[q] == y.v[q] || (std::isnan(x.v[q]) && std::isnan(y.v[q]))) continue;
        exact = false;
        // Which point of the inputs a tip projects to is decided by rounding all too often when the
        // origin moves; C14 and C18 judge it in every frame.
        if (f.v == V_MOVE && (q > 6 || p.loop())) continue;
        double tol;
        if (q < 2) tol = 2e-6 * (scale[q] + (f.v == V_MOVE ? std::max(std::fabs(f.a), std::fabs(f.b)) : 0));
        else if (q < 6) tol = 1e-5 * scale[q];
        else if (q == 6) tol = 8 * UlpD(std::max(scale[6], f.v == V_EPOCH ? std::fabs(f.a) : 0)) * (4 + j) + 4e-7 * std::fabs(b.out[j].t - b.out[0].t) + 4e-7 / p[SP_RATE];
        else if (q == 9) tol = 1e-5;
        else tol = 2e-6 * scale[q];
        auto diff = [&](double m, double n) { return q == 9 ? std::fabs(std::remainder(m - n, kTwoPi)) : std::fabs(m - n); };
        if (q < 6) tol += 1e-30;
        if (p.loop() || q > 6) tol += 32 * kU * extent[op.inst].v[q];
        double off = f.v == V_MOVE ? std::max(std::fabs(f.a), std::fabs(f.b)) : 0;
        if (q >= 2 && q < 6) tol += 64 * kU * (scale[0] + off) / p[PM_MASS] / (q < 4 ? p[SP_RATE] : 1);
        double d = diff(x.v[q], y.v[q]);
        if (d <= tol) continue;
        // Without loop mitigation the path itself hardly amplifies rounding errors.
        double cap = INFINITY;
        if (!p.loop() && op.k == OP_UPDATE && op.in.type == MOVE && q < 2) cap = 1000 * kU * (scale[q] + std::fabs(f.v == V_MOVE ? std::max(std::fabs(f.a), std::fabs(f.b)) : 0)) + 1000 * UlpD(f.v == V_EPOCH ? f.a : 1) * scale[2];
        bool ok = false, shape = false;
        double dev = 0;
        for (size_t m = 0; m < members && !ok; ++m) {
          if (!structure(member(m)[i])) { shape = true; ok = true; break; }
          double e = diff(x.v[q], ens_out[m][i][j].v[q]);
          if (!std::isfinite(e)) e = INFINITY;
          dev = std::max(dev, e);
          ok = d <= tol + std::min(3 * dev, cap);
        }
        if (!ok && p.loop() && (f.v == V_EPOCH || f.v == V_MOVE)) {
          // Which samples are in the window of the speed average, and which segment is closest, may turn
          // on the last bit of a time: look further before calling it anything else.
          for (size_t m = 64; m < 64 + std::min<size_t>(192, 12000000 / total) && !ok; ++m) {
            Frame g;
            std::vector<Call> c = make(m, &g);
            if (!structure({c[i].code, c[i].out.size()})) { shape = ok = true; break; }
            double e = diff(x.v[q], Back(c[i].out[j], g).v[q]);
            dev = std::max(dev, std::isfinite(e) ? e : INFINITY);
            ok = d <= tol + std::min(3 * dev, cap);
          }
          if (ok) PROBE("rarely decided by rounding");
        }
        if (!ok && (q > 6 || p.loop())) {
          // Products of such coordinates with the lengths of segments underflow differently in each unit.
          for (const Res* r : {&b.out[j], &v.out[j]})
            for (double z : {r->px, r->py}) ok = ok || (z != 0 && std::fabs(z) < 1e-24);
          if (ok) PROBE("closest point depends on underflow");
          if (ok && p.loop()) shape = true;
        }
        if (!ok && p.norm()) {
          // Directions computed from speeds far below the unit underflow differently in each unit.
          if (model.empty()) { Trace m = t; for (Par& z : m.params) z[LC_EN] = 0; model = Execute(m, 0x33, false); }
          for (size_t n = 0; n <= j && n < model[i].out.size(); ++n) {
            const Res& r = model[i].out[n];
            double sv = std::hypot((double)r.vx, (double)r.vy), sa = std::hypot((double)r.ax, (double)r.ay);
            double off = f.v == V_MOVE ? std::max(std::fabs(f.a), std::fabs(f.b)) : 0, ut = f.v == V_EPOCH ? UlpD(f.a) : 0;
            double pos = std::max(std::fabs(r.px), std::fabs(r.py)) + off;
            // noise of accelerations and speeds
            double an = 64 * kU * (pos / p[PM_MASS] + p[PM_DRAG] * sv) + 64 * ut * sv / p[PM_MASS], vn = 64 * kU * (pos / p[PM_MASS] / p[SP_RATE] + sv);
            double cr = std::fabs((double)r.vx * r.ay - (double)r.vy * r.ax);
            if (sv < 1e-8 + vn || sa < 1e-8 + an || cr < an * sv + vn * sa) ok = shape = true;
          }
          if (ok) PROBE("which side is the outside of the turn depends on rounding");
        }
        if (shape) lost[op.inst] = true;
        if (!ok) Fail("result-depends-on-frame", "%s: %s of result %zu of %zu is %.9g, in the base frame %.9g; rounding errors change it by at most %.3g (tolerance %.3g)", what.c_str(), kNames[q], j, b.out.size(), y.v[q], x.v[q], dev, tol);
        PROBE("difference explained by rounding sensitivity");
        if (lost[op.inst]) break;
      }
      if (lost[op.inst]) break;
    }
    if (exact && (f.v == V_TIME || f.v == V_SPACE || f.v == V_TURN)) PROBE("identical in the other frame");
    if (exact && f.v == V_EPOCH) PROBE("identical after shifting the epoch");
    if (f.v == V_EPOCH && op.k == OP_UPDATE && op.in.t + f.a == 0) PROBE("event at time zero after the shift");
    if (f.v == V_MOVE && op.k == OP_UPDATE && op.in.x + f.a == 0 && op.in.y + f.b == 0) PROBE("event at the origin after the move");
  }
}

void CheckC08(const Trace& t) {
  try {
    Judge(t);
  } catch (const Violation&) {
    // What depends on the frame still does when the parameters are slightly different; what one
    // unlucky rounding decided does not.
    int again = 0;
    const int n = 8;
    for (int k = 0; k < n && again < 3 && again + n - k >= 3; ++k) {
      Trace d = t;
      Rng r(HashMix(t.seed, 909 + k));
      for (Par& p : d.params) {
        for (int q : {PM_MASS, PM_DRAG}) p[q] = static_cast<float>(p[q] * (1 + r.Range(-1, 1) * 4e-3));
        if (p[LC_EN]) { double m = 1 + r.Range(-1, 1) * 1e-2; for (int q : {LC_LO, LC_HI}) if (p[q] > 0) p[q] = static_cast<float>(p[q] * m); }
        if (p[WOB_EN]) { double m = 1 + r.Range(-1, 1) * 1e-2; for (int q : {WOB_FLOOR, WOB_CEIL}) if (p[q] > 0) p[q] = static_cast<float>(p[q] * m); }
      }
      try { Judge(d); } catch (const Violation&) { ++again; }
    }
    if (again >= 3) throw;
    PROBE("difference gone with slightly different parameters");
  }
}

Trace GenPlain(uint64_t seed, const PropDef& d, const Dict& dict);
Trace GenC08(uint64_t seed, const PropDef& d, const Dict& dict) {
  Trace t = GenPlain(seed, d, dict);
  Rng r(HashMix(seed, 808));
  t.variant = r.Int(0, NV - 1);
  std::vector<const Op*> ups;
  for (Op& o : t.ops) {
    if (o.k != OP_UPDATE) continue;
    for (float* v : {&o.in.x, &o.in.y}) {
      double g = std::isfinite(*v) ? std::round(std::clamp<double>(*v, -8192, 8192) * 64) / 64 : 0;
      *v = static_cast<float>(g);
    }
    o.in.t = std::isfinite(o.in.t) ? std::round(std::clamp(o.in.t, -1e6, 1e6) * 4096) / 4096 : 0;
    ups.push_back(&o);
  }
  double a = 0, b = 0;
  const Op* pick = ups.empty() ? nullptr : ups[r.Int(0, static_cast<int>(ups.size()) - 1)];
  switch (t.variant) {
    case V_EPOCH:
      switch (r.Int(0, 6)) {
        case 0: case 1: a = pick ? -pick->in.t : 1; break;
        case 2: a = r.Int(-4096, 4096); break;
        case 3: a = std::ldexp(r.P(.5) ? 1 : -1, r.Int(0, 12)); break;
        case 4: a = 1.7e9 + r.Int(0, 100000000); break;
        case 5: a = r.Int(-2000000, 2000000); break;
        case 6: a = r.Int(-4096, 4096) / 4096.; break;
      }
      break;
    case V_TIME: case V_SPACE:
      do a = r.Int(-12, 12); while (a == 0);
      break;
    case V_MOVE:
      if (pick && r.P(.4)) { a = -pick->in.x; b = -pick->in.y; }
      else {
        a = r.P(.2) ? 0 : r.P(.5) ? r.Int(-64, 64) / 4. : r.Int(-4096, 4096);
        b = r.P(.2) ? 0 : r.P(.5) ? r.Int(-64, 64) / 4. : r.Int(-4096, 4096);
      }
      break;
  }
  t.aux.resize(3);
  t.aux.push_back(a);
  t.aux.push_back(b);
  return t;
}
