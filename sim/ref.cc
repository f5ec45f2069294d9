#include "ref.h"

#include <array>
#include <memory>
#include <set>

static std::string Fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
#include <cstdarg>
static std::string Fmt(const char* f, ...) {
  char b[1200];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
static std::string OpS(const Trace& t, size_t i) {
  const Op& o = t.ops[i];
  std::string s = "call " + std::to_string(i) + " (" + kKindNames[o.k];
  if (o.k == OP_UPDATE) s += " " + InStr(o.in);
  return s + ", modeler " + std::to_string(o.inst) + ")";
}

int DiffGreater(double a, double b, double c) {
  long double d = static_cast<long double>(a) - b, g = d - c;
  double ab = a - b, ac = a - c;
  bool exact = static_cast<long double>(ab) == d && static_cast<long double>(ac) == static_cast<long double>(a) - c;
  if (exact) return ab > c;
  double m = 4 * UlpD(std::max({std::fabs(a), std::fabs(b), std::fabs(c)}));
  if (g > m) return 1;
  if (g < -m) return 0;
  return 2;
}

// ------------------------------------------------------------------ wobble smoothing
static void Smooth(const Par& p, std::vector<Rec>& recs) {
  Rec& r = recs.back();
  size_t k = recs.size() - 1;
  r.x = r.in.x;
  r.y = r.in.y;
  r.e = 0;
  if (k == 0 || r.in.type != MOVE || !p.wob()) return;
  size_t lo = k, hi = k;  // possible first samples of the window
  while (lo > 0 && DiffGreater(r.in.t, recs[lo - 1].in.t, p[WOB_TIMEOUT]) != 1) --lo;
  hi = lo;
  while (hi < k && DiffGreater(r.in.t, recs[hi].in.t, p[WOB_TIMEOUT]) == 2) ++hi;
  double xl = INFINITY, xh = -INFINITY, yl = INFINITY, yh = -INFINITY, e = 0;
  auto add = [&](double x, double y) {
    xl = std::min(xl, x); xh = std::max(xh, x);
    yl = std::min(yl, y); yh = std::max(yh, y);
  };
  for (size_t s = lo; s <= hi; ++s) {
    long double sx = 0, sy = 0, sd = 0, st = 0;
    double big = 0;
    for (size_t j = s; j <= k; ++j) {
      big = std::max({big, std::fabs((double)recs[j].in.x), std::fabs((double)recs[j].in.y)});
      if (j == 0) continue;
      long double d = static_cast<long double>(recs[j].in.t) - recs[j - 1].in.t;
      sx += recs[j].in.x * d;
      sy += recs[j].in.y * d;
      sd += std::hypot((double)recs[j].in.x - recs[j - 1].in.x, (double)recs[j].in.y - recs[j - 1].in.y);
      st += d;
    }
    if (st == 0) { add(r.in.x, r.in.y); continue; }
    double ax = sx / st, ay = sy / st, speed = sd / st;
    double fl = p[WOB_FLOOR], ce = p[WOB_CEIL], v0, v1;
    if (fl == ce) {
      double m = 8 * kU * std::max(speed, fl) + kTiny;
      v0 = speed > fl + m ? 1 : 0;
      v1 = speed < fl - m || (speed == 0 && fl == 0) ? 0 : 1;
      if (v0 > v1) v1 = v0;
    } else {
      double val = (speed - fl) / (ce - fl), dv = 8 * kU * (speed + fl) / (ce - fl) + 4 * kU;
      v0 = std::clamp(val - dv, 0., 1.);
      v1 = std::clamp(val + dv, 0., 1.);
      if (!std::isfinite(val)) { v0 = 0; v1 = 1; }
    }
    add(ax + (r.in.x - ax) * v0, ay + (r.in.y - ay) * v0);
    add(ax + (r.in.x - ax) * v1, ay + (r.in.y - ay) * v1);
    e = std::max(e, 8 * kU * big);
  }
  r.x = (xl + xh) / 2;
  r.y = (yl + yh) / 2;
  r.e = e + std::max(xh - xl, yh - yl) / 2;
  if (hi > lo) PROBE("moving-average window decided by rounding (both accepted)");
}

void Follow::Sync(const Proto& pr, const Par* p, const Call* c) {
  if (recs.size() > pr.eff.size()) recs.resize(pr.eff.size());
  // A new stroke.
  if (!recs.empty() && (pr.eff.empty() || !SameIn(recs[0].in, pr.eff[0]))) recs.clear();
  while (recs.size() < pr.eff.size()) {
    size_t k = recs.size();
    recs.emplace_back();
    Rec& r = recs.back();
    r.in = pr.eff[k];
    const float st[3] = {r.in.p, r.in.ti, r.in.o};
    for (int j = 0; j < 3; ++j) r.known[j] = (k == 0 || recs[k - 1].known[j]) && st[j] >= 0 && std::isfinite(st[j]);
    Smooth(*p, recs);
    r.vx = r.vy = r.ax = r.ay = r.ev = r.ea = 0;
    r.sane = k == 0 || recs[k - 1].sane;
    if (k > 0 && r.in.t != recs[k - 1].in.t) {
      const Rec& q = recs[k - 1];
      double dt = r.in.t - q.in.t;
      r.vx = (r.x - q.x) / dt;
      r.vy = (r.y - q.y) / dt;
      double d = std::max(std::fabs(r.x - q.x), std::fabs(r.y - q.y));
      r.ev = (r.e + q.e + 2 * kU * d) / dt + 3 * kU * d / dt + kTiny;
      r.ax = (r.vx - q.vx) / dt;
      r.ay = (r.vy - q.vy) / dt;
      double w = std::max({std::fabs(r.vx), std::fabs(r.vy), std::fabs(q.vx), std::fabs(q.vy)});
      r.ea = (r.ev + q.ev + 2 * kU * w) / dt + 3 * kU * std::max(std::fabs(r.ax), std::fabs(r.ay)) + kTiny;
    }
    double m = std::max({std::fabs(r.x), std::fabs(r.y), std::fabs(r.vx), std::fabs(r.vy), std::fabs(r.ax), std::fabs(r.ay)});
    if (!(m < 1e30) || !(std::fabs(r.in.t) < 1e30)) r.sane = false;
    // Retention.
    r.f_lo = k == 0 ? 0 : recs[k - 1].f_lo;
    r.f_hi = k == 0 ? 0 : recs[k - 1].f_hi;
    if (!p->norm()) {
      double keep = (*p)[ST_MAX];
      r.f_lo = r.f_hi = k + 1 > keep ? static_cast<int>(k + 1 - keep) : 0;
    } else {
      double keep = (*p)[ST_MIN];
      auto drop = [&](int f, bool lenient) {
        if (!(static_cast<double>(k) - f + 1 > keep)) return false;
        int g = DiffGreater(r.in.t, recs[f + 1].in.t, (*p)[ST_DUR]);
        return g == 1 || (g == 2 && lenient);
      };
      while (drop(r.f_lo, false)) ++r.f_lo;
      while (drop(r.f_hi, true)) ++r.f_hi;
    }
    if (c && !c->out.empty()) r.tip = c->out.back();
    else r.tip = k ? recs[k - 1].tip : Res{};
    r.n_speed = k ? recs[k - 1].n_speed : 0;
  }
}

// ------------------------------------------------------------------ spring
std::string CheckStep(const Par& p, const Res& q, const Res& r, double ancx, double ancy, double e_anc, int line) {
  double M = p[PM_MASS], D = p[PM_DRAG];
  double dt = r.t - q.t;
  double e_dt = UlpD(std::max(std::fabs(r.t), std::fabs(q.t)));
  const double P[2] = {q.px, q.py}, V[2] = {q.vx, q.vy}, A[2] = {ancx, ancy};
  const double P1[2] = {r.px, r.py}, V1[2] = {r.vx, r.vy}, A1[2] = {r.ax, r.ay};
  for (int c = 0; c < 2; ++c) {
    double d = A[c] - P[c];
    double a = d / M - D * V[c];
    double ta = 2 * (e_anc / M + 4 * kU * (std::fabs(d) / M + D * std::fabs(V[c]))) + kTiny + 1e-38 / M;
    if (!(std::fabs(A1[c] - a) <= ta)) return Fmt("%c acceleration %.9g, the spring gives %.9g (tolerance %.2g; anchor %.9g)", 'x' + c, A1[c], a, ta, A[c]);
    double v = V[c] + dt * A1[c];
    double tv = 6 * kU * (std::fabs(V[c]) + std::fabs(dt * A1[c])) + e_dt * std::fabs(A1[c]) + kTiny;
    if (!(std::fabs(V1[c] - v) <= tv)) return Fmt("%c velocity %.9g, the spring gives %.9g (tolerance %.2g)", 'x' + c, V1[c], v, tv);
    double x = P[c] + dt * V1[c];
    double tx = 6 * kU * (std::fabs(P[c]) + std::fabs(dt * V1[c])) + e_dt * std::fabs(V1[c]) + kTiny;
    if (!(std::fabs(P1[c] - x) <= tx)) return Fmt("%c position %.9g, the spring gives %.9g (tolerance %.2g)", 'x' + c, P1[c], x, tx);
  }
  return "";
}
static bool SameState(const Res& a, const Res& b) {
  return a.px == b.px && a.py == b.py && a.vx == b.vx && a.vy == b.vy && a.t == b.t;
}
std::string CheckEndSteps(const Par& p, Res prev, const std::vector<Res>& out, size_t from, const End& end) {
  double step = 1 / p[SP_RATE];
  for (size_t j = from; j < out.size(); ++j) {
    const Res& r = out[j];
    double dt = r.t - prev.t, tol = 4 * UlpD(std::max(std::fabs(r.t), std::fabs(prev.t))) + 1e-6 * step;
    while (dt < step * .75 && step > 2 * tol) step *= .5;
    if (!(std::fabs(dt - step) <= tol || (dt >= 0 && dt <= 3 * tol))) return Fmt("result %zu: time step %.9g is not the output step %.9g halved some times, without growing again", j, dt, 1 / p[SP_RATE]);
    std::string w = CheckStep(p, prev, r, end.x, end.y, end.e, __LINE__);
    if (!w.empty()) return Fmt("result %zu: ", j) + w;
    prev = r;
  }
  return "";
}

// ------------------------------------------------------------------ C13
void CheckC13(const Trace& t) {
  Runner run(t, 0xA5);
  std::vector<Follow> fo(t.n_inst);
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    Proto before = run.proto[op.inst];
    Call c = run.Do(op);
    const Proto& now = run.proto[op.inst];
    if (now.par < 0) continue;
    const Par& p = t.params[now.par];
    if (p.loop()) continue;
    Follow& f = fo[op.inst];
    f.Sync(now, &p, op.k == OP_UPDATE && c.ok() ? &c : nullptr);
    if (!c.ok() || f.recs.empty()) continue;
    const Rec& cur = f.recs.back();
    bool fin = cur.sane;
    for (const Res& r : c.out) fin = fin && FiniteRes(r) && std::fabs(r.px) < 1e30 && std::fabs(r.py) < 1e30 && std::fabs(r.vx) < 1e30 && std::fabs(r.vy) < 1e30;
    if (!fin) { ++g_stats->skipped; continue; }
    if (op.k == OP_PREDICT && p.kind() == PRED_END) {
      std::string w = CheckEndSteps(p, cur.tip, c.out, 0, End{cur.x, cur.y, cur.e});
      g_stats->checks += c.out.size();
      if (!w.empty()) Fail("predicted-path", "%s: stroke-end prediction, %s", OpS(t, i).c_str(), w.c_str());
      if (!c.out.empty() && p.wob() && cur.e < 1e-3) PROBE("stroke-end prediction towards a smoothed position");
      continue;
    }
    if (op.k != OP_UPDATE) continue;
    if (op.in.type == DOWN) {
      const Res& r = c.out[0];
      ++g_stats->checks;
      if (!(r.px == op.in.x && r.py == op.in.y && r.vx == 0 && r.vy == 0 && r.ax == 0 && r.ay == 0 && r.t == op.in.t)) Fail("down-result", "%s: the stroke starts with %s", OpS(t, i).c_str(), ResStr(r).c_str());
      continue;
    }
    const Rec& last = f.recs[f.recs.size() - 2];
    if (!FiniteRes(last.tip)) { ++g_stats->skipped; continue; }
    double dt = op.in.t - last.in.t;
    // The linear part.
    auto along = [&](size_t n) -> std::string {
      Res prev = last.tip;
      double e = std::max(last.e, cur.e) + 4 * kU * std::max({std::fabs(last.x), std::fabs(last.y), std::fabs(cur.x), std::fabs(cur.y)});
      for (size_t j = 0; j < n; ++j) {
        double w = static_cast<double>(j + 1) / n;
        std::string s = CheckStep(p, prev, c.out[j], last.x + (cur.x - last.x) * w, last.y + (cur.y - last.y) * w, e, __LINE__);
        if (!s.empty()) return Fmt("result %zu of %zu: ", j, n) + s;
        prev = c.out[j];
      }
      return "";
    };
    std::string why;
    g_stats->checks += c.out.size();
    if (op.in.type == MOVE) {
      if (dt == 0 && c.out.size() == 1 && SameState(c.out[0], last.tip)) { PROBE("no time passed: state repeated"); continue; }
      why = along(c.out.size());
    } else {
      double teps = 8 * UlpD(std::max(std::fabs(op.in.t), std::fabs(last.in.t))) + std::fabs(dt) * 4e-7;
      bool ok = false;
      int tries = 0;
      std::string first;
      for (size_t n = 0; n <= c.out.size() && !ok; ++n) {
        if (n == 0 ? dt > teps : std::fabs(c.out[n - 1].t - op.in.t) > teps) continue;
        if (++tries > 50) { ok = true; ++g_stats->skipped; break; }
        if (n == 0 && c.out.size() == 1 && SameState(c.out[0], last.tip)) { ok = true; break; }
        why = along(n);
        if (why.empty()) why = CheckEndSteps(p, n ? c.out[n - 1] : last.tip, c.out, n, End{op.in.x, op.in.y, 0});
        if (why.empty()) { ok = true; if (c.out.size() > n + 1) PROBE("end of stroke modeled"); }
        else if (first.empty()) first = why;
      }
      why = ok ? "" : first.empty() ? "no result at the time of the input" : first;
    }
    if (!why.empty()) Fail("path-differs", "%s: %s", OpS(t, i).c_str(), why.c_str());
    if (f.recs.size() > 2) g_stats->nontrivial = 1;
    if (cur.e > 0 && p.wob()) PROBE("smoothed input");
    if (dt > 1 && op.in.type == MOVE) PROBE("long gap");
  }
}

// ------------------------------------------------------------------ projection onto the inputs
struct Cand {  // a place on the polyline: between recs[i] and recs[i + 1], at [s0, s1]
  int i;
  double s0, s1;
};
struct Normal {
  double x, y;  // unit
  double phi;   // bound on its error
};
// All places a correct projection may choose.
struct Projector {
  const std::vector<Rec>& recs;
  int f;       // first retained
  int k;       // last
  double px, py;
  double big() const {
    return std::max(std::fabs(px), std::fabs(py));
  }
  void Ends(std::vector<Cand>& out) const {
    const Rec &a = recs[f], &b = recs[k];
    double da = std::hypot(a.x - px, a.y - py), db = std::hypot(b.x - px, b.y - py);
    double tol = 4 * kU * std::max(da, db) + 2 * (a.e + b.e) + 1e-18;
    if (da < db + tol) out.push_back({f, 0, 0});
    if (!(da < db - tol)) out.push_back({k, 0, 0});
  }
  void Closest(std::vector<Cand>& out) const {
    if (f == k) { out.push_back({k, 0, 0}); return; }
    double best = INFINITY;
    std::vector<double> lo(k - f), s(k - f), ds(k - f);
    for (int i = f; i < k; ++i) {
      const Rec &a = recs[i], &b = recs[i + 1];
      double vx = b.x - a.x, vy = b.y - a.y, wx = px - a.x, wy = py - a.y;
      double L = std::hypot(vx, vy), W = std::hypot(wx, wy), e = a.e + b.e;
      double t, dt;
      double el = 2 * e + kTiny;
      if (L <= 4 * el || L < 1e-18) { t = .5; dt = 1; if (L == 0 && e == 0) { t = 0; dt = 0; } }
      else {
        t = (wx * vx + wy * vy) / (L * L);
        dt = 8 * kU * W / L + 3 * el / L * (1 + W / L) + 2 * kU;
        if (L < 1e-15) { t = .5; dt = 1; }
      }
      double t0 = std::clamp(t - dt, 0., 1.), t1 = std::clamp(t + dt, 0., 1.), tc = std::clamp(t, 0., 1.);
      double d = std::hypot(a.x + vx * tc - px, a.y + vy * tc - py);
      double m = 6 * kU * std::max({std::fabs(a.x), std::fabs(a.y), std::fabs(b.x), std::fabs(b.y), big()}) + 2 * e + L * (t1 - t0) + 1e-18;
      best = std::min(best, d + m);
      lo[i - f] = d - m;
      s[i - f] = t0;
      ds[i - f] = t1;
    }
    for (int i = f; i < k; ++i)
      if (lo[i - f] <= best) out.push_back({i, s[i - f], ds[i - f]});
  }
  void AlongNormal(const Normal& n, double ax, double ay, std::vector<Cand>& out) const {
    struct Hit { Cand c; double lo, hi; bool certain, left, right; };
    std::vector<Hit> hits;
    for (int i = f; i < k; ++i) {
      const Rec &a = recs[i], &b = recs[i + 1];
      double wx = a.x - px, wy = a.y - py, zx = b.x - px, zy = b.y - py;
      double da = n.x * wy - n.y * wx, db = n.x * zy - n.y * zx;
      double la = std::hypot(wx, wy), lb = std::hypot(zx, zy), L = std::hypot(b.x - a.x, b.y - a.y);
      double ea = la * (n.phi + 8 * kU) + 2 * a.e + 4 * kU * L + 1e-18, eb = lb * (n.phi + 8 * kU) + 2 * b.e + 4 * kU * L + 1e-18;
      bool sa = std::fabs(da) > ea, sb = std::fabs(db) > eb;
      if (sa && sb && (da > 0) == (db > 0)) continue;
      bool certain = sa && sb;
      double den = std::fabs(da - db) - ea - eb, s0 = 0, s1 = 1;
      if (den > 0) {
        double s = da / (da - db), d = (ea + (ea + eb) * std::fabs(s)) / den + 4 * kU;
        s0 = std::clamp(s - d, 0., 1.);
        s1 = std::clamp(s + d, 0., 1.);
      }
      // distances and side over the whole interval
      auto at = [&](double s, double* x, double* y) { *x = a.x + (b.x - a.x) * s; *y = a.y + (b.y - a.y) * s; };
      double x0, y0, x1, y1;
      at(s0, &x0, &y0);
      at(s1, &x1, &y1);
      double m = 8 * kU * std::max({std::fabs(a.x), std::fabs(a.y), std::fabs(b.x), std::fabs(b.y), big()}) + 2 * (a.e + b.e) + 1e-18;
      double d0 = std::hypot(x0 - px, y0 - py), d1 = std::hypot(x1 - px, y1 - py);
      double p0 = (x0 - px) * n.x + (y0 - py) * n.y, p1 = (x1 - px) * n.x + (y1 - py) * n.y;
      double w = std::hypot(x1 - x0, y1 - y0);
      Hit h;
      h.c = {i, s0, s1};
      h.lo = std::max(0., std::min(d0, d1) - w - m);
      h.hi = std::max(d0, d1) + m;
      h.certain = certain;
      double pm = m + std::max(d0, d1) * (n.phi + 8 * kU);
      h.left = std::max(p0, p1) > -pm;
      h.right = std::min(p0, p1) < pm;
      hits.push_back(h);
    }
    bool may[2] = {false, false}, must[2] = {false, false};
    double best[2] = {INFINITY, INFINITY};
    for (const Hit& h : hits) {
      for (int s = 0; s < 2; ++s) {
        bool here = s ? h.right : h.left, other = s ? h.left : h.right;
        if (!here) continue;
        may[s] = true;
        if (h.certain && !other) { must[s] = true; best[s] = std::min(best[s], h.hi); }
      }
    }
    double na = n.x * ax + n.y * ay, ma = std::hypot(ax, ay), em = ma * (n.phi + 8 * kU) + kTiny;
    bool want_right = na > -em, want_left = na < em;
    if (ma == 0) want_right = false;
    bool ok[2];
    ok[0] = may[0] && (want_left || !must[1]);
    ok[1] = may[1] && (want_right || !must[0]);
    for (const Hit& h : hits)
      for (int s = 0; s < 2; ++s)
        if (ok[s] && (s ? h.right : h.left) && h.lo <= best[s]) { out.push_back(h.c); break; }
    if (!must[0] && !must[1]) Ends(out);
    if (may[0] && may[1] && hits.size() > 1) PROBE("inputs on both sides of the stroke");
    if (hits.empty()) PROBE("normal misses the inputs");
  }
};
// The direction across the stroke.  Returns false when it cannot be told; `none` when undefined.
static bool Normals(const Res& r, double prev_t, std::vector<Normal>& out, bool* none) {
  *none = false;
  double vx = r.vx, vy = r.vy, ax = r.ax, ay = r.ay;
  double v = std::hypot(vx, vy), a = std::hypot(ax, ay);
  if (v == 0 && a == 0) { *none = true; return true; }
  if ((v > 0 && v < 1e-15) || (a > 0 && a < 1e-15) || v > 1e15 || a > 1e15) return false;
  auto orth = [&](double x, double y, double phi) { double m = std::hypot(x, y); out.push_back({-y / m, x / m, phi}); };
  if (v == 0) { orth(ax, ay, 2 * kU); return true; }
  if (a == 0) { orth(vx, vy, 2 * kU); return true; }
  const double kCos = 0.99996192;
  double cs = std::fabs(vx * ax + vy * ay) / (v * a);
  bool par = cs > kCos - 2e-6, bend = cs < kCos + 2e-6;
  if (par) orth(vx, vy, 2 * kU);
  if (bend) {
    double dt = r.t - prev_t;
    double wx = vx + ax * dt, wy = vy + ay * dt, w = std::hypot(wx, wy);
    double ew = 3 * kU * (v + a * std::fabs(dt)) + 2 * UlpD(std::max(std::fabs(r.t), std::fabs(prev_t))) * a;
    if (w <= 8 * ew) return false;
    double nx = vx / v + wx / w, ny = vy / v + wy / w, n = std::hypot(nx, ny);
    double en = 6 * kU + 2 * ew / w;
    if (n <= 8 * en) return false;
    orth(nx, ny, 2 * en / n);
  }
  return true;
}

struct Range {
  double lo = 0, hi = 1;
  void Cut(double a, double b) { lo = std::max(lo, a); hi = std::min(hi, b); }
  bool empty() const { return !(lo <= hi); }
};
// Restricts s so that a + (b - a) s lies within tol of v.
static void CutLinear(Range& g, double a, double b, double v, double tol) {
  double d = b - a;
  if (std::fabs(d) <= tol * 1e-3 || d == 0) {
    if (!(std::fabs(v - a) <= tol + std::fabs(d))) g.hi = -1;
    return;
  }
  double s0 = (v - tol - a) / d, s1 = (v + tol - a) / d;
  if (!std::isfinite(s0) || !std::isfinite(s1)) return;
  g.Cut(std::min(s0, s1), std::max(s0, s1));
}
struct Known { bool p, ti, o; };
static const double kTwoPi = 6.283185307179586;
// Are the stylus values (and, with `kin`, position, velocity and acceleration) those of the place?
static bool FieldsMatch(const std::vector<Rec>& recs, const Cand& c, const Res& r, const Known& kn, bool kin) {
  const Rec& a = recs[c.i];
  const Rec& b = c.s0 == 0 && c.s1 == 0 ? a : recs[c.i + 1];
  auto lin = [&](Range& g, double x, double y, double v, double extra = 0) {
    CutLinear(g, x, y, v, 6 * kU * std::max(std::fabs(x), std::fabs(y)) + extra + kTiny);
  };
  Range base;
  base.Cut(c.s0, c.s1);
  if (kn.p) lin(base, a.in.p, b.in.p, r.p);
  if (kn.ti) lin(base, a.in.ti, b.in.ti, r.ti);
  if (kin) {
    double e = a.e + b.e;
    lin(base, a.x, b.x, r.px, e);
    lin(base, a.y, b.y, r.py, e);
    lin(base, a.vx, b.vx, r.vx, a.ev + b.ev);
    lin(base, a.vy, b.vy, r.vy, a.ev + b.ev);
    lin(base, a.ax, b.ax, r.ax, a.ea + b.ea);
    lin(base, a.ay, b.ay, r.ay, a.ea + b.ea);
  }
  if (base.empty()) return false;
  if (!kn.o) return true;
  double tol = 1e-5 + 4 * kU * (std::fabs(a.in.o) + std::fabs(b.in.o));
  if (tol > 1) return true;
  double d = std::remainder((double)b.in.o - a.in.o, kTwoPi);
  std::vector<double> ways = {d};
  if (std::fabs(std::fabs(d) - kTwoPi / 2) < 2 * tol) ways.push_back(d > 0 ? d - kTwoPi : d + kTwoPi);
  for (double w : ways) {
    double rel = std::remainder((double)r.o - a.in.o, kTwoPi);
    for (double q : {rel, rel - kTwoPi, rel + kTwoPi}) {
      Range g = base;
      CutLinear(g, 0, w, q, tol);
      if (!g.empty()) return true;
    }
  }
  return false;
}
// Places for a tip state; false when undecidable.
static bool Places(const Par& p, const std::vector<Rec>& recs, int f, int k, const Res& tip, const std::vector<double>& prev_times, std::vector<Cand>& out) {
  Projector pj{recs, f, k, tip.px, tip.py};
  if (!p.norm()) { pj.Closest(out); return true; }
  for (double pt : prev_times) {
    std::vector<Normal> ns;
    bool none;
    if (!Normals(tip, pt, ns, &none)) return false;
    if (none) { pj.Closest(out); PROBE("no direction: closest point"); }
    for (const Normal& n : ns) pj.AlongNormal(n, tip.ax, tip.ay, out);
  }
  return true;
}
static std::string CandStr(const std::vector<Rec>& recs, const std::vector<Cand>& cs) {
  std::string s;
  for (size_t i = 0; i < cs.size() && i < 4; ++i) {
    const In &a = recs[cs[i].i].in, &b = recs[std::min<size_t>(cs[i].i + 1, recs.size() - 1)].in;
    s += Fmt(" [inputs %d,%d at %.6g..%.6g: pressure %.6g..%.6g tilt %.6g..%.6g orientation %.6g..%.6g]", cs[i].i, cs[i].i + 1, cs[i].s0, cs[i].s1, a.p, b.p, a.ti, b.ti, a.o, b.o);
  }
  return s;
}

// ------------------------------------------------------------------ C14
static Known KnownFields(const std::vector<Rec>& recs) {
  const Rec& r = recs.back();
  return Known{r.known[0], r.known[1], r.known[2]};
}
void CheckC14(const Trace& t) {
  Runner run(t, 0xA5);
  std::vector<Follow> fo(t.n_inst);
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    Call c = run.Do(op);
    const Proto& now = run.proto[op.inst];
    if (now.par < 0) continue;
    const Par& p = t.params[now.par];
    if (p.loop()) continue;
    Follow& f = fo[op.inst];
    f.Sync(now, &p, op.k == OP_UPDATE && c.ok() ? &c : nullptr);
    if (!c.ok() || f.recs.empty() || (op.k != OP_UPDATE && op.k != OP_PREDICT)) continue;
    if (op.k == OP_UPDATE && op.in.type == DOWN) continue;
    Known kn = KnownFields(f.recs);
    if (!kn.p && !kn.ti && !kn.o) continue;
    if (!f.recs.back().sane) { ++g_stats->skipped; continue; }
    int k = static_cast<int>(f.recs.size()) - 1;
    const Rec& cur = f.recs.back();
    std::vector<double> prev;
    if (op.k == OP_PREDICT) prev = {cur.in.t};
    else if (op.in.type == UP) prev = {f.recs[k - 1].in.t};
    else prev = {f.recs[k - 1].in.t, cur.in.t};  // either is a documented "previous" time
    if (f.recs[cur.f_lo].in.t != f.recs[0].in.t || cur.f_lo > 0) PROBE("old inputs dropped");
    if (cur.f_lo != cur.f_hi) PROBE("retention decided by rounding (both accepted)");
    for (size_t j = 0; j < c.out.size(); ++j) {
      const Res& r = c.out[j];
      if (!FiniteRes(r)) { ++g_stats->skipped; break; }
      bool ok = false, dull = false;
      std::vector<Cand> all;
      for (int fr = cur.f_lo; fr <= cur.f_hi && !ok; ++fr) {
        std::vector<Cand> cs;
        if (!Places(p, f.recs, fr, k, r, prev, cs)) { dull = true; break; }
        for (const Cand& q : cs) if (FieldsMatch(f.recs, q, r, kn, false)) { ok = true; break; }
        if (cs.size() == 1 && cs[0].s1 > cs[0].s0) PROBE("projection strictly inside one segment");
        all.insert(all.end(), cs.begin(), cs.end());
      }
      if (dull) ++g_stats->skipped;
      else {
        ++g_stats->checks;
        g_stats->nontrivial = 1;
        if (!ok) Fail(p.norm() ? "stylus-normal" : "stylus-closest", "%s: result %zu of %zu is %s; the tip projects to%s (retained from input %d of %d)", OpS(t, i).c_str(), j, c.out.size(), ResStr(r).c_str(), CandStr(f.recs, all).c_str(), cur.f_lo, k + 1);
      }
      prev = {r.t};
    }
  }
}

// ------------------------------------------------------------------ C17
struct Kal {
  long double x[4] = {0, 0, 0, 0};
};
struct KalCov {
  long double P[4][4];
  KalCov() { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) P[i][j] = i == j; }
};
static const long double kF[4][4] = {{1, 1, .5L, 1.L / 6}, {0, 1, 1, .5L}, {0, 0, 1, 1}, {0, 0, 0, 1}};
// One step of the covariance; the gain is written to K.
static void CovStep(KalCov& c, double q, double rr, long double K[4]) {
  static const long double g[4] = {1.L / 6, .5L, 1, 1};
  long double A[4][4], B[4][4];
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { A[i][j] = 0; for (int k = 0; k < 4; ++k) A[i][j] += kF[i][k] * c.P[k][j]; }
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { B[i][j] = g[i] * g[j] * q; for (int k = 0; k < 4; ++k) B[i][j] += A[i][k] * kF[j][k]; }
  long double S = B[0][0] + rr;
  for (int i = 0; i < 4; ++i) K[i] = B[0][i] / S;
  long double I[4][4], C[4][4];
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) I[i][j] = (i == j) - (j == 0 ? K[i] : 0);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { C[i][j] = 0; for (int k = 0; k < 4; ++k) C[i][j] += I[i][k] * B[k][j]; }
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { c.P[i][j] = K[i] * K[j] * rr; for (int k = 0; k < 4; ++k) c.P[i][j] += C[i][k] * I[j][k]; }
}
// The filter in double precision, every number off by some rounding: how far such filters stray from
// the exact one tells how well conditioned it is.
struct KalNoisy {
  double P[4][4], x[2][4] = {{0, 0, 0, 0}, {0, 0, 0, 0}};
  KalNoisy() { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) P[i][j] = i == j; }
  void Step(double q, double rr, const double obs[2], Rng& rng) {
    static const double g[4] = {1. / 6, .5, 1, 1};
    auto z = [&](double v) { return v * (1 + (rng.U() * 4 - 2) * 2.3e-16); };
    double A[4][4], B[4][4], K[4], I[4][4], C[4][4];
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { double v = 0; for (int k = 0; k < 4; ++k) v += (double)kF[i][k] * P[k][j]; A[i][j] = z(v); }
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { double v = g[i] * g[j] * q; for (int k = 0; k < 4; ++k) v += A[i][k] * (double)kF[j][k]; B[i][j] = z(v); }
    double S = z(B[0][0] + rr);
    for (int i = 0; i < 4; ++i) K[i] = z(B[0][i] / S);
    for (int c = 0; c < 2; ++c) {
      double y[4];
      for (int a = 0; a < 4; ++a) { double v = 0; for (int b = 0; b < 4; ++b) v += (double)kF[a][b] * x[c][b]; y[a] = z(v); }
      double in = obs[c] - y[0];
      for (int a = 0; a < 4; ++a) x[c][a] = z(y[a] + K[a] * in);
    }
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) I[i][j] = (i == j) - (j == 0 ? K[i] : 0);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { double v = 0; for (int k = 0; k < 4; ++k) v += I[i][k] * B[k][j]; C[i][j] = z(v); }
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { double v = K[i] * K[j] * rr; for (int k = 0; k < 4; ++k) v += C[i][k] * I[j][k]; P[i][j] = z(v); }
  }
};
// The filter after some input.
struct KalState {
  Kal X, Y;
  KalCov cov;
  long double K[4] = {1, 0, 0, 0};  // gain of this input
  KalNoisy noisy[3];
  double big = 0;
  double stray[4] = {0, 0, 0, 0};   // largest difference of a noisy filter so far
};
static void KalPush(std::vector<KalState>& ks, const Rec& r, const Par& p) {
  KalState s;
  if (!ks.empty()) s = ks.back();
  s.big = std::max({s.big, std::fabs(r.x), std::fabs(r.y)});
  if (ks.empty()) {
    s.X.x[0] = r.x;
    s.Y.x[0] = r.y;
    for (auto& z : s.noisy) { z.x[0][0] = r.x; z.x[1][0] = r.y; }
  } else {
    CovStep(s.cov, p[KP_PN], p[KP_MN], s.K);
    auto step = [&](long double* x, long double obs) {
      long double y[4];
      for (int a = 0; a < 4; ++a) { y[a] = 0; for (int b = 0; b < 4; ++b) y[a] += kF[a][b] * x[b]; }
      long double in = obs - y[0];
      for (int a = 0; a < 4; ++a) x[a] = y[a] + s.K[a] * in;
    };
    step(s.X.x, r.x);
    step(s.Y.x, r.y);
    const double obs[2] = {r.x, r.y};
    for (int i = 0; i < 3; ++i) {
      Rng rng(HashMix(ks.size(), i));
      s.noisy[i].Step(p[KP_PN], p[KP_MN], obs, rng);
      for (int a = 0; a < 4; ++a) s.stray[a] = std::max({s.stray[a] * .9, std::fabs(s.noisy[i].x[0][a] - (double)s.X.x[a]), std::fabs(s.noisy[i].x[1][a] - (double)s.Y.x[a])});
    }
  }
  ks.push_back(s);
}
struct Iv {
  double lo, hi;
};
static Iv Norm01(double a, double b, Iv v) {
  if (a == b) {
    double m = 8 * kU * std::fabs(a) + kTiny;
    return {v.lo > a + m ? 1. : 0., v.hi > a - m ? 1. : 0.};
  }
  double d = 4 * kU;
  auto n = [&](double x, double sg) { return std::clamp((x - a) / (b - a) + sg * (d + 2 * kU * (std::fabs(x) + std::fabs(a)) / (b - a)), 0., 1.); };
  return {n(v.lo, -1), n(v.hi, 1)};
}
void CheckC17(const Trace& t) {
  Runner run(t, 0xA5);
  std::vector<Follow> fo(t.n_inst);
  std::vector<std::vector<KalState>> kal(t.n_inst);
  size_t work = 0;
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    Call c = run.Do(op);
    const Proto& now = run.proto[op.inst];
    if (now.par < 0) continue;
    const Par& p = t.params[now.par];
    Follow& f = fo[op.inst];
    f.Sync(now, &p, op.k == OP_UPDATE && c.ok() ? &c : nullptr);
    std::vector<KalState>& ks = kal[op.inst];
    if (op.k == OP_UPDATE && c.ok() && op.in.type == DOWN) ks.clear();
    if (ks.size() > f.recs.size()) ks.resize(f.recs.size());
    if (p.kind() == PRED_KALMAN) while (ks.size() < f.recs.size()) KalPush(ks, f.recs[ks.size()], p);
    if (op.k != OP_PREDICT || !c.ok() || p.kind() != PRED_KALMAN || p.loop()) continue;
    const std::vector<Rec>& R = f.recs;
    int n = static_cast<int>(R.size());
    std::string os = OpS(t, i);
    const Res& tip = R.back().tip;
    if (n < p[KP_STABLE]) {
      ++g_stats->checks;
      if (!c.out.empty()) Fail("prediction-too-early", "%s: %zu results after %d inputs, min_stable_iteration is %g", os.c_str(), c.out.size(), n, p[KP_STABLE]);
      PROBE("not yet stable");
      continue;
    }
    if (!R.back().sane || !FiniteRes(tip)) { ++g_stats->skipped; continue; }
    int nt = std::min<double>(n, p[KP_MAXT]);
    double span = R[n - 1].in.t - R[n - nt].in.t;
    if (span == 0) {
      ++g_stats->checks;
      if (!c.out.empty()) Fail("prediction-without-time", "%s: %zu results although the last %d inputs are simultaneous", os.c_str(), c.out.size(), nt);
      PROBE("simultaneous inputs: no prediction");
      continue;
    }
    // The filter.
    const KalState& F = ks.back();
    const Kal &X = F.X, &Y = F.Y;
    double es[4];
    for (int a = 0; a < 4; ++a) es[a] = 1e-9 * F.big + 10 * F.stray[a];
    if (p.wob()) {
      // Influence of the uncertainty of each smoothed position.
      work += static_cast<size_t>(n) * n;
      if (work > 3000000) { ++g_stats->skipped; continue; }
      std::vector<std::array<long double, 4>> sens;
      for (int k = 0; k < n; ++k) {
        for (auto& s : sens) {
          long double y[4];
          for (int a = 0; a < 4; ++a) { y[a] = 0; for (int b = 0; b < 4; ++b) y[a] += kF[a][b] * s[b]; }
          for (int a = 0; a < 4; ++a) s[a] = y[a] - ks[k].K[a] * y[0];
        }
        sens.push_back({ks[k].K[0], ks[k].K[1], ks[k].K[2], ks[k].K[3]});
      }
      for (int a = 0; a < 4; ++a) for (int k = 0; k < n; ++k) es[a] += std::fabs((double)sens[k][a]) * R[k].e;
    }
    double dt = static_cast<double>(static_cast<float>(span)) / nt;
    // Estimated state: position, velocity, acceleration, jerk; [0] x, [1] y; E error bounds.
    double S[4][2], E[4];
    double w[4] = {1, 1 / dt, p[KP_AW] / dt / dt, p[KP_JW] / dt / dt / dt};
    for (int a = 0; a < 4; ++a) {
      S[a][0] = (double)X.x[a] * w[a];
      S[a][1] = (double)Y.x[a] * w[a];
      double m = std::max(std::fabs(S[a][0]), std::fabs(S[a][1]));
      E[a] = 10 * kU * m + es[a] * std::fabs(w[a]) + kTiny;
      if (a == 0) E[a] = kU * m + es[a];
    }
    // Beyond the range of floats nothing can be told.
    double huge = 0;
    for (int a = 0; a < 4; ++a) huge = std::max({huge, std::fabs(S[a][0]), std::fabs(S[a][1]), E[a]});
    if (!(huge < 1e25) || dt < 1e-10 || p[PM_MASS] < 1e-20) { ++g_stats->skipped; continue; }
    double step = 1 / p[SP_RATE];
    // Connector.
    double dist = std::hypot(tip.px - S[0][0], tip.py - S[0][1]), ed = 2 * E[0] + 4 * kU * dist;
    double v1 = std::hypot(S[1][0], S[1][1]), vt = std::hypot(tip.vx, tip.vy);
    double sp_lo = std::max({vt * (1 - 2 * kU), v1 * (1 - 2 * kU) - 2 * E[1], p[KP_CATCH]}), sp_hi = std::max({vt * (1 + 2 * kU), v1 * (1 + 2 * kU) + 2 * E[1], p[KP_CATCH]});
    double lim = p[SP_MAXOUT];
    double c_lo = std::max(1., std::ceil(std::max(0., dist - ed) / sp_hi / step * (1 - 8 * kU))), c_hi = std::max(1., std::ceil((dist + ed) / sp_lo / step * (1 + 8 * kU)));
    c_lo = std::min(c_lo, lim);
    c_hi = std::min(c_hi, lim);
    // How far to predict.
    double T = p[KP_INTERVAL];
    double target = T * p[SP_RATE];
    double ratio = std::min(1., n / p[KP_CN]);
    double err = std::hypot(R[n - 1].x - S[0][0], R[n - 1].y - S[0][1]), ee = 4 * kU * err + 2 * E[0] + 2 * R[n - 1].e + kTiny;
    Iv ne = Norm01(0, p[KP_CEST], {std::max(0., err - ee), err + ee});
    ne = {1 - ne.hi, 1 - ne.lo};
    double tx = S[1][0] * T + S[2][0] * T * T / 2 + S[3][0] * T * T * T / 6, ty = S[1][1] * T + S[2][1] * T * T / 2 + S[3][1] * T * T * T / 6;
    double mag = std::max(std::fabs(S[0][0]), std::fabs(S[0][1])) + T * std::max(std::fabs(S[1][0]), std::fabs(S[1][1])) + T * T * std::max(std::fabs(S[2][0]), std::fabs(S[2][1])) + T * T * T * std::max(std::fabs(S[3][0]), std::fabs(S[3][1]));
    double et = 8 * kU * mag + 2 * (T * E[1] + T * T * E[2] + T * T * T * E[3]) + kTiny;
    double travel = std::hypot(tx, ty);
    Iv nd = Norm01(p[KP_CMINS], p[KP_CMAXS], {std::max(0., travel - et) / T * (1 - 2 * kU), (travel + et) / T * (1 + 2 * kU)});
    double dev = std::hypot(tx - S[1][0] * T, ty - S[1][1] * T);
    Iv nl = Norm01(0, p[KP_CLIN], {std::max(0., dev - et), dev + et});
    double bl = p[KP_CBASE];
    auto lin = [&](double v) { return bl + (1 - bl) * v; };
    double l_lo = std::min(lin(1 - nl.hi), lin(1 - nl.lo)) - 4 * kU, l_hi = std::max(lin(1 - nl.hi), lin(1 - nl.lo)) + 4 * kU;
    double n_lo = std::ceil(target * ratio * ne.lo * nd.lo * std::max(0., l_lo) * (1 - 8 * kU)), n_hi = std::ceil(target * ratio * ne.hi * nd.hi * l_hi * (1 + 8 * kU));
    n_lo = std::clamp(n_lo, 0., lim);
    n_hi = std::clamp(n_hi, 0., lim);
    if (!std::isfinite(n_hi) || !std::isfinite(c_hi)) { ++g_stats->skipped; continue; }
    ++g_stats->checks;
    if (ratio < 1 && n_hi > 0) PROBE("few samples lower the confidence");
    if (ne.hi < 1 && ne.lo > 0) PROBE("estimation error lowers the confidence");
    if (nd.hi < 1 && nd.lo > 0) PROBE("slow travel lowers the confidence");
    if (nl.lo > 0) PROBE("curvature lowers the confidence");
    if (n_lo == n_hi && c_lo == c_hi) PROBE("exact number of predicted points known");
    if (n_lo > 0) PROBE("points beyond the estimate");
    g_stats->nontrivial = 1;
    double total = c.out.size();
    double past = std::ceil(target * (1 + 4 * kU));
    if (total > c_hi + std::min(past, lim)) Fail("prediction-too-long", "%s: %g results; at most %g to reach the estimate and %g beyond it", os.c_str(), total, c_hi, past);
    std::string why;
    bool ok = false;
    int tries = 0;
    for (double nc = c_lo; nc <= c_hi && !ok; ++nc) {
      double np = total - nc;
      if (np < std::min(n_lo, lim - nc) || np > std::min(n_hi, lim - nc)) continue;
      if (++tries > 30) { ok = true; ++g_stats->skipped; break; }
      std::string bad;
      double D = nc * step;
      for (int j = 0; j < nc && bad.empty(); ++j) {
        const Res& r = c.out[j];
        double s = (j + 1) / nc, s2 = s * s, s3 = s2 * s;
        const double rp[2] = {r.px, r.py}, rv[2] = {r.vx, r.vy}, ra[2] = {r.ax, r.ay}, p0[2] = {tip.px, tip.py}, v0[2] = {tip.vx, tip.vy};
        for (int a = 0; a < 2; ++a) {
          double q0 = p0[a], q1 = S[0][a], u0 = v0[a], u1 = S[1][a];
          double G = std::fabs(q0) + std::fabs(q1) + (2 * std::fabs(u0) + std::fabs(u1)) * D;
          double A = 2 * q0 - 2 * q1 + (u0 + u1) * D, B = -3 * q0 + 3 * q1 - (2 * u0 + u1) * D, C = u0 * D;
          double x = A * s3 + B * s2 + C * s + q0, v = (3 * A * s2 + 2 * B * s + C) / D, ac = (6 * A * s + 2 * B) / D / D;
          double ex = 40 * kU * G + (3 * s2 - 2 * s3) * E[0] + std::fabs(s3 - s2) * D * E[1] + kTiny;
          double ev = 80 * kU * G / D + std::fabs(6 * s - 6 * s2) * E[0] / D + std::fabs(3 * s2 - 2 * s) * E[1] + kTiny;
          double ea = 160 * kU * G / D / D + std::fabs(6 - 12 * s) * E[0] / D / D + std::fabs(6 * s - 2) * E[1] / D + kTiny;
          if (!(std::fabs(rp[a] - x) <= ex)) bad = Fmt("connector point %d of %g: %c position %.9g instead of %.9g (tolerance %.2g)", j, nc, 'x' + a, rp[a], x, ex);
          else if (!(std::fabs(rv[a] - v) <= ev)) bad = Fmt("connector point %d of %g: %c velocity %.9g instead of %.9g (tolerance %.2g)", j, nc, 'x' + a, rv[a], v, ev);
          else if (!(std::fabs(ra[a] - ac) <= ea)) bad = Fmt("connector point %d of %g: %c acceleration %.9g instead of %.9g (tolerance %.2g)", j, nc, 'x' + a, ra[a], ac, ea);
        }
        double wt = tip.t + D * s;
        if (!(std::fabs(r.t - wt) <= 8 * UlpD(wt) + 3e-7 * D)) bad = Fmt("connector point %d of %g: time %.17g instead of %.17g", j, nc, r.t, wt);
      }
      for (int j = 0; j < np && bad.empty(); ++j) {
        const Res& r = c.out[static_cast<size_t>(nc) + j];
        double h = (j + 1) * step;
        const double rp[2] = {r.px, r.py}, rv[2] = {r.vx, r.vy}, ra[2] = {r.ax, r.ay};
        double m = 4 * kU * (j + 3);
        for (int a = 0; a < 2; ++a) {
          double x0 = S[0][a], v0 = S[1][a], a0 = S[2][a], j0 = S[3][a];
          double x = x0 + v0 * h + a0 * h * h / 2 + j0 * h * h * h / 6, v = v0 + a0 * h + j0 * h * h / 2, ac = a0 + j0 * h;
          double ex = m * (std::fabs(x0) + std::fabs(v0) * h + std::fabs(a0) * h * h + std::fabs(j0) * h * h * h) + E[0] + h * E[1] + h * h / 2 * E[2] + h * h * h / 6 * E[3] + kTiny;
          double ev = m * (std::fabs(v0) + std::fabs(a0) * h + std::fabs(j0) * h * h) + E[1] + h * E[2] + h * h / 2 * E[3] + kTiny;
          double ea = m * (std::fabs(a0) + std::fabs(j0) * h) + E[2] + h * E[3] + kTiny;
          if (!(std::fabs(rp[a] - x) <= ex)) bad = Fmt("extrapolated point %d of %g: %c position %.9g instead of %.9g (tolerance %.2g)", j, np, 'x' + a, rp[a], x, ex);
          else if (!(std::fabs(rv[a] - v) <= ev)) bad = Fmt("extrapolated point %d of %g: %c velocity %.9g instead of %.9g (tolerance %.2g)", j, np, 'x' + a, rv[a], v, ev);
          else if (!(std::fabs(ra[a] - ac) <= ea)) bad = Fmt("extrapolated point %d of %g: %c acceleration %.9g instead of %.9g (tolerance %.2g)", j, np, 'x' + a, ra[a], ac, ea);
        }
        double wt = tip.t + D + h;
        if (!(std::fabs(r.t - wt) <= 4 * (j + 4) * UlpD(wt) + 3e-7 * (D + h))) bad = Fmt("extrapolated point %d of %g: time %.17g instead of %.17g", j, np, r.t, wt);
      }
      if (bad.empty()) ok = true;
      else if (why.empty()) why = bad;
    }
    if (!ok) {
      if (why.empty()) Fail("prediction-length", "%s: %g results after %d inputs; expected %g..%g to reach the estimate and %g..%g beyond it (limit %g)", os.c_str(), total, n, c_lo, c_hi, n_lo, n_hi, lim);
      Fail("prediction-differs", "%s after %d inputs: %s", os.c_str(), n, why.c_str());
    }
  }
}

// ------------------------------------------------------------------ C18
void CheckC18(const Trace& t) {
  Runner run(t, 0xA5);
  Trace mt = t, pt = t;
  for (Par& p : mt.params) p[LC_EN] = 0;
  for (Par& p : pt.params) if (p.loop()) p[LC_SLO] = p[LC_SHI] = 0;
  Runner model(mt, 0x5A, true, false), proj(pt, 0x11, true, false);
  g_stats->twins += 2;
  struct Sp { double v, t; };
  std::vector<Follow> fo(t.n_inst);
  std::vector<std::vector<Sp>> sp(t.n_inst);
  std::vector<size_t> first(t.n_inst);  // samples before it have left the window for good
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    Call c = run.Do(op), m = model.Do(op), q = proj.Do(op);
    if (op.k == OP_RESETP && (c.ok() != m.ok() || c.ok() != q.ok())) return;  // the twins' parameters are not valid
    const Proto& now = run.proto[op.inst];
    if (now.par < 0) continue;
    const Par& p = t.params[now.par];
    std::string os = OpS(t, i);
    if (c.code != m.code || c.code != q.code) Fail("status-depends-on-mitigation", "%s: code %d, but %d without mitigation and %d with full mitigation", os.c_str(), c.code, m.code, q.code);
    Follow& f = fo[op.inst];
    std::vector<Sp>& ss = sp[op.inst];
    f.Sync(now, &p, op.k == OP_UPDATE && c.ok() ? &c : nullptr);
    size_t have = f.recs.empty() ? 0 : f.recs.back().n_speed;
    if (have < ss.size()) {
      ss.resize(have);
      first[op.inst] = 0;
    }
    if (!c.ok() || !p.loop() || f.recs.empty() || (op.k != OP_UPDATE && op.k != OP_PREDICT)) continue;
    if (op.k == OP_UPDATE && op.in.type == DOWN) continue;
    if (c.out.size() != m.out.size() || c.out.size() != q.out.size()) Fail("count-depends-on-mitigation", "%s: %zu results, but %zu without mitigation", os.c_str(), c.out.size(), m.out.size());
    int k = static_cast<int>(f.recs.size()) - 1;
    Rec& cur = f.recs.back();
    std::vector<double> prev;
    if (op.k == OP_PREDICT) prev = {cur.in.t};
    else if (op.in.type == UP) prev = {f.recs[k - 1].in.t};
    else prev = {f.recs[k - 1].in.t, cur.in.t};
    std::vector<Sp>& s = ss;
    const size_t base = s.size(), base_first = first[op.inst];
    Known kn = KnownFields(f.recs);
    bool sane = cur.sane;
    for (size_t j = 0; j < c.out.size(); ++j) {
      const Res &r = c.out[j], &a = q.out[j], &b = m.out[j];
      bool fin = FiniteRes(r) && FiniteRes(a) && FiniteRes(b);
      // The strength.
      double lo = 1, hi = 1;
      if (!s.empty()) {
        lo = INFINITY;
        hi = -INFINITY;
        size_t n = s.size();
        size_t& from = first[op.inst];
        auto drop = [&](size_t x) { return static_cast<double>(n - x) > p[LC_N] ? DiffGreater(s[n - 1].t, s[x].t, p[LC_WIN]) : 0; };
        while (from + 1 < n && drop(from) == 1) ++from;
        size_t to = from;  // the last that may be the oldest sample of the window
        while (to + 1 < n && drop(to) == 2) ++to;
        double sum = 0;  // from the newest backwards, so that an enormous speed that has left does not blur the rest
        for (size_t x = n; x-- > to + 1;) sum += s[x].v;
        for (size_t x = to + 1; x-- > from;) {
          sum += s[x].v;
          double cnt = n - x, avg = sum / cnt, d = avg * kU * (cnt / 2 + 6) + kTiny;
          double L = p[LC_LO], U = p[LC_HI], r0, r1;
          if (L == U) r0 = r1 = 0;
          else {
            double g = 4 * kU + 4 * kU * (avg + L) / (U - L);
            r0 = std::clamp((avg - d - L) / (U - L) - g, 0., 1.);
            r1 = std::clamp((avg + d - L) / (U - L) + g, 0., 1.);
          }
          double e0 = p[LC_SLO] + (p[LC_SHI] - p[LC_SLO]) * r0, e1 = p[LC_SLO] + (p[LC_SHI] - p[LC_SLO]) * r1;
          lo = std::min({lo, e0, e1});
          hi = std::max({hi, e0, e1});
          if (x != to) PROBE("speed window decided by rounding (both accepted)");
        }
        lo = std::max(0., lo - 4 * kU);
        hi = std::min(1., hi + 4 * kU);
        if (from > 0) PROBE("speed window slid");
        if (lo > p[LC_SHI] + 1e-3 && hi < p[LC_SLO] - 1e-3) PROBE("strength strictly between its bounds");
      }
      if (fin) {
        ++g_stats->checks;
        Range g;
        g.Cut(lo, hi);
        auto cut = [&](double x, double y, double v) { CutLinear(g, x, y, v, 6 * kU * std::max(std::fabs(x), std::fabs(y)) + kTiny); };
        if (s.empty()) {
          // All model.
          if (!(r.px == b.px && r.py == b.py && r.vx == b.vx && r.vy == b.vy && r.ax == b.ax && r.ay == b.ay)) Fail("first-result-not-model", "%s: nothing has been sampled, but result %zu is %s, the model gives %s", os.c_str(), j, ResStr(r).c_str(), ResStr(b).c_str());
        } else {
          cut(a.px, b.px, r.px);
          cut(a.py, b.py, r.py);
          cut(a.vx, b.vx, r.vx);
          cut(a.vy, b.vy, r.vy);
          cut(a.ax, b.ax, r.ax);
          cut(a.ay, b.ay, r.ay);
          g_stats->nontrivial = 1;
          if (g.empty()) Fail(op.k == OP_PREDICT ? "predicted-blend" : "blend", "%s: result %zu is %s; with %zu speed samples the blend of %s and %s needs a strength within [%.9g, %.9g]", os.c_str(), j, ResStr(r).c_str(), s.size(), ResStr(a).c_str(), ResStr(b).c_str(), lo, hi);
          if (!(r.t == b.t)) Fail("blend-time", "%s: result %zu at %.17g, the model gives %.17g", os.c_str(), j, r.t, b.t);
          // The raw side: the projection of the model's tip onto the smoothed inputs.
          if (sane) {
            bool ok = false, dull = false;
            std::vector<Cand> all;
            for (int fr = cur.f_lo; fr <= cur.f_hi && !ok; ++fr) {
              std::vector<Cand> cs;
              if (!Places(p, f.recs, fr, k, b, prev, cs)) { dull = true; break; }
              for (const Cand& x : cs) if (FieldsMatch(f.recs, x, a, kn, true)) { ok = true; break; }
              all.insert(all.end(), cs.begin(), cs.end());
            }
            if (dull) ++g_stats->skipped;
            else if (!ok) Fail("projection", "%s: with full mitigation result %zu is %s; the model's tip %s projects to%s", os.c_str(), j, ResStr(a).c_str(), ResStr(b).c_str(), CandStr(f.recs, all).c_str());
            // and the stylus values are those of the projection
            if (!dull && (kn.p || kn.ti || kn.o)) {
              auto same = [](double x, double y) { return std::fabs(x - y) <= 8 * kU * std::max(std::fabs(x), std::fabs(y)); };
              if (!same(r.p, a.p) || !same(r.ti, a.ti) || std::fabs(std::remainder((double)r.o - a.o, kTwoPi)) > 1e-5) Fail("blend-stylus", "%s: result %zu is %s, the projection has %s", os.c_str(), j, ResStr(r).c_str(), ResStr(a).c_str());
            }
          }
        }
      }
      s.push_back({std::hypot((double)r.vx, (double)r.vy), b.t});
      if (!fin) { sane = false; ++g_stats->skipped; }
      if (!std::isfinite(s.back().v)) return;
      prev = {b.t};
    }
    if (op.k == OP_UPDATE) {
      cur.n_speed = static_cast<int>(ss.size());
    } else {
      s.resize(base);
      first[op.inst] = base_first;
    }
  }
}
