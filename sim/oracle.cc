// Oracles.  Each decides one property over the recorded history of one simulated run.
#include "oracle.h"

#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstring>
#include "ref.h"

#include <cstdarg>
#include <map>

Stats* g_stats = nullptr;
// Probe slots are shared by all runs of an exploration, whatever order they are reached in.
extern char (*g_probe_table)[96];
int ProbeId(const char* name) {
  for (int i = 0; i < NPROBE - 1; ++i) {
    if (!g_probe_table[i][0]) strncpy(g_probe_table[i], name, 95);
    if (!strcmp(g_probe_table[i], name)) return i;
  }
  return NPROBE - 1;
}
void Fail(const std::string& cls, const char* fmt, ...) {
  char b[3500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  throw Violation{cls, b};
}

void Proto::Apply(const Op& op, bool ok) {
  switch (op.k) {
    case OP_RESETP:
      if (!ok) return;
      init = true;
      par = op.par;
      stroke = false; eff.clear(); saved = false;
      break;
    case OP_RESET:
      if (!ok) return;
      stroke = false; eff.clear(); saved = false;
      break;
    case OP_UPDATE:
      if (!ok) return;
      if (op.in.type == DOWN) { eff.clear(); stroke = true; saved = false; }
      eff.push_back(op.in);
      if (op.in.type == UP) stroke = false;
      break;
    case OP_SAVE:
      saved = true; s_stroke = stroke; s_eff = eff;
      break;
    case OP_RESTORE:
      if (saved) { stroke = s_stroke; eff = s_eff; }
      break;
  }
}

static int Bucket(size_t n) {
  int b = 0;
  while (n) { ++b; n >>= 1; }
  return b;
}

Runner::Runner(const Trace& t, unsigned char pattern, bool fresh, bool nt)
    : tr(t), s(t.n_inst, pattern, fresh), proto(t.n_inst), gram(t.n_inst * 2, 0), note(nt) {}
Call Runner::Do(const Op& op) {
  Call c = s.Do(op, tr.params);
  if (c.code == ST_EXCEPTION) {
    extern std::string g_exception_text;
    Fail("exception", "%s threw: %s", kKindNames[op.k], g_exception_text.c_str());
  }
  if (c.code == ST_BADALLOC && op.alloc < 0) Fail("exception", "%s threw bad_alloc (no allocation was made to fail)", kKindNames[op.k]);
  Proto& p = proto[op.inst];
  bool was_saved = p.saved, was_stroke = p.stroke;
  p.Apply(op, c.ok());
  if (note) {
    Stats& st = *g_stats;
    ++st.ops;
    if (c.ok()) ++st.accepted; else ++st.refused;
    if (op.k == OP_PREDICT && c.ok()) ++st.predictions;
    st.results += c.out.size();
    if (op.fault) ++st.faults[op.fault];
    uint64_t h = 17;
    h = HashMix(h, op.k * 64 + (op.k == OP_UPDATE ? std::clamp(op.in.type, -1, 3) : 9));
    h = HashMix(h, c.code);
    h = HashMix(h, op.fault);
    h = HashMix(h, (was_saved ? 2 : 0) + (was_stroke ? 1 : 0));
    h = HashMix(h, Bucket(c.out.size()));
    if (p.par >= 0) {
      const Par& q = tr.params[p.par];
      h = HashMix(h, q.kind() * 8 + q.wob() * 4 + q.norm() * 2 + q.loop());
      h = HashMix(h, std::min<size_t>(Bucket(p.eff.size()), 8));
    }
    uint64_t* g = &gram[op.inst * 2];
    uint64_t tri = HashMix(HashMix(h, g[0]), g[1]);
    g[1] = g[0];
    g[0] = h;
    if (st.n_states < MAXSTATES) st.states[st.n_states++] = tri;
    // outcome hash: everything observable
    uint64_t o = HashMix(st.outcome_hash, c.code);
    for (const Res& r : c.out) {
      float f[9] = {r.px, r.py, r.vx, r.vy, r.ax, r.ay, r.p, r.ti, r.o};
      o = HashMix(o, HashBytes(f, sizeof f));
      o = HashMix(o, HashBytes(&r.t, 8));
    }
    st.outcome_hash = o;
  }
  return c;
}

static std::string OpStr(const Trace& t, size_t i) {
  const Op& o = t.ops[i];
  std::string s = "call " + std::to_string(i) + " (" + kKindNames[o.k];
  if (o.k == OP_UPDATE) s += " " + InStr(o.in);
  if (o.k == OP_RESETP) s += " params " + std::to_string(o.par);
  return s + ", modeler " + std::to_string(o.inst) + ")";
}
static void CheckBuffers(const Trace& t, size_t i, const Call& c) {
  if (!c.prefix_ok) Fail("buffer-prefix", "%s altered results already in the caller's buffer", OpStr(t, i).c_str());
  if (!c.buffer_ok)
    Fail("buffer-on-error", "%s failed but left %zu results in the caller's buffer", OpStr(t, i).c_str(), c.out.size());
}

// ------------------------------------------------------------------ C01
static bool InputFinite(const In& i) { return std::isfinite(i.x) && std::isfinite(i.y) && std::isfinite(i.t); }
// Tri-state: 0 must not be refused for distance, 1 must be refused, 2 undecided.
static int TooFar(const Par& p, const In& last, const In& in, bool tip_known, const Res& tip) {
  double dt = in.t - last.t;
  float fdt = static_cast<float>(dt);
  double x = static_cast<double>(fdt) * p[SP_RATE];
  double n = std::ceil(x), nlo = std::ceil(x * (1 - 1e-6)), nhi = std::ceil(x * (1 + 1e-6));
  double lim = p[SP_MAXOUT];
  int r;
  if (std::min(n, nlo) > lim) return 1;
  r = std::max(n, nhi) > lim ? 2 : 0;
  if (!tip_known) {
    // Positions and velocities of blended results say little about the internal state.
    bool mild = std::fabs(in.x) < 1e6 && std::fabs(in.y) < 1e6 && std::fabs(tip.px) < 1e6 && std::fabs(tip.py) < 1e6 && std::fabs(tip.vx) < 1e9 && std::fabs(tip.vy) < 1e9 && p[PM_MASS] > 1e-9 && dt < 1e6;
    // An unstable spring may have blown up behind the blend.
    if (!mild || p[SP_ANGLE] != -1 || StableRho(p, 1 / p[SP_RATE]) > 1) return 2;
    return r;
  }
  if (!std::isfinite(tip.px) || !std::isfinite(tip.py) || !std::isfinite(tip.vx) || !std::isfinite(tip.vy)) return 2;
  double dx = static_cast<double>(in.x) - tip.px, dy = static_cast<double>(in.y) - tip.py;
  double m = std::max({std::fabs(dx), std::fabs(dy), std::fabs(dx / p[PM_MASS]), std::fabs(dy / p[PM_MASS]), std::fabs(dx / p[PM_MASS] * dt), std::fabs(dy / p[PM_MASS] * dt)});
  double ex = tip.vx + dx / p[PM_MASS] * dt, ey = tip.vy + dy / p[PM_MASS] * dt;
  if (std::max(std::fabs(ex), std::fabs(ey)) > 1e40) return 1;
  if (m > 1e37 || std::max(std::fabs(ex), std::fabs(ey)) > 1e37) return 2;
  if (p[SP_ANGLE] != -1) {
    double ma = std::hypot(tip.vx, tip.vy), mb = std::hypot(ex, ey);
    if (ma < 1e-30 || mb < 1e-30) return std::max(r, ma == 0 && mb == 0 ? 0 : 2);
    double dot = std::clamp((tip.vx / ma) * (ex / mb) + (tip.vy / ma) * (ey / mb), -1., 1.);
    // acos is ill-conditioned at +-1: bound it from both sides
    double alo = std::acos(std::min(1., dot + 1e-6)), ahi = std::acos(std::max(-1., dot - 1e-6));
    if (std::ceil(alo * .9999 / p[SP_ANGLE]) > lim) return 1;
    if (std::ceil(ahi * 1.0001 / p[SP_ANGLE]) > lim) r = 2;
  }
  return r;
}
static void CheckC01(const Trace& t) {
  Runner run(t, 0xA5);
  struct Extra { Res tip{}; bool have = false; Res s_tip{}; };
  std::vector<Extra> ex(t.n_inst);
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    Proto pr = run.proto[op.inst];
    Call c = run.Do(op);
    Extra& e = ex[op.inst];
    ++g_stats->checks;
    if (op.k == OP_SAVE) e.s_tip = e.tip;
    if (op.k == OP_RESTORE && pr.saved) e.tip = e.s_tip;
    if (op.k == OP_RESETP) {
      bool sure, v = ParValid(t.params[op.par], &sure);
      if (!sure) { ++g_stats->skipped; continue; }
      if (v != c.ok()) Fail(v ? "valid-params-refused" : "invalid-params-accepted", "%s returned code %d but the parameters are %s", OpStr(t, i).c_str(), c.code, v ? "valid" : "invalid");
      if (!v && c.code != ST_INVALID) Fail("wrong-code", "%s: invalid parameters reported with code %d", OpStr(t, i).c_str(), c.code);
      if (!v) PROBE("invalid parameters refused");
    } else if (op.k == OP_RESET) {
      if (c.ok() != pr.init) Fail("reset", "%s returned code %d while %sinitialised", OpStr(t, i).c_str(), c.code, pr.init ? "" : "not ");
      if (!c.ok() && c.code != ST_PRECOND) Fail("wrong-code", "%s: code %d", OpStr(t, i).c_str(), c.code);
    } else if (op.k == OP_PREDICT) {
      bool want = pr.init && pr.stroke && t.params[pr.par].kind() != PRED_NONE;
      if (c.ok() != want) Fail(want ? "predict-refused" : "predict-accepted", "%s returned code %d; init=%d stroke=%d predictor=%d", OpStr(t, i).c_str(), c.code, pr.init, pr.stroke, pr.init ? t.params[pr.par].kind() : -1);
      if (!want && c.code != ST_PRECOND) Fail("wrong-code", "%s: code %d", OpStr(t, i).c_str(), c.code);
      if (!want) PROBE("impossible prediction refused");
    } else if (op.k == OP_UPDATE) {
      const In& in = op.in;
      bool pre = false, inv = false, maybe = false;  // violated rules, by code
      if (!pr.init) pre = true;
      if (in.type < 0 || in.type > 2) inv = true;
      if (!InputFinite(in)) inv = true;
      bool known = in.type >= 0 && in.type <= 2;
      if (pr.init && known) {
        if (in.type == DOWN && pr.stroke) pre = true;
        if (in.type != DOWN && !pr.stroke) pre = true;
      }
      if (pr.init && pr.stroke && InputFinite(in)) {
        const In& l = pr.eff.back();
        bool eq = in.type == l.type && in.x == l.x && in.y == l.y && in.t == l.t && in.p == l.p && in.ti == l.ti && in.o == l.o;
        if (eq && SameIn(in, l)) { inv = true; PROBE("duplicate delivered"); }
        else if (eq) maybe = true;
        else if (SameF(in.x, l.x) && SameF(in.y, l.y) && in.t == l.t && in.type == l.type && SameF(in.p, l.p) && SameF(in.ti, l.ti) && SameF(in.o, l.o)) maybe = true;
        if (in.t < l.t) { inv = true; PROBE("backward time delivered"); }
        if (!inv && known && in.type != DOWN) {
          int f = TooFar(t.params[pr.par], l, in, !t.params[pr.par].loop(), e.tip);
          if (f == 1) { inv = true; PROBE("too distant event delivered"); }
          if (f == 2) maybe = true;
        }
      }
      bool want = !pre && !inv;
      if (want && !maybe && !c.ok()) Fail("wellformed-refused", "%s was refused with code %d although the protocol allows it", OpStr(t, i).c_str(), c.code);
      if (!want && c.ok()) Fail("malformed-accepted", "%s was accepted although the protocol forbids it", OpStr(t, i).c_str());
      if (!c.ok() && !(pre && inv)) {
        if (pre && !maybe && c.code != ST_PRECOND) Fail("wrong-code", "%s: failed precondition reported with code %d", OpStr(t, i).c_str(), c.code);
        if (!pre && c.code != ST_INVALID) Fail("wrong-code", "%s: invalid input reported with code %d", OpStr(t, i).c_str(), c.code);
      }
      if (!c.ok() && c.code != ST_PRECOND && c.code != ST_INVALID) Fail("wrong-code", "%s: code %d", OpStr(t, i).c_str(), c.code);
      if (!want) { g_stats->nontrivial = 1; }
      if (c.ok() && !c.out.empty()) e.tip = c.out.back();
    }
  }
}

// ------------------------------------------------------------------ C02
static void CheckC02(const Trace& t) {
  Runner run(t, 0xA5);
  std::vector<Call> recs;
  for (size_t i = 0; i < t.ops.size(); ++i) {
    recs.push_back(run.Do(t.ops[i]));
    CheckBuffers(t, i, recs.back());
  }
  bool any = false;
  Runner twin(t, 0x5A, true, false);
  size_t last_failed = 0;
  for (size_t i = 0; i < t.ops.size(); ++i) {
    if (!recs[i].ok()) { any = true; last_failed = i; continue; }
    Call c = twin.Do(t.ops[i]);
    ++g_stats->checks;
    std::string why;
    if (!SameCall(recs[i], c, &why))
      Fail("trace-of-refused-call", "%s differs from the same call in a history without the refused calls (last refused: %s): %s", OpStr(t, i).c_str(), OpStr(t, last_failed).c_str(), why.c_str());
    if (any && t.ops[i].k == OP_UPDATE && t.ops[i].in.type != DOWN) g_stats->nontrivial = 1;
  }
  ++g_stats->twins;
  if (!any) return;
  // A trace may show only in what is refused later, and then the twin above, which makes no refused
  // call at all, cannot see it.  So some refused calls are kept, and have to be refused the same way.
  for (int mode = 0; mode < 3; ++mode) {
    Runner part(t, 0x5A, true, false);
    bool dropped = false;
    size_t at = 0;
    for (size_t i = 0; i < t.ops.size(); ++i) {
      bool pred = t.ops[i].k == OP_PREDICT;
      bool keep = recs[i].ok() || (mode == 0 ? pred : mode == 1 ? !pred : HashMix(i, t.seed) % 2 == 0);
      if (!keep) { dropped = true; at = i; continue; }
      Call c = part.Do(t.ops[i]);
      ++g_stats->checks;
      std::string why;
      if (dropped && !SameCall(recs[i], c, &why))
        Fail("trace-of-refused-call", "%s differs from the same call in a history without some of the refused calls (last one left out: %s): %s", OpStr(t, i).c_str(), OpStr(t, at).c_str(), why.c_str());
      if (dropped && !recs[i].ok()) PROBE("refused call compared with a history without some earlier refused calls");
    }
    ++g_stats->twins;
  }
}

// Rebuilds, on a fresh modeler, the state the protocol says is in effect.
static std::unique_ptr<Runner> Rebuild(const Trace& one, const Proto& p, unsigned char pattern, Res* last = nullptr) {
  auto r = std::make_unique<Runner>(one, pattern, true, false);
  ++g_stats->twins;
  if (!p.init) return r;
  Op o;
  o.k = OP_RESETP;
  o.par = p.par;
  r->Do(o);
  for (const In& in : p.eff) {
    Op u;
    u.k = OP_UPDATE;
    u.in = in;
    Call c = r->Do(u);
    if (!c.ok()) Fail("replay-refused", "an input accepted earlier (%s) is refused (code %d) when the same stroke is replayed on a fresh modeler", InStr(in).c_str(), c.code);
    if (last && !c.out.empty()) *last = c.out.back();
  }
  return r;
}
static Op On0(Op o) { o.inst = 0; o.buf = 0; return o; }
static Trace OneInst(const Trace& t) {
  Trace o;
  o.params = t.params;
  o.n_inst = 1;
  return o;
}

// ------------------------------------------------------------------ C03
static void CheckC03(const Trace& t) {
  Runner run(t, 0xA5);
  std::vector<Call> recs;
  Trace one = OneInst(t);
  size_t npred = 0;
  for (const Op& o : t.ops) npred += o.k == OP_PREDICT;
  size_t every = std::max<size_t>(1, npred / 8), k = 0;
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    recs.push_back(run.Do(op));
    if (op.k == OP_PREDICT && recs.back().ok() && k++ % every == 0) {
      auto twin = Rebuild(one, run.proto[op.inst], 0x33);
      Call c = twin->Do(On0(op));
      ++g_stats->checks;
      std::string why;
      if (!SameCall(recs.back(), c, &why)) Fail("prediction-not-function-of-stroke", "%s differs from the prediction of a fresh modeler given the same inputs of this stroke: %s", OpStr(t, i).c_str(), why.c_str());
      if (!c.out.empty()) PROBE("non-empty prediction compared with fresh modeler");
    }
  }
  // Without any prediction.
  Runner none(t, 0x5A, true, false);
  bool seen = false;
  for (size_t i = 0; i < t.ops.size(); ++i) {
    if (t.ops[i].k == OP_PREDICT) { seen = seen || recs[i].ok(); continue; }
    Call c = none.Do(t.ops[i]);
    ++g_stats->checks;
    std::string why;
    if (!SameCall(recs[i], c, &why)) Fail("prediction-disturbs", "%s differs from the same call in a history without predictions: %s", OpStr(t, i).c_str(), why.c_str());
    if (seen && t.ops[i].k == OP_UPDATE && t.ops[i].in.type != DOWN && c.ok()) g_stats->nontrivial = 1;
  }
  // With predictions doubled, and more of them in between.
  Runner more(t, 0x00, true, false);
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    Op extra = op;
    extra.k = OP_PREDICT;
    extra.buf = 0;
    extra.alloc = -1;
    if (HashMix(i, t.seed) % 3 == 0) more.Do(extra);
    Call c = more.Do(op);
    ++g_stats->checks;
    std::string why;
    if (!SameCall(recs[i], c, &why)) Fail("prediction-disturbs", "%s differs from the same call in a history with more predictions: %s", OpStr(t, i).c_str(), why.c_str());
    if (op.k == OP_PREDICT) {
      Call d = more.Do(op);
      if (!SameCall(c, d, &why)) Fail("prediction-not-repeatable", "%s repeated at once gives something else: %s", OpStr(t, i).c_str(), why.c_str());
    }
  }
  g_stats->twins += 2;
}

// ------------------------------------------------------------------ C04
static void CheckC04(const Trace& t) {
  Runner run(t, 0xA5);
  Trace one = OneInst(t);
  std::vector<std::unique_ptr<Runner>> twin(t.n_inst);
  for (auto& x : twin) x = std::make_unique<Runner>(one, 0x5A, true, false);
  int rebuilt = 0;
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    Proto before = run.proto[op.inst];
    Call c = run.Do(op);
    if (op.k == OP_SAVE) continue;
    if (op.k == OP_RESTORE) {
      if (before.saved) {
        const Proto& p = run.proto[op.inst];
        if (rebuilt < 40) {
          twin[op.inst] = Rebuild(one, p, rebuilt & 1 ? 0x5A : 0x11);
          ++rebuilt;
        } else {
          return;
        }
        g_stats->nontrivial = 1;
        if (before.eff.size() != p.eff.size()) PROBE("restore undid inputs");
        if (before.stroke != p.stroke) PROBE("restore undid the end of a stroke");
      } else {
        PROBE("restore without a save for this stroke");
      }
      continue;
    }
    Call d = twin[op.inst]->Do(On0(op));
    ++g_stats->checks;
    std::string why;
    if (!SameCall(c, d, &why)) Fail("restore-differs", "%s differs from a modeler that never received the undone inputs: %s", OpStr(t, i).c_str(), why.c_str());
  }
}

// ------------------------------------------------------------------ fresh processes
static bool WriteAll(int fd, const void* p, size_t n) {
  const char* c = static_cast<const char*>(p);
  while (n) {
    ssize_t k = write(fd, c, n);
    if (k <= 0) return false;
    c += k;
    n -= k;
  }
  return true;
}
static bool ReadN(int fd, void* p, size_t n) {
  char* c = static_cast<char*>(p);
  while (n) {
    ssize_t k = read(fd, c, n);
    if (k <= 0) return false;
    c += k;
    n -= k;
  }
  return true;
}
static std::string ReadAll(int fd) {
  std::string s;
  char b[65536];
  ssize_t k;
  while ((k = read(fd, b, sizeof b)) > 0) s.append(b, k);
  return s;
}
Elsewhere::Elsewhere() {
  signal(SIGPIPE, SIG_IGN);
  int a[2], b[2];
  if (pipe(a) || pipe(b)) return;
  pid_ = fork();
  if (pid_ < 0) return;
  if (pid_ == 0) {
    close(a[1]);
    close(b[0]);
    Trace t;
    uint64_t len = 0;
    std::string text;
    if (!ReadN(a[0], &len, sizeof len) || len == 0) _exit(0);
    text.resize(len);
    if (!ReadN(a[0], text.data(), len) || !TraceFromText(text, &t)) _exit(0);
    Session s(t.n_inst, 0x5A, true);
    for (const Op& op : t.ops) {
      Call c = s.Do(op, t.params);
      uint64_t h[2] = {static_cast<uint64_t>(c.code), c.out.size()};
      if (!WriteAll(b[1], h, sizeof h) || !WriteAll(b[1], c.out.data(), c.out.size() * sizeof(Res))) _exit(1);
    }
    _exit(0);
  }
  close(a[0]);
  close(b[1]);
  to_ = a[1];
  from_ = b[0];
}
Elsewhere::~Elsewhere() {
  // Not just closed: processes made later hold copies of the pipe.
  uint64_t none = 0;
  if (to_ >= 0) {
    WriteAll(to_, &none, sizeof none);
    close(to_);
  }
  if (from_ >= 0) close(from_);
  if (pid_ > 0) waitpid(pid_, nullptr, 0);
}
bool Elsewhere::Run(const Trace& t, std::vector<Call>* out) {
  out->clear();
  if (pid_ <= 0) return false;
  std::string text = TraceToText(t);
  uint64_t len = text.size();
  bool ok = WriteAll(to_, &len, sizeof len) && WriteAll(to_, text.data(), text.size());
  close(to_);
  to_ = -1;
  std::string r = ReadAll(from_);
  size_t pos = 0;
  while (pos + 16 <= r.size()) {
    uint64_t h[2];
    memcpy(h, r.data() + pos, 16);
    pos += 16;
    if (h[1] > (r.size() - pos) / sizeof(Res)) return false;
    Call c;
    c.code = static_cast<int>(h[0]);
    c.out.resize(h[1]);
    memcpy(c.out.data(), r.data() + pos, h[1] * sizeof(Res));
    pos += h[1] * sizeof(Res);
    out->push_back(c);
  }
  return ok && out->size() == t.ops.size();
}

// ------------------------------------------------------------------ C05
static void CheckC05(const Trace& t) {
  Elsewhere other;
  Runner run(t, 0xA5);
  Trace one = OneInst(t);
  // The last stroke of the last modeler, for a process that has seen nothing else.
  Trace last = one;
  last.ops.clear();
  std::vector<Call> last_calls;
  int last_inst = -1, last_stroke = 0;
  std::vector<std::unique_ptr<Runner>> twin(t.n_inst);
  std::vector<int> strokes(t.n_inst, 0);
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    Proto before = run.proto[op.inst];
    Call c = run.Do(op);
    auto& tw = twin[op.inst];
    if (op.k == OP_UPDATE && op.in.type == DOWN && c.ok()) {
      Proto p;
      p.init = true;
      p.par = before.par;
      if (!before.init) Fail("uninitialised", "%s was accepted before initialisation", OpStr(t, i).c_str());
      tw = Rebuild(one, p, strokes[op.inst] & 1 ? 0x5A : 0x11);
      if (strokes[op.inst]++) g_stats->nontrivial = 1;
      last_inst = op.inst;
      last_stroke = strokes[op.inst];
      last.ops.assign(1, Op());
      last.ops[0].k = OP_RESETP;
      last.ops[0].par = before.par;
      last_calls.assign(1, Call());
    }
    if (op.inst == last_inst) {
      last.ops.push_back(On0(op));
      last_calls.push_back(c);
    }
    if (!tw) continue;
    Call d = tw->Do(On0(op));
    ++g_stats->checks;
    std::string why;
    if (!SameCall(c, d, &why)) Fail("stroke-not-fresh", "%s (stroke %d of this modeler) differs from a fresh modeler that only saw this stroke: %s", OpStr(t, i).c_str(), strokes[op.inst], why.c_str());
  }
  if (last_inst < 0) return;
  std::vector<Call> fresh;
  ++g_stats->twins;
  bool complete = other.Run(last, &fresh);
  for (size_t i = 0; i < fresh.size(); ++i) {
    std::string why;
    ++g_stats->checks;
    if (!SameCall(last_calls[i], fresh[i], &why)) Fail("stroke-not-fresh", "call %zu of stroke %d of modeler %d differs from a process that only saw this stroke: %s", i, last_stroke, last_inst, why.c_str());
  }
  if (!complete) Fail("stroke-not-fresh", "stroke %d of modeler %d fails in a process that only sees this stroke", last_stroke, last_inst);
}

// ------------------------------------------------------------------ C06
static void CheckC06(const Trace& t) {
  Runner run(t, 0xA5);
  std::vector<Call> recs;
  for (size_t i = 0; i < t.ops.size(); ++i) {
    recs.push_back(run.Do(t.ops[i]));
    CheckBuffers(t, i, recs.back());
    if (t.ops[i].buf != 0 && recs.back().ok() && !recs.back().out.empty()) g_stats->nontrivial = 1;
  }
  Runner twin(t, 0x5A, true, false);
  for (size_t i = 0; i < t.ops.size(); ++i) {
    Call c = twin.Do(t.ops[i]);
    ++g_stats->checks;
    std::string why;
    if (!SameCall(recs[i], c, &why)) Fail("depends-on-buffer", "%s (buffer mode %d) gives other results than with an empty buffer: %s", OpStr(t, i).c_str(), t.ops[i].buf, why.c_str());
  }
  ++g_stats->twins;
}

// ------------------------------------------------------------------ C09
static double Ulp(double a) { return std::nextafter(std::fabs(a), INFINITY) - std::fabs(a); }
// How many results the limit on the estimated change of direction asks for, at least and at most.
// False when it cannot be told.
static bool AngleSteps(const Par& p, const Res& tip, const In& in, double fdt, double* lo, double* hi) {
  double M = p[PM_MASS], ex = tip.vx + (static_cast<double>(in.x) - tip.px) / M * fdt, ey = tip.vy + (static_cast<double>(in.y) - tip.py) / M * fdt;
  double ma = std::hypot(tip.vx, tip.vy), mb = std::hypot(ex, ey);
  double err = 1e-6 * (std::fabs(tip.vx) + std::fabs(tip.vy) + (std::fabs(in.x) + std::fabs(tip.px) + std::fabs(in.y) + std::fabs(tip.py)) / M * fdt);
  *lo = *hi = 0;
  if (tip.vx == 0 && tip.vy == 0) return true;
  if (!(ma > 1e-15) || !(mb > 1e-15) || !(mb > 10 * err) || !(std::max(ma, mb) < 1e15)) return false;
  double ang = std::fabs(std::atan2(tip.vx * ey - tip.vy * ex, tip.vx * ex + tip.vy * ey)), de = 2 * err / mb;
  double a0 = std::max(0., ang - de), a1 = std::min(ang + de, 3.14159265358979);
  // the cosine is rounded before it is turned into an angle
  a0 = std::acos(std::min(1., std::cos(a0) + 1e-6));
  a1 = std::acos(std::max(-1., std::cos(a1) - 1e-6));
  *lo = std::ceil(a0 * (1 - 1e-6) / p[SP_ANGLE]);
  *hi = std::ceil(a1 * (1 + 1e-6) / p[SP_ANGLE]);
  return true;
}
static void CheckC09(const Trace& t) {
  Runner run(t, 0xA5);
  struct S { double last = 0; double s_last = 0; Res tip{}, s_tip{}; };
  std::vector<S> st(t.n_inst);
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    Proto before = run.proto[op.inst];
    Call c = run.Do(op);
    S& s = st[op.inst];
    if (op.k == OP_SAVE) s.s_last = s.last, s.s_tip = s.tip;
    if (op.k == OP_RESTORE && before.saved) s.last = s.s_last, s.tip = s.s_tip;
    if (!c.ok() || (op.k != OP_UPDATE && op.k != OP_PREDICT)) continue;
    const Res tip = s.tip;
    if (op.k == OP_UPDATE && !c.out.empty()) s.tip = c.out.back();
    const Par& p = t.params[before.par];
    double step = 1 / p[SP_RATE];
    std::string os = OpStr(t, i);
    ++g_stats->checks;
    if (op.k == OP_UPDATE && op.in.type == DOWN) {
      if (c.out.size() != 1) Fail("down-count", "%s gave %zu results", os.c_str(), c.out.size());
      if (c.out[0].t != op.in.t) Fail("down-time", "%s: result time %.17g", os.c_str(), c.out[0].t);
      s.last = c.out[0].t;
      continue;
    }
    // Tolerances: rounding of absolute times, and the relative rounding of the step count.
    double big = std::max(std::fabs(s.last), op.k == OP_UPDATE ? std::fabs(op.in.t) : std::fabs(s.last));
    for (auto& r : c.out) big = std::max(big, std::isfinite(r.t) ? std::fabs(r.t) : 0);
    double eps = 8 * Ulp(big) + step * 3e-6;
    // times are interpolated with a single-precision ratio
    if (op.k == OP_UPDATE && std::isfinite(op.in.t - s.last)) eps += std::fabs(op.in.t - before.eff.back().t) * 3e-7;
    if (op.k == OP_PREDICT && !c.out.empty() && std::isfinite(c.out.back().t)) eps += std::fabs(c.out.back().t - s.last) * 3e-7;
    double prev = s.last;
    const char* what = op.k == OP_PREDICT ? "prediction" : "update";
    size_t j = 0;
    for (const Res& r : c.out) {
      if (!(r.t >= prev)) Fail("time-decreases", "%s: %s result %zu at time %.17g after %.17g", os.c_str(), what, j, r.t, prev);
      if (!(r.t - prev <= step + eps)) Fail("gap-too-long", "%s: %s result %zu at %.17g comes %.9g after the previous one; 1/min_output_rate is %.9g", os.c_str(), what, j, r.t, r.t - prev, step);
      prev = r.t;
      ++j;
    }
    if (op.k == OP_PREDICT) { if (!c.out.empty()) PROBE("prediction times checked"); continue; }
    if (c.out.empty()) Fail("no-result", "%s was accepted but gave no result", os.c_str());
    const In& last = before.eff.back();
    double dt = op.in.t - last.t;
    float fdt = static_cast<float>(dt);
    double x = static_cast<double>(fdt) * p[SP_RATE];
    double nlo = std::ceil(x * (1 - 3e-7)), nhi = std::ceil(x * (1 + 3e-7));
    // Results up to the input's own time.
    size_t own = 0;
    double teps = 8 * Ulp(big) + (std::isfinite(dt) ? std::fabs(dt) * 4e-7 : 0);
    bool reached = false;
    if (op.in.type == MOVE) {
      own = c.out.size();
      reached = std::fabs(c.out.back().t - op.in.t) <= teps;
      if (!reached) Fail("move-time", "%s: the last result is at %.17g", os.c_str(), c.out.back().t);
    } else {
      for (auto& r : c.out) if (r.t <= op.in.t + teps) ++own;
      if (own > 0 && std::fabs(c.out[own - 1].t - op.in.t) <= teps) reached = true;
      if (dt > 2 * teps && !reached) Fail("up-time", "%s: no result at the input's own time", os.c_str());
    }
    bool precise = !(op.in.type == UP && step * 1e-5 < teps);
    double alo = 0, ahi = 0;
    if (p[SP_ANGLE] != -1 && (p.loop() || !FiniteRes(tip) || !AngleSteps(p, tip, op.in, fdt, &alo, &ahi))) precise = false;
    if (op.in.type == UP && c.out.size() > own) {
      // tiny end-of-stroke steps could be mistaken for results at the input's time
      if (c.out[own].t - op.in.t < 4 * teps) precise = false;
    }
    if (op.in.type == UP) {
      size_t k = 0;
      for (size_t q = 0; q < own; ++q) if (c.out[q].t > op.in.t - teps) ++k;
      if (k > 1) precise = false;
    }
    if (precise) {
      double lo = std::max(nlo, fdt > 0 ? 1. : 0.), hi = std::max(nhi, 0.);
      if (op.in.type == MOVE || fdt > 0) { lo = std::max(lo, 1.); hi = std::max(hi, 1.); }
      if (op.in.type == UP && fdt == 0) { lo = 0; hi = 1; }
      if (alo > lo) PROBE("more results because of a sharp turn");
      lo = std::max(lo, alo);
      hi = std::max(hi, ahi);
      if (own < lo || own > hi)
        Fail("result-count", "%s: %zu results up to its time; the rate and the change of direction call for %g..%g (dt=%.9g)", os.c_str(), own, lo, hi, dt);
      if (dt > 0 && own > 1) {
        for (size_t q = 0; q < own; ++q) {
          double want = last.t + dt * (q + 1) / own;
          if (std::fabs(c.out[q].t - want) > teps) Fail("uneven-times", "%s: result %zu of %zu at %.17g instead of %.17g", os.c_str(), q, own, c.out[q].t, want);
        }
        PROBE("upsampled input");
      }
      if (dt > 0 && x < .999) PROBE("input faster than output rate");
      if (dt == 0) PROBE("equal timestamps");
    }
    s.last = c.out.back().t;
    g_stats->nontrivial = 1;
    if (dt > 100 * step) PROBE("gap of more than 100 output steps");
  }
}

// ------------------------------------------------------------------ C10
static bool Ordinary(const Hist& h) {
  for (const In& in : h) if (!(std::fabs(in.x) < 1e6 && std::fabs(in.y) < 1e6)) return false;
  return true;
}
static void CheckC10(const Trace& t) {
  Runner run(t, 0xA5);
  struct Tip { Res now{}, saved{}; };
  std::vector<Tip> tips(t.n_inst);
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    Proto before = run.proto[op.inst];
    Call c = run.Do(op);
    ++g_stats->checks;
    Tip& tip = tips[op.inst];
    if (op.k == OP_SAVE) tip.saved = tip.now;
    if (op.k == OP_RESTORE && before.saved) tip.now = tip.saved;
    if (op.k == OP_UPDATE && c.ok() && op.in.type != DOWN && before.stroke && InputFinite(op.in)) {
      const Par& p = t.params[before.par];
      if (TooFar(p, before.eff.back(), op.in, !p.loop(), tip.now) == 1) Fail("enormous-accepted", "%s was accepted although it needs more than the limit of %g results", OpStr(t, i).c_str(), p[SP_MAXOUT]);
    }
    if (op.k == OP_UPDATE && c.ok() && !c.out.empty()) tip.now = c.out.back();
    if (before.par < 0) continue;
    const Par& p = t.params[before.par];
    double lim = p[SP_MAXOUT], extra = p[SP_ITERS];
    if (op.k == OP_UPDATE) {
      double b = op.in.type == UP ? lim + extra : lim;
      if (c.out.size() > b) Fail("too-many-results", "%s appended %zu results; the limit is %g", OpStr(t, i).c_str(), c.out.size(), b);
      if (c.ok() && c.out.size() >= b * .5) { PROBE("more than half of the output limit used"); g_stats->nontrivial = 1; }
      if (!c.ok() && before.stroke && InputFinite(op.in) && op.in.type >= MOVE && op.in.type <= UP && op.in.t >= before.eff.back().t) {
        const In& last = before.eff.back();
        double n = std::ceil(static_cast<double>(static_cast<float>(op.in.t - last.t)) * p[SP_RATE]);
        if (n > lim) {
          PROBE("too distant input refused");
          g_stats->nontrivial = 1;
          // The stroke must be able to go on with an input near the last accepted one.
          if (p[SP_ANGLE] == -1) {
            Op probe = op;
            probe.in = last;
            probe.in.type = MOVE;
            probe.in.t = last.t + std::min(.5, lim * .5) / p[SP_RATE];
            probe.fault = 0;
            if (probe.in.t > last.t && lim >= 1 && StableRho(p, 1 / p[SP_RATE]) <= 1 &&
                Ordinary(before.eff)) {
              auto twin = Rebuild(OneInst(t), before, 0x5A);
              twin->Do(On0(op));
              Call d = twin->Do(On0(probe));
              if (!d.ok() && p[PM_MASS] > 1e-6 && p[PM_MASS] < 1e6) Fail("cannot-continue", "after the refused %s the stroke cannot go on: %s gives code %d", OpStr(t, i).c_str(), InStr(probe.in).c_str(), d.code);
            }
          }
        }
      }
    } else if (op.k == OP_PREDICT && c.ok()) {
      double b = std::max(lim, extra);
      if (c.out.size() > b) Fail("too-many-predictions", "%s returned %zu results; the limit is %g", OpStr(t, i).c_str(), c.out.size(), b);
      if (c.out.size() >= b * .5) PROBE("prediction used more than half of the limit");
    }
  }
}

// ------------------------------------------------------------------ C11
static void CheckC11(const Trace& t) {
  Runner run(t, 0xA5);
  for (const Op& op : t.ops) {
    Call c = run.Do(op);
    ++g_stats->checks;
    if (c.ok() && (op.k == OP_UPDATE || op.k == OP_PREDICT)) g_stats->nontrivial = 1;
    if (op.k == OP_UPDATE && !std::isfinite(op.in.o)) PROBE("non-finite orientation delivered");
    if (op.k == OP_UPDATE && op.in.o > 1e6) PROBE("huge orientation delivered");
  }
}

// ------------------------------------------------------------------ C12
static void CheckC12(const Trace& t) {
  Runner run(t, 0xA5);
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    Call c = run.Do(op);
    if (!c.ok() || (op.k != OP_UPDATE && op.k != OP_PREDICT)) continue;
    const Proto& p = run.proto[op.inst];
    const Par& par = t.params[p.par];
    for (int f = 0; f < 3; ++f) {
      auto in_f = [&](const In& a) { return f == 0 ? a.p : f == 1 ? a.ti : a.o; };
      auto re_f = [&](const Res& a) { return f == 0 ? a.p : f == 1 ? a.ti : a.o; };
      static const char* nm[] = {"pressure", "tilt", "orientation"};
      if (op.k == OP_UPDATE && op.in.type == DOWN) {
        float v = in_f(op.in), w = re_f(c.out[0]);
        bool missing = v < 0 || !std::isfinite(v);
        if (missing ? !(w < 0 || !std::isfinite(w)) : w != v) Fail("down-stylus", "%s: %s %.9g", OpStr(t, i).c_str(), nm[f], re_f(c.out[0]));
        continue;
      }
      const Hist::Cum& cum = p.eff.cum();
      bool unknown = cum.missing[f];
      double lo = cum.lo[f], hi = cum.hi[f];
      // Only the inputs that the parameters retain can contribute.
      if (!par.norm()) {
        size_t keep = std::min<double>(p.eff.size(), par[ST_MAX]);
        lo = INFINITY; hi = -INFINITY;
        for (size_t k = p.eff.size() - keep; k < p.eff.size(); ++k) { lo = std::min<double>(lo, in_f(p.eff[k])); hi = std::max<double>(hi, in_f(p.eff[k])); }
      }
      if (unknown) PROBE("field missing in this stroke");
      for (size_t j = 0; j < c.out.size(); ++j) {
        float v = re_f(c.out[j]);
        const Res& r = c.out[j];
        // An unstable spring may leave the range of numbers; nothing is promised about that.
        if (!std::isfinite(r.px) || !std::isfinite(r.py) || !std::isfinite(r.vx) || !std::isfinite(r.vy) || !std::isfinite(r.ax) || !std::isfinite(r.ay) || !std::isfinite(r.t)) { ++g_stats->skipped; continue; }
        ++g_stats->checks;
        if (unknown) {
          if (v != -1) Fail("unknown-not-sticky", "%s: result %zu has %s %.9g although an input of the stroke did not report it", OpStr(t, i).c_str(), j, nm[f], v);
          continue;
        }
        g_stats->nontrivial = 1;
        if (f < 2) {
          double tol = 1e-6 * std::max(std::fabs(lo), std::fabs(hi)) + 1e-30;
          if (!(v >= lo - tol && v <= hi + tol)) Fail("outside-hull", "%s: result %zu has %s %.9g outside the reported range [%.9g, %.9g]", OpStr(t, i).c_str(), j, nm[f], v, lo, hi);
        } else {
          if (!(v >= 0 && v <= 6.2831860)) Fail("orientation-range", "%s: result %zu has orientation %.9g", OpStr(t, i).c_str(), j, v);
          // It lies on the short arc between two consecutive reported values (or is one).
          bool found = p.eff.size() == 1;
          const double two_pi = 6.283185307179586;
          auto norm = [&](double a) { a = std::fmod(a, two_pi); if (a < 0) a += two_pi; return a; };
          for (size_t k = p.eff.size(); k-- > 0 && !found;) {
            if (p.eff[k].o > 100) { found = true; break; }  // float normalisation of such angles is coarse
            double a = norm(p.eff[k].o), b = norm(p.eff[std::min(k + 1, p.eff.size() - 1)].o);
            double d = std::remainder(b - a, two_pi), e = std::remainder(v - a, two_pi);
            const double tol = 2e-4;
            if (std::fabs(std::fabs(d) - 3.141592653589793) < 1e-3) { found = true; break; }
            if (d >= 0 ? (e >= -tol && e <= d + tol) : (e <= tol && e >= d - tol)) found = true;
          }
          if (p.eff.size() == 1) found = std::fabs(std::remainder(v - p.eff[0].o, two_pi)) < 2e-4 || p.eff[0].o > 100;
          if (!found) Fail("orientation-arc", "%s: result %zu has orientation %.9g, on no short arc between consecutive inputs", OpStr(t, i).c_str(), j, v);
        }
      }
    }
  }
}

// ------------------------------------------------------------------ C15
// The documented catch-up loop towards a fixed point, judged by its results out[n0..]; `prev` is the
// state it starts from, e bounds what is unknown about the point.
static void CheckCatchUp(const std::string& os, const Par& p, const std::vector<Res>& out, size_t n0, Res prev, double ex, double ey, double e) {
  size_t extra = out.size() - n0;
  if (extra > p[SP_ITERS]) Fail("too-many-steps", "%s: %zu end-of-stroke results, at most %g allowed", os.c_str(), extra, p[SP_ITERS]);
  double mag = std::max({std::fabs(ex), std::fabs(ey), std::fabs((double)prev.px), std::fabs((double)prev.py)});
  double tol = mag * 1e-6 + 2 * e;  // rounding of float positions
  double stop = p[SP_STOP];
  auto dist = [&](const Res& r) { return std::hypot((double)r.px - ex, (double)r.py - ey); };
  double d = dist(prev);
  int halvings = 0;
  double cur = 1 / p[SP_RATE];
  for (size_t j = n0; j < out.size(); ++j) {
    const Res& r = out[j];
    ++g_stats->checks;
    g_stats->nontrivial = 1;
    double mv = std::hypot((double)r.px - prev.px, (double)r.py - prev.py), dn = dist(r);
    if (!(mv >= stop - tol)) Fail("step-too-small", "%s: end-of-stroke result %zu moves %.9g, less than the stopping distance %.9g", os.c_str(), j, mv, stop);
    if (!(dn <= d + tol)) Fail("moves-away", "%s: end-of-stroke result %zu is %.9g from the end point, the previous one was %.9g", os.c_str(), j, dn, d);
    // not past the end point: the end point projects onto the far side of the step
    if (mv > 100 * tol) {
      double ratio = ((ex - prev.px) * ((double)r.px - prev.px) + (ey - prev.py) * ((double)r.py - prev.py)) / (mv * mv);
      if (!(ratio >= 1 - 1e-4 - 4 * tol / mv - 1e-6 * d / mv)) Fail("overshoot", "%s: end-of-stroke result %zu passes the end point (projection ratio %.9g)", os.c_str(), j, ratio);
    }
    if (j > n0 && dist(prev) < stop - tol) Fail("goes-on-after-arrival", "%s: result %zu follows one already %.9g from the end point", os.c_str(), j, dist(prev));
    // the time step can only be halved
    double g = r.t - prev.t;
    bool fine = Ulp(std::max(std::fabs(r.t), std::fabs(prev.t))) * 64 < cur;
    if (std::isfinite(g) && g > 0) while (g < cur * .75 && halvings < 60) {
      // and only where the longer step would have passed the end point
      double ax = (ex - prev.px) / p[PM_MASS] - p[PM_DRAG] * prev.vx, ay = (ey - prev.py) / p[PM_MASS] - p[PM_DRAG] * prev.vy;
      double nx = cur * (prev.vx + cur * ax), ny = cur * (prev.vy + cur * ay), m2 = std::hypot(nx, ny);
      double noise = std::max(tol, 1e-12) + 1e-6 * (cur * std::hypot(prev.vx, prev.vy) + cur * cur * ((std::fabs(ex - prev.px) + std::fabs(ey - prev.py)) / p[PM_MASS] + p[PM_DRAG] * std::hypot(prev.vx, prev.vy)));
      double ratio = ((ex - prev.px) * nx + (ey - prev.py) * ny) / (m2 * m2), fuzz = 8 * noise / m2 * (1 + d / m2);
      fine = fine && Ulp(std::max(std::fabs(r.t), std::fabs(prev.t))) * 64 < cur * .5;
      if (fine && ratio > 1.001 + fuzz) Fail("needless-halving", "%s: end-of-stroke result %zu comes after a time step of %.9g, although a step of %.9g does not reach the end point (projection ratio %.9g)", os.c_str(), j, g, cur, ratio);
      if (fine && m2 < stop * .999 - 8 * noise) Fail("goes-on-without-progress", "%s: end-of-stroke result %zu follows although a step of %.9g moves only %.9g", os.c_str(), j, cur, m2);
      cur *= .5;
      ++halvings;
    }
    if (fine && j - n0 + 1 + halvings > p[SP_ITERS]) Fail("too-many-steps", "%s: end-of-stroke result %zu comes after %zu results and %d halvings; at most %g steps are allowed", os.c_str(), j, j - n0, halvings, p[SP_ITERS]);
    d = dn;
    prev = r;
  }
  // Did it stop although it could go on?  Continue the documented loop from the last state.
  if (d < stop + tol) { PROBE("reached the stopping distance"); return; }
  double it = p[SP_ITERS] - extra - halvings;
  double px = prev.px, py = prev.py, vx = prev.vx, vy = prev.vy;
  bool could = false;
  double noise = std::max(tol, 1e-12);
  for (; it > 0; --it) {
    double ax = (ex - px) / p[PM_MASS] - p[PM_DRAG] * vx, ay = (ey - py) / p[PM_MASS] - p[PM_DRAG] * vy;
    double nvx = vx + cur * ax, nvy = vy + cur * ay, nx = cur * nvx, ny = cur * nvy;
    double mv = std::hypot(nx, ny);
    if (mv < stop * 1.001 + 4 * noise) break;  // no significant progress (or too close to call)
    double ratio = ((ex - px) * nx + (ey - py) * ny) / (mv * mv);
    double fuzz = 8 * noise / mv * (1 + d / mv);  // positions are rounded to floats
    if (ratio > 1.001 + fuzz) { could = true; break; }
    if (ratio > .999 - fuzz) break;  // too close to call
    cur *= .5;
  }
  // Halvings are seen in the time steps, unless the clock is too coarse for them.
  bool clear = Ulp(prev.t) * 64 < cur;
  if (could && !clear) ++g_stats->skipped;
  if (could && it > 0 && clear) Fail("stopped-early", "%s: stopped %.9g from the end point (stopping distance %.9g) after %zu results, %d halvings of at most %g iterations, although a further step was possible", os.c_str(), d, stop, extra, halvings, p[SP_ITERS]);
  if (extra + halvings >= p[SP_ITERS]) PROBE("iteration limit reached");
  if (halvings) PROBE("overshoot avoided by halving");
}
static void CheckC15(const Trace& t) {
  Runner run(t, 0xA5);
  struct S { Res tip{}; bool have = false; Res s_tip{}; };
  std::vector<S> st(t.n_inst);
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    Proto before = run.proto[op.inst];
    Call c = run.Do(op);
    S& s = st[op.inst];
    if (op.k == OP_SAVE) s.s_tip = s.tip;
    if (op.k == OP_RESTORE && before.saved) s.tip = s.s_tip;
    if (op.k != OP_UPDATE || !c.ok()) continue;
    Res prev = s.tip;
    if (!c.out.empty()) s.tip = c.out.back();
    if (op.in.type != UP) continue;
    const Par& p = t.params[before.par];
    if (p.loop()) continue;
    std::string os = OpStr(t, i);
    double dt = op.in.t - before.eff.back().t;
    double x = static_cast<double>(static_cast<float>(dt)) * p[SP_RATE];
    // First end-of-stroke result.
    size_t n0;
    if (p[SP_ANGLE] == -1) {
      double lo = std::ceil(x * (1 - 3e-7)), hi = std::ceil(x * (1 + 3e-7));
      if (lo != hi) { ++g_stats->skipped; continue; }
      n0 = static_cast<size_t>(std::ceil(x));
    } else {
      n0 = 0;
      double teps = 8 * Ulp(op.in.t) + std::fabs(dt) * 4e-7;
      while (n0 < c.out.size() && c.out[n0].t <= op.in.t + teps) ++n0;
      if (n0 < c.out.size() && c.out[n0].t - op.in.t < 64 * teps) { ++g_stats->skipped; continue; }
    }
    if (n0 > c.out.size()) { ++g_stats->skipped; continue; }
    if (n0 > 0) prev = c.out[n0 - 1];
    if (n0 == 0 && c.out.size() == 1 && c.out[0].t == prev.t) {
      // the current state, repeated
      const Res& r = c.out[0];
      if (r.px != prev.px || r.py != prev.py) Fail("up-moves-without-time", "%s: %s after %s", os.c_str(), ResStr(r).c_str(), ResStr(prev).c_str());
      n0 = 1;
    }
    if (n0 == 0 && c.out.size() == 1 && std::hypot((double)c.out[0].px - prev.px, (double)c.out[0].py - prev.py) < p[SP_STOP]) {
      // No step makes progress, but the Up has to return something.
      c.out.clear();
      PROBE("no progress possible at the end of the stroke");
    }
    CheckCatchUp(os, p, c.out, n0, prev, op.in.x, op.in.y, 0);
  }
}

// ------------------------------------------------------------------ C16
static void CheckC16(const Trace& t) {
  Runner run(t, 0xA5);
  Trace one = OneInst(t);
  std::vector<Follow> fo(t.n_inst);
  size_t n = 0;
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    Call c = run.Do(op);
    const Proto& p = run.proto[op.inst];
    Follow& f = fo[op.inst];
    if (p.par >= 0) f.Sync(p, &t.params[p.par], op.k == OP_UPDATE && c.ok() ? &c : nullptr);
    if (op.k != OP_PREDICT || !c.ok()) continue;
    const Par& par = t.params[p.par];
    if (par.kind() != PRED_END || par.loop()) continue;
    if (par.wob() || par[SP_ANGLE] != -1) {
      // An Up would not be smoothed, and might be resampled by angle: judged by the documented loop.
      const Rec& r = f.recs.back();
      bool fin = r.sane && FiniteRes(r.tip);
      for (const Res& q : c.out) fin = fin && FiniteRes(q);
      if (!fin || r.e > par[SP_STOP]) { ++g_stats->skipped; continue; }
      CheckCatchUp(OpStr(t, i), par, c.out, 0, r.tip, r.x, r.y, r.e);
      std::string w = CheckEndSteps(par, r.tip, c.out, 0, End{r.x, r.y, r.e});
      if (!w.empty()) Fail("prediction-path", "%s: stroke-end prediction, %s", OpStr(t, i).c_str(), w.c_str());
      ++g_stats->checks;
      if (par.wob()) PROBE("prediction towards the smoothed position");
      continue;
    }
    if (++n > 25) { ++g_stats->skipped; continue; }
    Res tip{};
    auto twin = Rebuild(one, p, 0x5A, &tip);
    Op up;
    up.k = OP_UPDATE;
    up.in = p.eff.back();
    up.in.type = UP;
    Call d = twin->Do(up);
    if (!d.ok()) {
      if (d.code == ST_INVALID && (std::fabs(up.in.x) > 1e15 || std::fabs(up.in.y) > 1e15 || par[PM_MASS] < 1e-12)) continue;
      Fail("up-refused", "an Up at the last input of the stroke is refused with code %d", d.code);
    }
    ++g_stats->checks;
    if (c.out.empty()) {
      PROBE("empty stroke-end prediction");
      // The Up has to return something: a state that makes no progress.
      double mv = d.out.empty() ? 0 : std::hypot((double)d.out[0].px - tip.px, (double)d.out[0].py - tip.py);
      double tol = 1e-6 * (std::fabs(tip.px) + std::fabs(tip.py) + par[SP_STOP]);
      if (d.out.size() != 1 || mv > par[SP_STOP] + tol) Fail("prediction-differs", "%s: empty, but an Up appends %zu results", OpStr(t, i).c_str(), d.out.size());
      continue;
    }
    g_stats->nontrivial = 1;
    if (c.out.size() != d.out.size()) Fail("prediction-differs", "%s: %zu results, but an Up appends %zu", OpStr(t, i).c_str(), c.out.size(), d.out.size());
    for (size_t j = 0; j < c.out.size(); ++j) {
      const Res &a = c.out[j], &b = d.out[j];
      if (!(SameF(a.px, b.px) && SameF(a.py, b.py) && SameF(a.vx, b.vx) && SameF(a.vy, b.vy) && SameF(a.ax, b.ax) && SameF(a.ay, b.ay) && SameF(a.t, b.t)))
        Fail("prediction-differs", "%s: result %zu is %s, an Up appends %s", OpStr(t, i).c_str(), j, ResStr(a).c_str(), ResStr(b).c_str());
    }
  }
}

// ------------------------------------------------------------------ C19
extern void LeakTrack(bool on);
extern long LeakOutstanding();
static void RunC19(const Trace& t, bool note) {
  Trace clean = t;
  for (Op& o : clean.ops) o.alloc = -1;
  Runner run(t, 0xA5, false, note);
  Runner ref(clean, 0x5A, true, false);
  std::vector<bool> poisoned(t.n_inst, false);
  std::vector<std::unique_ptr<Runner>> twin(t.n_inst);
  Trace one = OneInst(t);
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    uint64_t f0 = g_alloc_failures;
    Call c = run.Do(op);
    bool fired = g_alloc_failures != f0;
    if (note && fired) ++g_stats->faults[F_ALLOC];
    Op plain = op;
    plain.alloc = -1;
    auto& tw = twin[op.inst];
    if (fired && c.code != ST_BADALLOC) Fail("failure-hidden", "allocation %d of %s failed, but the caller was told %d", op.alloc, OpStr(t, i).c_str(), c.code);
    if (c.code == ST_BADALLOC) {
      poisoned[op.inst] = true;
      tw.reset();
      if (op.k == OP_UPDATE && !c.prefix_ok) Fail("buffer-prefix", "%s failed to allocate and altered earlier results in the caller's buffer", OpStr(t, i).c_str());
      continue;
    }
    if (op.k == OP_RESETP && c.ok()) {
      if (poisoned[op.inst]) PROBE("reset after failed allocation");
      poisoned[op.inst] = false;
      tw = std::make_unique<Runner>(one, 0x11, true, false);
      tw->Do(On0(plain));
      continue;
    }
    if (poisoned[op.inst] || !tw) continue;
    Call d = tw->Do(On0(plain));
    ++g_stats->checks;
    std::string why;
    if (!SameCall(c, d, &why)) Fail("after-failed-allocation", "%s differs from a modeler on which no allocation ever failed: %s", OpStr(t, i).c_str(), why.c_str());
    if (op.k == OP_UPDATE && c.ok() && g_alloc_failures) g_stats->nontrivial = 1;
  }
}
static void CheckC19(const Trace& t) {
  LeakTrack(true);
  RunC19(t, true);
  long a = LeakOutstanding();
  RunC19(t, false);
  long b = LeakOutstanding();
  LeakTrack(false);
  if (b > a) Fail("leak", "%ld blocks allocated by the library stay allocated after the modelers and buffers are gone (and grow with every repetition)", b - a);
}

// ------------------------------------------------------------------ C20
static void CheckC20(const Trace& t) {
  Runner run(t, 0xA5);
  struct S { Res tip{}; Res s_tip{}; };
  std::vector<S> st(t.n_inst);
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    Proto before = run.proto[op.inst];
    Call c = run.Do(op);
    S& s = st[op.inst];
    if (op.k == OP_SAVE) s.s_tip = s.tip;
    if (op.k == OP_RESTORE && before.saved) s.tip = s.s_tip;
    if (op.k == OP_UPDATE && c.ok() && !c.out.empty()) s.tip = c.out.back();
  }
  for (int inst = 0; inst < t.n_inst; ++inst) {
    Proto& p = run.proto[inst];
    if (!p.init) continue;
    const Par par = t.params[p.par];
    Op o;
    o.inst = inst;
    double hz = t.aux.size() > 0 ? t.aux[0] : 120, T = t.aux.size() > 1 ? t.aux[1] : 1, S = t.aux.size() > 2 ? t.aux[2] : 1;
    double idt = T / hz;
    bool regular = false;
    {
      // The number of steps must not turn on the rounding of the clock: a stiff spring that is stable
      // with one step and with two may be unstable under a mixture of both.
      double t1 = p.eff.empty() ? 0 : std::fabs(p.eff.back().t) + 1000 * idt;
      for (int k = 0; k < 30; ++k) {
        double x = idt * par[SP_RATE];
        if (std::fabs(x - std::round(x)) > 1e-5 * x + 4 * UlpD(t1) * par[SP_RATE]) { regular = true; break; }
        idt *= .9987;
      }
    }
    double n = std::ceil(idt * par[SP_RATE] * (1 - 1e-6));
    double dt = idt / std::max(n, 1.);
    double rho = StableRho(par, dt);
    if (p.stroke && (regular || n > 50) && rho < .9999 && StableRho(par, 1 / par[SP_RATE]) <= 1 && n < par[SP_MAXOUT] * .9 && par[SP_ANGLE] == -1) {
      In last = p.eff.back();
      Res tip = st[inst].tip;
      if (std::fabs(last.x) < 1e5 * S && std::fabs(last.y) < 1e5 * S && std::isfinite(tip.vx) && std::isfinite(tip.vy) && std::fabs(tip.px) < 1e10 * S && std::fabs(tip.py) < 1e10 * S) {
        // The pen rests where it was last seen.
        double d0 = std::hypot((double)tip.px - last.x, (double)tip.py - last.y) + std::hypot(tip.vx, tip.vy) * par[PM_MASS] * par[PM_DRAG] + std::hypot(tip.vx, tip.vy) * dt + S;
        // Loop mitigation hides the state of the spring.
        if (par.loop())
          for (const In& in : p.eff) d0 = std::max(d0, 1e3 * std::hypot((double)in.x - last.x, (double)in.y - last.y));
        double eps = std::max(2e-3 * S, 2e-5 * std::max(std::fabs((double)last.x), std::fabs((double)last.y)));
        // The raw side of the blend is a point of a segment that may reach far away.
        if (par.loop())
          for (const In& in : p.eff) eps = std::max({eps, 1e-6 * std::fabs((double)in.x), 1e-6 * std::fabs((double)in.y)});
        double need = std::log(eps / 16 / std::max(d0, 1.)) / std::log(rho);
        // the wobble window must also empty
        double steps = std::ceil(need / std::max(n, 1.)) + (par.wob() ? par[WOB_TIMEOUT] / idt : 0) + 8;
        // The stroke normal may meet older parts of the path: they must have been forgotten.
        if (par.loop() && par[ST_NORM] != 0) steps += par[ST_MIN] + par[ST_DUR] / idt;
        if (steps < 3000) {
          // Wobble smoothing adds the pull of older samples: the anchor moves until the window is past.
          double base = last.t;
          Call c;
          bool refused = false;
          for (int k = 1; k <= steps * 2 + 20; ++k) {
            Op u = o;
            u.k = OP_UPDATE;
            u.in = last;
            u.in.type = MOVE;
            u.in.t = base + k * idt;
            if (u.in.t <= run.proto[inst].eff.back().t) continue;
            c = run.Do(u);
            if (!c.ok()) {
              if (k == 1 && std::fabs(tip.px) > 1e10) { refused = true; break; }
              Fail("service-not-resumed", "the pen rests and events arrive regularly, but input %d after the faults stopped (%s) is refused with code %d", k, InStr(u.in).c_str(), c.code);
            }
          }
          if (!refused && c.ok() && !c.out.empty()) {
            const Res& r = c.out.back();
            double d = std::hypot((double)r.px - last.x, (double)r.py - last.y);
            ++g_stats->checks;
            PROBE("resting pen caught up with");
            g_stats->nontrivial = 1;
            g_stats->sim_time += steps * 2 * idt;
            if (!(d <= eps)) Fail("does-not-catch-up", "the pen rests at (%.9g,%.9g) but after %g regular inputs the model is at (%.9g,%.9g), %.9g away (tolerance %.3g)", last.x, last.y, steps * 2 + 20, r.px, r.py, d, eps);
          }
        }
      }
    }
    // Reset, then a well-formed stroke must be served completely.
    double t0 = p.eff.empty() ? 0 : p.eff.back().t;
    if (!std::isfinite(t0) || std::fabs(t0) > 1e12 * T) t0 = 0;
    o.k = OP_RESET;
    if (!run.Do(o).ok()) Fail("reset-refused", "Reset is refused after the faults stopped");
    double fine = std::min(idt, .5 * par[SP_MAXOUT] / par[SP_RATE]);
    if (t0 + fine == t0) t0 = 0;
    for (int k = 0; k < 12; ++k) {
      o.k = OP_UPDATE;
      o.in = In();
      o.in.type = k == 0 ? DOWN : k == 11 ? UP : MOVE;
      o.in.x = static_cast<float>(.25 * k * S);
      o.in.y = static_cast<float>(.125 * k * S);
      o.in.t = t0 + k * fine;
      if (par[SP_ANGLE] != -1 && par[SP_MAXOUT] < 400) { o.in.x = 0; o.in.y = 0; }
      Call c = run.Do(o);
      ++g_stats->checks;
      if (!c.ok()) {
        if (par[PM_MASS] < 1e-12 || par[PM_MASS] > 1e12 || par[PM_DRAG] > 1e6 || StableRho(par, fine) > 1.0) break;
        if (par[SP_ANGLE] != -1) break;
        Fail("service-not-resumed", "after a Reset, input %d of a well-formed stroke (%s) is refused with code %d", k, InStr(o.in).c_str(), c.code);
      }
      if (par.kind() != PRED_NONE && k < 11) {
        Op q = o;
        q.k = OP_PREDICT;
        if (!run.Do(q).ok()) Fail("service-not-resumed", "after a Reset, prediction is refused during a stroke");
      }
    }
    PROBE("stroke served after Reset");
  }
}

// ------------------------------------------------------------------ C21
static void CheckC21(const Trace& t) {
  Runner run(t, 0xA5);
  for (size_t i = 0; i < t.ops.size(); ++i) {
    const Op& op = t.ops[i];
    Call c = run.Do(op);
    if (!c.ok() || run.proto[op.inst].par < 0) continue;
    // Speeds over less than a nanosecond are not of ordinary magnitude.
    const Hist& eff = run.proto[op.inst].eff;
    bool odd = !eff.empty() && eff.cum().min_dt < 1e-9 * (t.aux.size() > 1 ? t.aux[1] : 1);
    // A spring that is unstable at the output rate diverges, as it must.
    const Par& par = t.params[run.proto[op.inst].par];
    if (odd || StableRho(par, 1 / par[SP_RATE]) > 1) { ++g_stats->skipped; continue; }
    for (size_t j = 0; j < c.out.size(); ++j) {
      const Res& r = c.out[j];
      ++g_stats->checks;
      g_stats->nontrivial = 1;
      if (!(std::isfinite(r.px) && std::isfinite(r.py) && std::isfinite(r.vx) && std::isfinite(r.vy) && std::isfinite(r.ax) && std::isfinite(r.ay) && std::isfinite(r.t)))
        Fail("non-finite", "%s: result %zu of %zu is %s", OpStr(t, i).c_str(), j, c.out.size(), ResStr(r).c_str());
    }
    if (op.k == OP_UPDATE) {
      const Proto& p = run.proto[op.inst];
      if (p.eff.size() >= 2 && p.eff.back().t == p.eff[p.eff.size() - 2].t) PROBE("equal timestamps");
      if (p.eff.size() >= 4 && p.eff.front().t == p.eff.back().t) PROBE("whole stroke at one instant");
    }
  }
}

// ------------------------------------------------------------------ generation
Trace GenPlain(uint64_t seed, const PropDef& d, const Dict& dict) {
  World w(HashMix(seed, HashBytes(d.id, 3)), d.profile, &dict);
  Trace t = w.Generate();
  t.prop = d.id;
  t.seed = seed;
  t.aux = {120, w.T, w.S};
  return t;
}
extern void CheckC08(const Trace& t);
extern Trace GenC08(uint64_t seed, const PropDef& d, const Dict& dict);

// Concretise allocation faults: a dry run tells how many allocations each call makes.
extern void (*g_gen_note)(const Trace&);
static Trace GenC19(uint64_t seed, const PropDef& d, const Dict& dict) {
  Trace t = GenPlain(seed, d, dict);
  Rng r(HashMix(seed, 1919));
  for (int k = r.Int(1, 4); k > 0; --k) {
    std::vector<uint64_t> allocs;
    if (g_gen_note) g_gen_note(t);
    {
      Session s(t.n_inst, 0xA5);
      for (const Op& o : t.ops) allocs.push_back(s.Do(o, t.params).allocs);
    }
    std::vector<size_t> cand;
    for (size_t i = 0; i < t.ops.size(); ++i)
      if (allocs[i] > 0 && t.ops[i].alloc < 0) cand.push_back(i);
    if (cand.empty()) break;
    size_t i = r.Pick(cand);
    t.ops[i].alloc = r.Int(0, static_cast<int>(allocs[i]) - 1);
    t.ops[i].fault = F_NONE;
    Op reset;
    reset.k = OP_RESETP;
    reset.inst = t.ops[i].inst;
    reset.par = 0;
    bool sure;
    for (size_t j = 0; j < t.params.size(); ++j)
      if (ParValid(t.params[j], &sure) && r.P(.7)) reset.par = j;
    t.ops.insert(t.ops.begin() + i + 1, reset);
  }
  return t;
}

static std::vector<PropDef> MakeProps() {
  std::vector<PropDef> v;
  Profile all;  // everything on
  all.extreme_params = true;
  auto add = [&](const char* id, const Profile& p, std::function<void(const Trace&)> c,
                 std::function<Trace(uint64_t, const PropDef&, const Dict&)> g = GenPlain) {
    v.push_back(PropDef{id, p, g, c});
  };
  Profile p = all;
  p.small_maxout = true;
  add("C01", p, CheckC01, [](uint64_t seed, const PropDef& d, const Dict& dict) {
    World w(HashMix(seed, HashBytes(d.id, 3)), d.profile, &dict);
    Trace t = w.Generate();
    t.prop = d.id;
    t.seed = seed;
    t.aux = {120, w.T, w.S};
    // Re-configurations at the border of the documented domain, with a plain Reset in between.
    for (int k = w.rng.P(.4) ? w.rng.Int(5, 20) : 0; k > 0; --k) {
      t.params.push_back(w.ProbePar());
      Op o;
      o.k = OP_RESETP;
      o.par = static_cast<int>(t.params.size()) - 1;
      o.inst = w.rng.Int(0, t.n_inst - 1);
      o.fault = F_BADCONF;
      t.ops.push_back(o);
      if (w.rng.P(.1)) { o = Op(); o.k = OP_RESET; t.ops.push_back(o); }
    }
    return t;
  });
  p = all;
  p.p_faultfree = .02;
  p.fault_scale = 1.3;
  add("C02", p, CheckC02);
  p = all;
  p.p_predstorm = .5; p.p_end = .4; p.p_kalman = .55;
  add("C03", p, CheckC03);
  p = all;
  p.save_boost = .9;
  p.p_kalman = .55;
  add("C04", p, CheckC04);
  p = all;
  p.max_strokes = 10; p.min_strokes = 2;
  p.p_kalman = .55;
  add("C05", p, CheckC05);
  p = all;
  p.max_inst = 2;
  add("C06", p, CheckC06);
  p = all;
  p.max_inst = 4;
  p.p_long = 0;
  p.extreme_params = false;
  add("C07", p, CheckC07, [](uint64_t seed, const PropDef& d, const Dict& dict) {
    Trace t = GenPlain(seed, d, dict);
    if (PreemptBuild()) { Rng r(HashMix(seed, 707)); t.variant = r.P(.7); if (t.variant) FillSched(t, r); }
    return t;
  });
  p = all;
  p.extreme_params = false; p.bad_values = false; p.p_dyadic = 1; p.far_epochs = false; p.unit_scales = false; p.grid = true;
  p.buffers = false; p.badconf = false; p.relocate = false; p.max_gap = 100; p.bad_stylus = false; p.p_long = .01; p.tiny = false;
  add("C08", p, CheckC08, GenC08);
  p = all;
  p.extreme_params = false; p.bad_values = false; p.badconf = false;
  add("C09", p, CheckC09);
  p = all;
  p.small_maxout = true;
  p.max_gap = 1e5;
  add("C10", p, CheckC10);
  p = all;
  p.fault_scale = 1.3;
  add("C11", p, CheckC11);
  p = all;
  p.extreme_params = false; p.bad_values = false;
  add("C12", p, CheckC12);
  Profile sane;
  sane.bad_values = false; sane.badconf = false; sane.relocate = false; sane.buffers = false;
  p = sane;
  p.p_loop = 0; p.p_norm = .3; p.p_end = .7; p.p_kalman = .1;
  add("C13", p, CheckC13);
  p = sane;
  p.p_loop = 0; p.p_norm = .6; p.p_wob = .4; p.bad_stylus = false;
  add("C14", p, CheckC14);
  p = sane;
  p.p_loop = 0; p.predict = false; p.max_strokes = 12;
  add("C15", p, CheckC15);
  p = sane;
  p.p_loop = 0; p.p_wob = .35; p.p_end = 1; p.p_kalman = 0; p.p_angle = .1;
  add("C16", p, CheckC16);
  p = sane;
  p.p_loop = 0; p.p_end = 0; p.p_kalman = 1; p.p_wob = .35;
  add("C17", p, CheckC17);
  p = sane;
  p.p_loop = .9; p.p_norm = 1; p.p_wob = .35; p.bad_stylus = false;
  add("C18", p, CheckC18);
  p = all;
  p.extreme_params = false; p.p_long = .01;
  add("C19", p, CheckC19, GenC19);
  p = all;
  p.extreme_params = false; p.tail = false; p.bad_stylus = false; p.p_faultfree = .02;
  add("C20", p, CheckC20);
  p = sane;
  p.bad_stylus = false;
  add("C21", p, CheckC21);
  // Histories of more than 2^16 inputs, where the check takes time linear in their length.
  for (PropDef& d : v) {
    d.profile.p_repeat = strcmp(d.id, "C07") && strcmp(d.id, "C19") ? .02 : .004;
    if (strcmp(d.id, "C03") && strcmp(d.id, "C07") && strcmp(d.id, "C10") && strcmp(d.id, "C19")) d.profile.p_marathon = 4e-4;
  }
  return v;
}
const std::vector<PropDef>& Props() {
  static const std::vector<PropDef> v = MakeProps();
  return v;
}
const PropDef* FindProp(const std::string& id) {
  for (auto& p : Props()) if (id == p.id) return &p;
  return nullptr;
}
