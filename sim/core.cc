#include "core.h"

#include <sstream>

const char* const kParamNames[NPF] = {
    "wob.en", "wob.timeout", "wob.floor", "wob.ceil", "pm.mass", "pm.drag", "lc.en", "lc.lo",
    "lc.hi", "lc.slo", "lc.shi", "lc.win", "lc.n", "sp.rate", "sp.stop", "sp.iters", "sp.maxout",
    "sp.angle", "st.max", "st.norm", "st.min", "st.dur", "pr.kind", "kp.pn", "kp.mn", "kp.stable",
    "kp.maxt", "kp.catch", "kp.aw", "kp.jw", "kp.interval", "kp.cn", "kp.cest", "kp.cmins",
    "kp.cmaxs", "kp.clin", "kp.cbase"};
const PType kParamTypes[NPF] = {
    T_BOOL, T_DOUBLE, T_FLOAT, T_FLOAT, T_FLOAT, T_FLOAT, T_BOOL, T_FLOAT, T_FLOAT, T_FLOAT,
    T_FLOAT, T_DOUBLE, T_INT, T_DOUBLE, T_FLOAT, T_INT, T_INT, T_DOUBLE, T_INT, T_BOOL, T_INT,
    T_DOUBLE, T_INT, T_DOUBLE, T_DOUBLE, T_INT, T_INT, T_FLOAT, T_FLOAT, T_FLOAT, T_DOUBLE, T_INT,
    T_FLOAT, T_FLOAT, T_FLOAT, T_FLOAT, T_FLOAT};
const char* const kFaultNames[NFAULT] = {
    "none", "event_loss", "event_duplicated", "event_reordered", "event_delayed",
    "equal_timestamps", "timestamp_quantised", "clock_jump_forward", "clock_jump_backward",
    "digitizer_stall", "value_nan", "value_inf", "value_huge", "value_tiny", "field_missing",
    "field_garbage", "unknown_event_type", "down_lost", "up_lost", "spurious_down", "spurious_up",
    "spurious_move", "stroke_cancelled", "reconfigured", "invalid_config", "position_teleport",
    "prediction_storm", "modeler_relocated", "speculation_saved", "speculation_rolled_back",
    "allocation_failed", "dirty_caller_buffer", "thread_preempted", "dirty_memory",
    "prediction_while_idle", "clock_epoch_or_unit_change",
    "call_repeated_hundreds_of_times", "short_call_word_inserted", "stroke_drawn_again_differently", "events_fed_to_second_modeler"};
const char* const kKindNames[NKIND] = {"RESETP", "RESET",   "UPDATE",  "PREDICT",
                                       "SAVE",   "RESTORE", "RELOCATE"};

Par DefaultPar() {
  Par p{};
  p[WOB_EN] = 1; p[WOB_TIMEOUT] = .04; p[WOB_FLOOR] = 1.31f; p[WOB_CEIL] = 1.44f;
  p[PM_MASS] = 11.f / 32400; p[PM_DRAG] = 72.f;
  p[LC_EN] = 0; p[LC_LO] = -1; p[LC_HI] = -1; p[LC_SLO] = -1; p[LC_SHI] = -1; p[LC_WIN] = -1;
  p[LC_N] = -1;
  p[SP_RATE] = 180; p[SP_STOP] = .001f; p[SP_ITERS] = 20; p[SP_MAXOUT] = 100000; p[SP_ANGLE] = -1;
  p[ST_MAX] = 10; p[ST_NORM] = 0; p[ST_MIN] = -1; p[ST_DUR] = -1;
  p[PR_KIND] = PRED_END;
  p[KP_PN] = .00026458; p[KP_MN] = .026458; p[KP_STABLE] = 4; p[KP_MAXT] = 20;
  p[KP_CATCH] = .01f; p[KP_AW] = .5f; p[KP_JW] = .1f; p[KP_INTERVAL] = 1. / 60;
  p[KP_CN] = 20; p[KP_CEST] = .04f; p[KP_CMINS] = 3; p[KP_CMAXS] = 15; p[KP_CLIN] = .2f;
  p[KP_CBASE] = .4f;
  return p;
}

void RoundPar(Par& p) {
  for (int i = 0; i < NPF; ++i) {
    if (kParamTypes[i] == T_FLOAT) p[i] = static_cast<float>(p[i]);
    if (kParamTypes[i] == T_INT) p[i] = std::floor(std::clamp(p[i], -2147483648., 2147483647.));
    if (kParamTypes[i] == T_BOOL) p[i] = p[i] != 0;
  }
}

// The documented domain of the parameters (params.h), written independently.
// *sure is cleared where the documentation does not decide (infinite values where only an
// ordering is demanded).
bool ParValid(const Par& p, bool* sure) {
  *sure = true;
  auto fin = [&](int i) { return std::isfinite(p[i]); };
  auto pos = [&](int i) { return fin(i) && p[i] > 0; };
  auto nonneg = [&](int i) { return fin(i) && p[i] >= 0; };
  bool ok = true;
  if (p.wob()) {
    ok = ok && nonneg(WOB_TIMEOUT) && nonneg(WOB_FLOOR) && fin(WOB_CEIL) && p[WOB_CEIL] >= p[WOB_FLOOR];
  }
  ok = ok && pos(PM_MASS) && pos(PM_DRAG);
  if (p.loop()) {
    ok = ok && p.norm();
    ok = ok && p[LC_LO] >= 0 && p[LC_HI] >= p[LC_LO];
    ok = ok && p[LC_SLO] <= 1 && p[LC_SHI] >= 0 && p[LC_SLO] >= p[LC_SHI];
    ok = ok && p[LC_N] >= 1 && p[LC_N] <= 10000;
    ok = ok && p[LC_WIN] > 0 && p[LC_WIN] <= 10000;
    if (ok && (!fin(LC_LO) || !fin(LC_HI))) *sure = false;
  }
  ok = ok && pos(SP_RATE) && pos(SP_STOP) && p[SP_ITERS] > 0 && p[SP_ITERS] <= 1000 &&
       p[SP_MAXOUT] > 0;
  if (p[SP_ANGLE] != -1) ok = ok && pos(SP_ANGLE) && p[SP_ANGLE] < 3.14159265358979323846;
  if (p.norm()) ok = ok && p[ST_MIN] > 0 && pos(ST_DUR);
  else ok = ok && p[ST_MAX] > 0;
  if (p.kind() == PRED_KALMAN) {
    ok = ok && pos(KP_PN) && pos(KP_MN) && p[KP_STABLE] > 0 && p[KP_MAXT] > 0 && pos(KP_CATCH) &&
         fin(KP_AW) && fin(KP_JW) && pos(KP_INTERVAL) && p[KP_CN] > 0 && pos(KP_CEST) &&
         nonneg(KP_CMINS) && fin(KP_CMAXS) && p[KP_CMAXS] >= p[KP_CMINS] && pos(KP_CLIN) &&
         p[KP_CBASE] >= 0 && p[KP_CBASE] <= 1;
  }
  if (p[SP_ANGLE] != -1 && std::fabs(p[SP_ANGLE] - 3.14159265358979) < 1e-6) *sure = false;
  return ok;
}

std::string ResStr(const Res& r) {
  char b[300];
  snprintf(b, sizeof b, "pos(%.9g,%.9g) vel(%.9g,%.9g) acc(%.9g,%.9g) t=%.17g p=%.9g tilt=%.9g or=%.9g",
           r.px, r.py, r.vx, r.vy, r.ax, r.ay, r.t, r.p, r.ti, r.o);
  return b;
}
std::string InStr(const In& i) {
  char b[300];
  snprintf(b, sizeof b, "type=%d pos(%.9g,%.9g) t=%.17g p=%.9g tilt=%.9g or=%.9g", i.type, i.x, i.y,
           i.t, i.p, i.ti, i.o);
  return b;
}

static std::string H(double d) {
  char b[64];
  if (std::isnan(d)) return std::signbit(d) ? "-nan" : "nan";
  snprintf(b, sizeof b, "%a", d);
  return b;
}
std::string TraceToText(const Trace& t) {
  std::string s;
  char b[200];
  snprintf(b, sizeof b, "TRACE 1\nprop %s\nseed %" PRIu64 "\ninstances %d\nvariant %d\nlost %" PRIu64 "\nspan %s\n",
           t.prop.c_str(), t.seed, t.n_inst, t.variant, t.lost, H(t.sim_span).c_str());
  s += b;
  if (!t.aux.empty()) {
    s += "aux";
    for (double d : t.aux) s += " " + H(d);
    s += "\n";
  }
  for (size_t i = 0; i < t.params.size(); ++i) {
    snprintf(b, sizeof b, "params %zu", i);
    s += b;
    for (int j = 0; j < NPF; ++j) s += std::string(" ") + kParamNames[j] + "=" + H(t.params[i][j]);
    s += "\n";
  }
  for (const Op& o : t.ops) {
    snprintf(b, sizeof b, "op %s inst=%d par=%d buf=%d fault=%s alloc=%d", kKindNames[o.k], o.inst,
             o.par, o.buf, kFaultNames[o.fault], o.alloc);
    s += b;
    if (o.k == OP_UPDATE) {
      snprintf(b, sizeof b, " type=%d", o.in.type);
      s += b;
      s += " x=" + H(o.in.x) + " y=" + H(o.in.y) + " t=" + H(o.in.t) + " p=" + H(o.in.p) +
           " tilt=" + H(o.in.ti) + " or=" + H(o.in.o);
    }
    s += "\n";
  }
  if (!t.sched.empty()) {
    s += "sched";
    for (uint32_t v : t.sched) s += " " + std::to_string(v);
    s += "\n";
  }
  s += "END\n";
  return s;
}
static double PD(const std::string& s) { return strtod(s.c_str(), nullptr); }
bool TraceFromText(const std::string& text, Trace* t) {
  *t = Trace();
  std::istringstream is(text);
  std::string line;
  bool end = false;
  while (std::getline(is, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream ls(line);
    std::string w;
    ls >> w;
    if (w == "TRACE") continue;
    else if (w == "prop") ls >> t->prop;
    else if (w == "seed") ls >> t->seed;
    else if (w == "instances") ls >> t->n_inst;
    else if (w == "variant") ls >> t->variant;
    else if (w == "lost") ls >> t->lost;
    else if (w == "span") { ls >> w; t->sim_span = PD(w); }
    else if (w == "aux") { while (ls >> w) t->aux.push_back(PD(w)); }
    else if (w == "params") {
      ls >> w;
      Par p = DefaultPar();
      while (ls >> w) {
        auto e = w.find('=');
        std::string k = w.substr(0, e);
        for (int j = 0; j < NPF; ++j) if (k == kParamNames[j]) p[j] = PD(w.substr(e + 1));
      }
      t->params.push_back(p);
    } else if (w == "op") {
      Op o;
      ls >> w;
      o.k = -1;
      for (int j = 0; j < NKIND; ++j) if (w == kKindNames[j]) o.k = j;
      if (o.k < 0) return false;
      while (ls >> w) {
        auto e = w.find('=');
        if (e == std::string::npos) return false;
        std::string k = w.substr(0, e), v = w.substr(e + 1);
        if (k == "inst") o.inst = atoi(v.c_str());
        else if (k == "par") o.par = atoi(v.c_str());
        else if (k == "buf") o.buf = atoi(v.c_str());
        else if (k == "alloc") o.alloc = atoi(v.c_str());
        else if (k == "fault") { for (int j = 0; j < NFAULT; ++j) if (v == kFaultNames[j]) o.fault = j; }
        else if (k == "type") o.in.type = atoi(v.c_str());
        else if (k == "x") o.in.x = PD(v);
        else if (k == "y") o.in.y = PD(v);
        else if (k == "t") o.in.t = PD(v);
        else if (k == "p") o.in.p = PD(v);
        else if (k == "tilt") o.in.ti = PD(v);
        else if (k == "or") o.in.o = PD(v);
      }
      t->ops.push_back(o);
    } else if (w == "sched") {
      uint32_t v;
      while (ls >> v) t->sched.push_back(v);
    } else if (w == "END") end = true;
  }
  return end;
}
uint64_t TraceHash(const Trace& t) {
  Trace c = t;
  c.seed = 0;
  std::string s = TraceToText(c);
  return HashBytes(s.data(), s.size());
}
