#include "exec.h"

#include <ctime>
#include <new>
#include <type_traits>
#include <utility>

#include "ink_stroke_modeler/params.h"
#include "ink_stroke_modeler/stroke_modeler.h"
#include "ink_stroke_modeler/types.h"

namespace sm = ink::stroke_model;

extern std::string g_exception_text;
std::string g_exception_text;

CallClock* g_call_clock = nullptr;
namespace {
// A field that has its documented default value is left alone, as a client would.
sm::StrokeModelParams Conv(const Par& p) {
  sm::StrokeModelParams r;
  auto& w = r.wobble_smoother_params;
  if (p[WOB_EN] != 1) w.is_enabled = p[WOB_EN] != 0;
  if (p[WOB_TIMEOUT] != -1) w.timeout = sm::Duration(p[WOB_TIMEOUT]);
  if (p[WOB_FLOOR] != -1) w.speed_floor = p[WOB_FLOOR];
  if (p[WOB_CEIL] != -1) w.speed_ceiling = p[WOB_CEIL];
  auto& m = r.position_modeler_params;
  if (p[PM_MASS] != 11.f / 32400) m.spring_mass_constant = p[PM_MASS];
  if (p[PM_DRAG] != 72) m.drag_constant = p[PM_DRAG];
  auto& l = m.loop_contraction_mitigation_params;
  if (p[LC_EN] != 0) l.is_enabled = p[LC_EN] != 0;
  if (p[LC_LO] != -1) l.speed_lower_bound = p[LC_LO];
  if (p[LC_HI] != -1) l.speed_upper_bound = p[LC_HI];
  if (p[LC_SLO] != -1) l.interpolation_strength_at_speed_lower_bound = p[LC_SLO];
  if (p[LC_SHI] != -1) l.interpolation_strength_at_speed_upper_bound = p[LC_SHI];
  if (p[LC_WIN] != -1) l.min_speed_sampling_window = sm::Duration(p[LC_WIN]);
  if (p[LC_N] != -1) l.min_discrete_speed_samples = static_cast<int>(p[LC_N]);
  auto& s = r.sampling_params;
  if (p[SP_RATE] != -1) s.min_output_rate = p[SP_RATE];
  if (p[SP_STOP] != -1) s.end_of_stroke_stopping_distance = p[SP_STOP];
  if (p[SP_ITERS] != 20) s.end_of_stroke_max_iterations = static_cast<int>(p[SP_ITERS]);
  if (p[SP_MAXOUT] != 100000) s.max_outputs_per_call = static_cast<int>(p[SP_MAXOUT]);
  if (p[SP_ANGLE] != -1) s.max_estimated_angle_to_traverse_per_input = p[SP_ANGLE];
  auto& t = r.stylus_state_modeler_params;
  if (p[ST_MAX] != 10) t.max_input_samples = static_cast<int>(p[ST_MAX]);
  if (p[ST_NORM] != 0) t.use_stroke_normal_projection = p[ST_NORM] != 0;
  if (p[ST_MIN] != -1) t.min_input_samples = static_cast<int>(p[ST_MIN]);
  if (p[ST_DUR] != -1) t.min_sample_duration = sm::Duration(p[ST_DUR]);
  if (p.kind() == PRED_KALMAN) {
    sm::KalmanPredictorParams k;
    if (p[KP_PN] != -1) k.process_noise = p[KP_PN];
    if (p[KP_MN] != -1) k.measurement_noise = p[KP_MN];
    if (p[KP_STABLE] != 4) k.min_stable_iteration = static_cast<int>(p[KP_STABLE]);
    if (p[KP_MAXT] != 20) k.max_time_samples = static_cast<int>(p[KP_MAXT]);
    if (p[KP_CATCH] != -1) k.min_catchup_velocity = p[KP_CATCH];
    if (p[KP_AW] != .5) k.acceleration_weight = p[KP_AW];
    if (p[KP_JW] != .1f) k.jerk_weight = p[KP_JW];
    if (p[KP_INTERVAL] != -1) k.prediction_interval = sm::Duration(p[KP_INTERVAL]);
    auto& c = k.confidence_params;
    if (p[KP_CN] != 20) c.desired_number_of_samples = static_cast<int>(p[KP_CN]);
    if (p[KP_CEST] != -1) c.max_estimation_distance = p[KP_CEST];
    if (p[KP_CMINS] != -1) c.min_travel_speed = p[KP_CMINS];
    if (p[KP_CMAXS] != -1) c.max_travel_speed = p[KP_CMAXS];
    if (p[KP_CLIN] != -1) c.max_linear_deviation = p[KP_CLIN];
    if (p[KP_CBASE] != .4f) c.baseline_linearity_confidence = p[KP_CBASE];
    r.prediction_params = k;
  } else if (p.kind() == PRED_NONE) {
    r.prediction_params = sm::DisabledPredictorParams{};
  }  // else: stroke-end prediction, the default
  return r;
}
sm::Input Conv(const In& i) {
  sm::Input r{.event_type = static_cast<sm::Input::EventType>(i.type)};
  r.position = {i.x, i.y};
  r.time = sm::Time(i.t);
  if (i.p != -1) r.pressure = i.p;
  if (i.ti != -1) r.tilt = i.ti;
  if (i.o != -1) r.orientation = i.o;
  return r;
}
Res Conv(const sm::Result& r) {
  return {r.position.x, r.position.y, r.velocity.x, r.velocity.y, r.acceleration.x,
          r.acceleration.y, r.time.Value(), r.pressure, r.tilt, r.orientation};
}
bool SameR(const sm::Result& a, const sm::Result& b) { return SameRes(Conv(a), Conv(b)); }

struct InSut {
  InSut() {
    g_in_sut = true;
    if (g_call_clock) {
      timespec ts;
      clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
      g_call_clock->since = ts.tv_sec + ts.tv_nsec * 1e-9;
      g_call_clock->inside = 1;
    }
  }
  ~InSut() {
    g_in_sut = false;
    if (g_call_clock) g_call_clock->inside = 0;
  }
};
template <typename F>
int Guard(F f) {
  try {
    InSut scope;
    return f();
  } catch (const std::bad_alloc&) {
    return ST_BADALLOC;
  } catch (const std::exception& e) {
    g_exception_text = e.what();
    return ST_EXCEPTION;
  } catch (...) {
    g_exception_text = "unknown exception";
    return ST_EXCEPTION;
  }
}

template <typename M>
M* MoveTo(void* where, M* from, bool assign) {
  if constexpr (std::is_move_assignable_v<M>) {
    if (assign) {
      M* n = new (where) M;
      *n = std::move(*from);
      from->~M();
      return n;
    }
  }
  if constexpr (std::is_move_constructible_v<M>) {
    M* n = new (where) M(std::move(*from));
    from->~M();
    return n;
  } else {
    return nullptr;
  }
}
}  // namespace

struct SutImpl {
  unsigned char pattern;
  void* mem;
  sm::StrokeModeler* m;
  unsigned moves = 0;
};
struct BufImpl {
  std::vector<sm::Result> v;
};

// The modeler lives in memory filled with a chosen pattern.
static void* NewMem(unsigned char pattern) {
  void* p = aligned_alloc(64, (sizeof(sm::StrokeModeler) + 63) / 64 * 64);
  memset(p, pattern, sizeof(sm::StrokeModeler));
  return p;
}
Sut::Sut(unsigned char pattern) {
  impl = new SutImpl{pattern, NewMem(pattern), nullptr};
  g_alloc_pattern = pattern;
  InSut scope;
  long keep = g_alloc_fail_at;
  g_alloc_fail_at = -1;
  impl->m = new (impl->mem) sm::StrokeModeler;
  g_alloc_fail_at = keep;
}
Sut::~Sut() {
  {
    InSut scope;
    impl->m->~StrokeModeler();
  }
  free(impl->mem);
  delete impl;
}
int Sut::ResetP(const Par& p) {
  sm::StrokeModelParams sp = Conv(p);
  g_alloc_pattern = impl->pattern;
  return Guard([&] { return static_cast<int>(impl->m->Reset(sp).code()); });
}
int Sut::Reset() {
  g_alloc_pattern = impl->pattern;
  return Guard([&] { return static_cast<int>(impl->m->Reset().code()); });
}
void Sut::Save() {
  g_alloc_pattern = impl->pattern;
  impl->m->Save();
}
void Sut::Restore() {
  g_alloc_pattern = impl->pattern;
  impl->m->Restore();
}
void Sut::Relocate() {
  void* n = NewMem(static_cast<unsigned char>(impl->pattern ^ 0x3c));
  InSut scope;
  long keep = g_alloc_fail_at;
  g_alloc_fail_at = -1;
  sm::StrokeModeler* moved = MoveTo(n, impl->m, ++impl->moves % 3 == 0);
  g_alloc_fail_at = keep;
  if (moved) {
    memset(impl->mem, 0xEE, sizeof(sm::StrokeModeler));
    free(impl->mem);
    impl->mem = n;
    impl->m = moved;
  } else {
    free(n);
  }
}

Buf::Buf() : impl(new BufImpl) {}
Buf::~Buf() { delete impl; }
size_t Buf::Size() const { return impl->v.size(); }
Res Buf::Get(size_t i) const { return Conv(impl->v[i]); }
void Buf::Clear() { impl->v.clear(); }
void Buf::Renew() { impl->v = std::vector<sm::Result>(); }
void Buf::Reserve(int n) { impl->v.reserve(n); }
void Buf::Shrink() { impl->v.shrink_to_fit(); }
void Buf::Garbage(int n, uint64_t seed) {
  Rng r(seed);
  impl->v.clear();
  for (int i = 0; i < n; ++i) {
    sm::Result x;
    auto g = [&]() -> float {
      switch (r.Int(0, 5)) {
        case 0: return NAN;
        case 1: return INFINITY;
        case 2: return -1;
        case 3: return 0;
        default: return static_cast<float>(r.Range(-1000, 1000));
      }
    };
    x.position = {g(), g()};
    x.velocity = {g(), g()};
    x.acceleration = {g(), g()};
    x.time = sm::Time(r.P(.5) ? r.Range(-1e9, 1e9) : g());
    x.pressure = g();
    x.tilt = g();
    x.orientation = g();
    impl->v.push_back(x);
  }
}
int SutUpdate(Sut& s, const In& in, Buf& b) {
  sm::Input i = Conv(in);
  g_alloc_pattern = s.impl->pattern;
  return Guard([&] { return static_cast<int>(s.impl->m->Update(i, b.impl->v).code()); });
}
int SutPredict(Sut& s, Buf& b) {
  g_alloc_pattern = s.impl->pattern;
  const sm::StrokeModeler& m = *s.impl->m;
  return Guard([&] { return static_cast<int>(m.Predict(b.impl->v).code()); });
}

Session::Session(int n_inst, unsigned char pattern, bool fresh)
    : fresh_only_(fresh), pattern_(pattern) {
  for (int i = 0; i < n_inst; ++i) {
    suts_.push_back(std::make_unique<Sut>(pattern));
    own_.push_back(std::make_unique<Buf>());
    own_pred_.push_back(std::make_unique<Buf>());
    temps_.push_back(std::make_unique<Buf>());
  }
}
Buf& Session::Pick(const Op& op, bool predict) {
  int mode = fresh_only_ ? 0 : op.buf;
  auto& own = predict ? *own_pred_[op.inst] : *own_[op.inst];
  Buf& temp = *temps_[op.inst];
  Buf* b = &temp;
  switch (mode) {
    case 1: b = &own; break;
    case 2: temp.Renew(); temp.Garbage(1 + (op.buf * 7 + op.fault + (int)(HashBytes(&op.in.t, 8) % 23)), HashBytes(&op.in.x, 4)); break;
    case 3: b = &shared_; break;
    case 4: temp.Renew(); temp.Reserve(64); break;
    case 5: b = &own; own.Clear(); break;
    case 6: b = &own; own.Shrink(); break;
    default: temp.Renew();
  }
  if (b != &temp && b->Size() > 3000) b->Clear();
  return *b;
}
Call Session::Do(const Op& op, const std::vector<Par>& params) {
  Call c;
  Sut& s = *suts_[op.inst];
  g_alloc_count = 0;
  g_alloc_fail_at = op.alloc;
  switch (op.k) {
    case OP_RESETP: c.code = s.ResetP(params[op.par]); break;
    case OP_RESET: c.code = s.Reset(); break;
    case OP_SAVE: c.code = Guard([&] { s.Save(); return 0; }); break;
    case OP_RESTORE: c.code = Guard([&] { s.Restore(); return 0; }); break;
    case OP_RELOCATE: s.Relocate(); break;
    case OP_UPDATE: {
      Buf& b = Pick(op, false);
      std::vector<sm::Result> before = b.impl->v;
      g_alloc_count = 0;
      c.code = SutUpdate(s, op.in, b);
      g_alloc_fail_at = -1;
      auto& v = b.impl->v;
      if (v.size() < before.size()) {
        c.prefix_ok = false;
      } else {
        for (size_t i = 0; i < before.size(); ++i)
          if (!SameR(before[i], v[i])) c.prefix_ok = false;
        for (size_t i = before.size(); i < v.size(); ++i) c.out.push_back(Conv(v[i]));
      }
      if (c.code != ST_OK && v.size() != before.size()) c.buffer_ok = false;
      break;
    }
    case OP_PREDICT: {
      Buf& b = Pick(op, true);
      g_alloc_count = 0;
      c.code = SutPredict(s, b);
      g_alloc_fail_at = -1;
      for (auto& r : b.impl->v) c.out.push_back(Conv(r));
      if (c.code != ST_OK && !c.out.empty()) c.buffer_ok = false;
      break;
    }
  }
  c.allocs = g_alloc_count;
  g_alloc_fail_at = -1;
  return c;
}

bool SameCall(const Call& a, const Call& b, std::string* why) {
  char buf[200];
  if (a.code != b.code) {
    snprintf(buf, sizeof buf, "status code %d vs %d", a.code, b.code);
    *why = buf;
    return false;
  }
  if (a.out.size() != b.out.size()) {
    snprintf(buf, sizeof buf, "%zu results vs %zu", a.out.size(), b.out.size());
    *why = buf;
    return false;
  }
  for (size_t i = 0; i < a.out.size(); ++i)
    if (!SameRes(a.out[i], b.out[i])) {
      snprintf(buf, sizeof buf, "result %zu of %zu: ", i, a.out.size());
      *why = buf + ResStr(a.out[i]) + "  vs  " + ResStr(b.out[i]);
      return false;
    }
  return true;
}
