// Helpers shared by the demonstrations.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <new>
#include <optional>
#include <thread>
#include <vector>
#include "ink_stroke_modeler/stroke_modeler.h"
using namespace ink::stroke_model;
constexpr auto DOWN = Input::EventType::kDown;
constexpr auto MOVE = Input::EventType::kMove;
constexpr auto UP = Input::EventType::kUp;
inline Input In(Input::EventType e, float x, float y, double t, float p = -1, float tilt = -1, float ori = -1) {
  return {.event_type = e, .position = {x, y}, .time = Time(t), .pressure = p, .tilt = tilt, .orientation = ori};
}
// Ordinary parameters: 180 Hz, no wobble smoothing, no prediction.
inline StrokeModelParams Params() {
  StrokeModelParams p;
  p.wobble_smoother_params = {.is_enabled = false, .timeout = Duration(.04), .speed_floor = 1.31f, .speed_ceiling = 1.44f};
  p.position_modeler_params = {.spring_mass_constant = 11.f / 32400, .drag_constant = 72.f};
  p.sampling_params = {.min_output_rate = 180, .end_of_stroke_stopping_distance = .001f, .end_of_stroke_max_iterations = 20, .max_outputs_per_call = 1000};
  p.stylus_state_modeler_params = {.max_input_samples = 10};
  p.prediction_params = DisabledPredictorParams{};
  return p;
}
inline StrokeModelParams Kalman(StrokeModelParams p) {
  p.prediction_params = KalmanPredictorParams{
      .process_noise = .00026458, .measurement_noise = .026458, .min_stable_iteration = 4, .max_time_samples = 20,
      .min_catchup_velocity = .01f, .acceleration_weight = .5f, .jerk_weight = .1f, .prediction_interval = Duration(1. / 60),
      .confidence_params = {.desired_number_of_samples = 20, .max_estimation_distance = .04f, .min_travel_speed = 3, .max_travel_speed = 15,
                            .max_linear_deviation = .2f, .baseline_linearity_confidence = .4f}};
  return p;
}
inline StrokeModelParams StrokeEnd(StrokeModelParams p) {
  p.prediction_params = StrokeEndPredictorParams{};
  return p;
}
inline StrokeModelParams Normals(StrokeModelParams p) {
  p.stylus_state_modeler_params.use_stroke_normal_projection = true;
  p.stylus_state_modeler_params.min_input_samples = 10;
  p.stylus_state_modeler_params.min_sample_duration = Duration(.05);
  return p;
}
inline StrokeModelParams Loop(StrokeModelParams p) {
  p = Normals(p);
  p.position_modeler_params.loop_contraction_mitigation_params = {
      .is_enabled = true, .speed_lower_bound = 0, .speed_upper_bound = 50, .interpolation_strength_at_speed_lower_bound = 1,
      .interpolation_strength_at_speed_upper_bound = .1f, .min_speed_sampling_window = Duration(.04), .min_discrete_speed_samples = 3};
  return p;
}
struct R {
  absl::Status s;
  std::vector<Result> r;
  bool ok() const { return s.ok(); }
};
inline R Upd(StrokeModeler& m, const Input& in) {
  R x;
  x.s = m.Update(in, x.r);
  return x;
}
inline R Pred(const StrokeModeler& m) {
  R x;
  x.s = m.Predict(x.r);
  return x;
}
inline bool Near(double a, double b, double tol) { return std::fabs(a - b) <= tol || a == b; }
inline bool Same(const std::vector<Result>& a, const std::vector<Result>& b, double tol = 1e-5) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    const Result &x = a[i], &y = b[i];
    double vt = tol * (1 + std::fabs(x.velocity.x) + std::fabs(x.velocity.y)), at = tol * (1 + std::fabs(x.acceleration.x) + std::fabs(x.acceleration.y)) * 10;
    if (!Near(x.position.x, y.position.x, tol) || !Near(x.position.y, y.position.y, tol) || !Near(x.velocity.x, y.velocity.x, vt) ||
        !Near(x.velocity.y, y.velocity.y, vt) || !Near(x.acceleration.x, y.acceleration.x, at) || !Near(x.acceleration.y, y.acceleration.y, at) ||
        !Near(x.time.Value(), y.time.Value(), 1e-9) || !Near(x.pressure, y.pressure, tol) || !Near(x.tilt, y.tilt, tol) || !Near(x.orientation, y.orientation, tol))
      return false;
  }
  return true;
}
#define OK(c)                                                     \
  do {                                                            \
    if (!(c)) {                                                   \
      std::printf("line %d: expected %s\n", __LINE__, #c);        \
      return 1;                                                   \
    }                                                             \
  } while (0)
