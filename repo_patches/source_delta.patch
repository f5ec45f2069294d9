From 6dca2db5d70e6974b4dbe70336e860bfeffa3b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:52 +0000
Subject: [PATCH 01/11] fix: leave the modeler untouched when a move is
 rejected

A kMove that needs more than max_outputs_per_call samples was rejected only
after the wobble smoother and the stylus state modeler had already consumed
it, so the rejected input still influenced the rest of the stroke.
---
 ink_stroke_modeler/stroke_modeler.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index e7d6e23..3e5dbe0 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -285,6 +285,16 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
         "Received move event while no stroke is in-progress");
   }
 
+  // This is the only step that can fail, so it must come before anything that
+  // modifies the state of the modeler.
+  absl::StatusOr<int> n_steps = NumberOfStepsBetweenInputs(
+      position_modeler_.CurrentState(), last_input_->input, input,
+      stroke_model_params_->sampling_params,
+      stroke_model_params_->position_modeler_params);
+  if (!n_steps.ok()) {
+    return n_steps.status();
+  }
+
   Vec2 corrected_position = wobble_smoother_.Update(input.position, input.time);
   stylus_state_modeler_.Update(corrected_position, input.time,
                                {
@@ -293,13 +303,6 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
                                    .orientation = input.orientation,
                                });
 
-  absl::StatusOr<int> n_steps = NumberOfStepsBetweenInputs(
-      position_modeler_.CurrentState(), last_input_->input, input,
-      stroke_model_params_->sampling_params,
-      stroke_model_params_->position_modeler_params);
-  if (!n_steps.ok()) {
-    return n_steps.status();
-  }
   tip_state_buffer_.clear();
   tip_state_buffer_.reserve(*n_steps);
   position_modeler_.UpdateAlongLinearPath(
-- 
2.43.0


From 218f4cae1c5ba1e296b80edbd30a91cc1697c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:52 +0000
Subject: [PATCH 02/11] fix: forget the saved state of the previous stroke on
 kDown

Restore() is documented to do nothing if Save() has not been called for this
stroke, but a snapshot of an earlier stroke stayed active across kUp/kDown, so
Restore() mixed the earlier stroke's last input with the current stroke.
---
 ink_stroke_modeler/stroke_modeler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 3e5dbe0..6593546 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -195,6 +195,7 @@ absl::Status StrokeModeler::ProcessDownEvent(const Input &input,
   // Note that many of the sub-modelers require some knowledge about the stroke
   // (e.g. start position, input type) when resetting, and as such are reset
   // here instead of in Reset().
+  save_active_ = false;
   wobble_smoother_.Reset(stroke_model_params_->wobble_smoother_params,
                          input.position, input.time);
   position_modeler_.Reset({.position = input.position, .time = input.time},
-- 
2.43.0


From b25dfdfcd822a1940e2dd9cfeeaf1f4780f62bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:52 +0000
Subject: [PATCH 03/11] fix: do not restore a predictor saved under earlier
 parameters

Save() with prediction disabled kept the predictor copy of an earlier Save(),
so Restore() resurrected a predictor that the current parameters disable.
---
 ink_stroke_modeler/stroke_modeler.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 6593546..48278f1 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -327,9 +327,7 @@ void StrokeModeler::Save() {
   stylus_state_modeler_.Save();
   loop_contraction_mitigation_modeler_.Save();
   saved_last_input_ = last_input_;
-  if (predictor_ != nullptr) {
-    saved_predictor_ = predictor_->MakeCopy();
-  }
+  saved_predictor_ = predictor_ != nullptr ? predictor_->MakeCopy() : nullptr;
   save_active_ = true;
 }
 
@@ -341,9 +339,8 @@ void StrokeModeler::Restore() {
   stylus_state_modeler_.Restore();
   loop_contraction_mitigation_modeler_.Restore();
   last_input_ = saved_last_input_;
-  if (saved_predictor_ != nullptr) {
-    predictor_ = saved_predictor_->MakeCopy();
-  }
+  predictor_ =
+      saved_predictor_ != nullptr ? saved_predictor_->MakeCopy() : nullptr;
 }
 
 }  // namespace stroke_model
-- 
2.43.0


From 29710943bdf37f87f216fa41ae0e5c89792d1858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:15 +0000
Subject: [PATCH 04/11] fix: terminate when interpolating very large
 orientations
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Normalizing an angle by repeatedly adding or subtracting 2π never ends when
the angle is infinite, or so large that 2π is below its precision. Input
orientation is not range-checked, so such an input hung Update().
---
 ink_stroke_modeler/internal/utils.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ink_stroke_modeler/internal/utils.h b/ink_stroke_modeler/internal/utils.h
index c636e09..873cdbb 100644
--- a/ink_stroke_modeler/internal/utils.h
+++ b/ink_stroke_modeler/internal/utils.h
@@ -18,6 +18,7 @@
 #define INK_STROKE_MODELER_INTERNAL_UTILS_H_
 
 #include <algorithm>
+#include <cmath>
 #include <optional>
 
 #include "ink_stroke_modeler/internal/internal_types.h"
@@ -66,6 +67,9 @@ inline float InverseLerp(float a, float b, float value) {
 // interval [0, 2π). All angles are measured in radians.
 inline float InterpAngle(float start, float end, float interp_amount) {
   auto normalize_angle = [](float angle) {
+    // Adding or subtracting 2π alone would never terminate for an angle so
+    // large that 2π is below its precision.
+    if (std::abs(angle) > 2 * kPi) angle = std::fmod(angle, 2 * kPi);
     while (angle < 0) angle += 2 * kPi;
     while (angle > 2 * kPi) angle -= 2 * kPi;
     return angle;
-- 
2.43.0


From 3a3eb3baaaab653b91d39307e4a37571a12e9de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:15 +0000
Subject: [PATCH 05/11] fix: treat infinite stylus values as unknown, like NaN

Interpolating with an infinite pressure, tilt or orientation produced NaN in
results of inputs whose own value was reported and finite.
---
 ink_stroke_modeler/internal/stylus_state_modeler.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ink_stroke_modeler/internal/stylus_state_modeler.cc b/ink_stroke_modeler/internal/stylus_state_modeler.cc
index 0def530..8b94196 100644
--- a/ink_stroke_modeler/internal/stylus_state_modeler.cc
+++ b/ink_stroke_modeler/internal/stylus_state_modeler.cc
@@ -50,15 +50,15 @@ bool ShouldDropOldestInput(
 
 void StylusStateModeler::Update(Vec2 position, Time time,
                                 const StylusState &state) {
-  // Possibly NaN should be prohibited in ValidateInput, but due to current
-  // consumers, that can't be tightened for these values currently.
-  if (state.pressure < 0 || std::isnan(state.pressure)) {
+  // Possibly NaN and infinity should be prohibited in ValidateInput, but due to
+  // current consumers, that can't be tightened for these values currently.
+  if (state.pressure < 0 || !std::isfinite(state.pressure)) {
     state_.received_unknown_pressure = true;
   }
-  if (state.tilt < 0 || std::isnan(state.tilt)) {
+  if (state.tilt < 0 || !std::isfinite(state.tilt)) {
     state_.received_unknown_tilt = true;
   }
-  if (state.orientation < 0 || std::isnan(state.orientation)) {
+  if (state.orientation < 0 || !std::isfinite(state.orientation)) {
     state_.received_unknown_orientation = true;
   }
 
-- 
2.43.0


From e05f2ea27869c612994b810fde946c907ee1cc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:18 +0000
Subject: [PATCH 06/11] fix: apply max_outputs_per_call to Kalman predictions

The number of points was unbounded: a distant estimate combined with a low
catch-up velocity, or a long prediction interval, made Predict() allocate
without limit, and the conversion of the count to int could overflow.
---
 .../internal/prediction/kalman_predictor.cc   | 27 +++++++++++++------
 .../internal/prediction/kalman_predictor.h    |  2 +-
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
index 6bad195..00ab2a6 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
@@ -117,12 +117,16 @@ void KalmanPredictor::ConstructPrediction(
 
   Duration sample_dt{1. / sampling_params_.min_output_rate};
   ConstructCubicConnector(last_state, *estimated_state, predictor_params_,
-                          sample_dt, &prediction);
+                          sample_dt, sampling_params_.max_outputs_per_call,
+                          &prediction);
   auto start_time =
       prediction.empty() ? last_state.time : prediction.back().time;
+  int n_points =
+      std::min(NumberOfPointsToPredict(*estimated_state),
+               sampling_params_.max_outputs_per_call -
+                   static_cast<int>(prediction.size()));
   ConstructCubicPrediction(*estimated_state, predictor_params_, start_time,
-                           sample_dt, NumberOfPointsToPredict(*estimated_state),
-                           &prediction);
+                           sample_dt, n_points, &prediction);
 }
 
 void KalmanPredictor::ConstructCubicPrediction(
@@ -146,7 +150,7 @@ void KalmanPredictor::ConstructCubicPrediction(
 
 void KalmanPredictor::ConstructCubicConnector(
     const TipState &last_tip_state, const State &estimated_state,
-    const KalmanPredictorParams &params, Duration sample_dt,
+    const KalmanPredictorParams &params, Duration sample_dt, int max_points,
     std::vector<TipState> *output) {
   // Estimate how long it will take for the tip to travel from its last position
   // to the estimated position, based on the start and end velocities. We define
@@ -162,9 +166,13 @@ void KalmanPredictor::ConstructCubicConnector(
 
   // Determine how many samples this will give us, ensuring that there's always
   // at least one. Then, pick a duration that's a multiple of the sample dt.
-  int n_points = std::fmax(std::ceil(static_cast<float>(
-                               target_duration.Value() / sample_dt.Value())),
-                           1.f);
+  // The limit is applied before the conversion to int, which might otherwise
+  // overflow.
+  int n_points = std::min<double>(
+      std::fmax(std::ceil(static_cast<float>(target_duration.Value() /
+                                             sample_dt.Value())),
+                1.f),
+      max_points);
   Duration duration = n_points * sample_dt;
 
   // We want to construct a cubic curve connecting the last tip state and the
@@ -279,7 +287,10 @@ int KalmanPredictor::NumberOfPointsToPredict(
 
   auto confidence =
       sample_ratio * normalized_error * normalized_distance * linearity;
-  return std::fmax(0.f, std::ceil(target_number * confidence));
+  // The limit is applied before the conversion to int, which might otherwise
+  // overflow.
+  return std::min<double>(std::fmax(0.f, std::ceil(target_number * confidence)),
+                          sampling_params_.max_outputs_per_call);
 }
 
 }  // namespace stroke_model
diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.h b/ink_stroke_modeler/internal/prediction/kalman_predictor.h
index 76048ef..729b6a8 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.h
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.h
@@ -81,7 +81,7 @@ class KalmanPredictor : public InputPredictor {
   static void ConstructCubicConnector(const TipState &last_tip_state,
                                       const State &estimated_state,
                                       const KalmanPredictorParams &params,
-                                      Duration sample_dt,
+                                      Duration sample_dt, int max_points,
                                       std::vector<TipState> *output);
 
   static void ConstructCubicPrediction(const State &estimated_state,
-- 
2.43.0


From 198255656a2d3567a5d2260c61fe0f0c073485c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:18 +0000
Subject: [PATCH 07/11] fix: make no Kalman prediction when the derivatives are
 not finite

If all retained samples have the same timestamp, the average time step is zero
and the estimated velocity, acceleration and jerk became infinite or NaN, and
with them the predicted results.
---
 .../internal/prediction/kalman_predictor.cc           | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
index 00ab2a6..4bff175 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
@@ -103,6 +103,17 @@ std::optional<KalmanPredictor::State> KalmanPredictor::GetEstimatedState()
   estimated_state.acceleration *= predictor_params_.acceleration_weight;
   estimated_state.jerk *= predictor_params_.jerk_weight;
 
+  // If the samples are simultaneous, or nearly so, then the derivatives can't
+  // be estimated.
+  auto is_finite = [](Vec2 v) {
+    return std::isfinite(v.x) && std::isfinite(v.y);
+  };
+  if (!is_finite(estimated_state.velocity) ||
+      !is_finite(estimated_state.acceleration) ||
+      !is_finite(estimated_state.jerk)) {
+    return std::nullopt;
+  }
+
   return estimated_state;
 }
 
-- 
2.43.0


From 516659ab488f41a97da97a0d97c58ebfcea9b1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:18 +0000
Subject: [PATCH 08/11] fix: return at least one result for a move with an
 unchanged timestamp

Update() is documented to append at least one result if it succeeds, but a
kMove with the timestamp of the previous input appended none. Append the
current state, as is already done for kUp.
---
 ink_stroke_modeler/stroke_modeler.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 48278f1..5522126 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -311,6 +311,12 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
       corrected_position, input.time, *n_steps,
       std::back_inserter(tip_state_buffer_));
 
+  if (tip_state_buffer_.empty()) {
+    // If we haven't generated any new states, add the current state. This can
+    // happen if the move has the same timestamp as the last input.
+    tip_state_buffer_.push_back(position_modeler_.CurrentState());
+  }
+
   if (predictor_ != nullptr) {
     predictor_->Update(corrected_position, input.time);
   }
-- 
2.43.0


From 40c9fc4fb9b48d827f4d9278f275c1195d3a128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:18 +0000
Subject: [PATCH 09/11] fix: reject NaN loop mitigation and linearity
 confidence parameters

The range checks of these parameters were comparisons that are false for NaN,
so NaN was accepted, and turned every result of the stroke into NaN.
---
 ink_stroke_modeler/params.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/ink_stroke_modeler/params.cc b/ink_stroke_modeler/params.cc
index d1ca809..341f65a 100644
--- a/ink_stroke_modeler/params.cc
+++ b/ink_stroke_modeler/params.cc
@@ -48,8 +48,9 @@ const Duration kMaxSamplingWindow = Duration(10000);
 absl::Status ValidateLoopContractionMitigationParameters(
     const PositionModelerParams::LoopContractionMitigationParameters& params) {
   if (!params.is_enabled) return absl::OkStatus();
-  if (params.speed_lower_bound > params.speed_upper_bound ||
-      params.speed_lower_bound < 0) {
+  // Note that these are written such that NaN is rejected.
+  if (!(params.speed_lower_bound <= params.speed_upper_bound &&
+        params.speed_lower_bound >= 0)) {
     return absl::InvalidArgumentError(absl::Substitute(
         "LoopContractionMitigationParameters::speed_lower_bound must be "
         "smaller or equal to "
@@ -59,10 +60,10 @@ absl::Status ValidateLoopContractionMitigationParameters(
         params.speed_lower_bound, params.speed_upper_bound));
   }
 
-  if (params.interpolation_strength_at_speed_lower_bound <
-          params.interpolation_strength_at_speed_upper_bound ||
-      params.interpolation_strength_at_speed_lower_bound > 1 ||
-      params.interpolation_strength_at_speed_upper_bound < 0) {
+  if (!(params.interpolation_strength_at_speed_lower_bound >=
+            params.interpolation_strength_at_speed_upper_bound &&
+        params.interpolation_strength_at_speed_lower_bound <= 1 &&
+        params.interpolation_strength_at_speed_upper_bound >= 0)) {
     return absl::InvalidArgumentError(absl::Substitute(
         "LoopContractionMitigationParameters::interpolation_strength_at_speed_"
         "lower_bound must be greater or equal to "
@@ -82,8 +83,8 @@ absl::Status ValidateLoopContractionMitigationParameters(
         kMaxDiscreteSamples, params.min_discrete_speed_samples));
   }
 
-  if (params.min_speed_sampling_window <= Duration(0) ||
-      params.min_speed_sampling_window > kMaxSamplingWindow) {
+  if (!(params.min_speed_sampling_window > Duration(0) &&
+        params.min_speed_sampling_window <= kMaxSamplingWindow)) {
     return absl::InvalidArgumentError(absl::Substitute(
         "LoopContractionMitigationParameters::min_speed_"
         "sampling_windowmust be in the "
@@ -223,8 +224,8 @@ absl::Status ValidateKalmanPredictorParams(
   RETURN_IF_ERROR(ValidateGreaterThanZero(
       confidence_params.max_linear_deviation,
       "KalmanPredictorParams::ConfidenceParams::max_linear_deviation"));
-  if (confidence_params.baseline_linearity_confidence < 0 ||
-      confidence_params.baseline_linearity_confidence > 1) {
+  if (!(confidence_params.baseline_linearity_confidence >= 0 &&
+        confidence_params.baseline_linearity_confidence <= 1)) {
     return absl::InvalidArgumentError(absl::Substitute(
         "KalmanPredictorParams::ConfidenceParams::baseline_linearity_"
         "confidence must lie in the interval [0, 1]. Actual value: $0",
-- 
2.43.0


From f2f44f546c497325f5841a0e8dc48129fb68133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:57 +0000
Subject: [PATCH 10/11] fix: compute the wobble smoother's averages from the
 samples in the window

The single-precision sums were only ever updated incrementally, so rounding
errors added up over the stroke: the moving average, and the speed that decides
how much of it is used, drifted away from the samples actually in the window.
After a single outlier position they never recovered.
---
 .../internal/wobble_smoother.cc               | 29 ++++++++++---------
 ink_stroke_modeler/internal/wobble_smoother.h |  4 ---
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/ink_stroke_modeler/internal/wobble_smoother.cc b/ink_stroke_modeler/internal/wobble_smoother.cc
index 53fcc2d..151b57d 100644
--- a/ink_stroke_modeler/internal/wobble_smoother.cc
+++ b/ink_stroke_modeler/internal/wobble_smoother.cc
@@ -24,9 +24,6 @@ namespace stroke_model {
 void WobbleSmoother::Reset(const WobbleSmootherParams& params, Vec2 position,
                            Time time) {
   state_.samples.clear();
-  state_.weighted_position_sum = Vec2{0, 0};
-  state_.distance_sum = 0;
-  state_.duration_sum = 0;
   state_.samples.push_back({.position = position, .time = time});
 
   save_active_ = false;
@@ -45,21 +42,26 @@ Vec2 WobbleSmoother::Update(Vec2 position, Time time) {
   Duration delta_time = time - state_.samples.back().time;
   state_.samples.push_back(
       {.position = position,
-       .weighted_position = position * delta_time.Value(),
        .distance = Distance(position, state_.samples.back().position),
        .duration = delta_time,
        .time = time});
-  state_.weighted_position_sum += state_.samples.back().weighted_position;
-  state_.distance_sum += state_.samples.back().distance;
-  state_.duration_sum += state_.samples.back().duration.Value();
   while (state_.samples.front().time < time - params_.timeout) {
-    state_.weighted_position_sum -= state_.samples.front().weighted_position;
-    state_.distance_sum -= state_.samples.front().distance;
-    state_.duration_sum -= state_.samples.front().duration.Value();
     state_.samples.pop_front();
   }
 
-  if (state_.duration_sum == 0) {
+  // Note that these are not maintained incrementally, because the rounding
+  // errors of samples that have already left the window would add up.
+  double weighted_x_sum = 0;
+  double weighted_y_sum = 0;
+  double distance_sum = 0;
+  double duration_sum = 0;
+  for (const Sample& sample : state_.samples) {
+    weighted_x_sum += sample.position.x * sample.duration.Value();
+    weighted_y_sum += sample.position.y * sample.duration.Value();
+    distance_sum += sample.distance;
+    duration_sum += sample.duration.Value();
+  }
+  if (duration_sum == 0) {
     return position;
   }
   // Average of sample positions, weighted by the duration of the preceeding
@@ -68,9 +70,10 @@ Vec2 WobbleSmoother::Update(Vec2 position, Time time) {
   // params. Also, this is only looking at the first of a set of postions with
   // identical timestamps instead of doing someting more complicated in that
   // edge-case.)
-  Vec2 avg_position = state_.weighted_position_sum / state_.duration_sum;
+  Vec2 avg_position = {static_cast<float>(weighted_x_sum / duration_sum),
+                       static_cast<float>(weighted_y_sum / duration_sum)};
   // Estimate of physical average speed.
-  float avg_speed = state_.distance_sum / state_.duration_sum;
+  float avg_speed = distance_sum / duration_sum;
   return Interp(
       avg_position, position,
       Normalize01(params_.speed_floor, params_.speed_ceiling, avg_speed));
diff --git a/ink_stroke_modeler/internal/wobble_smoother.h b/ink_stroke_modeler/internal/wobble_smoother.h
index 982922c..94dc850 100644
--- a/ink_stroke_modeler/internal/wobble_smoother.h
+++ b/ink_stroke_modeler/internal/wobble_smoother.h
@@ -49,7 +49,6 @@ class WobbleSmoother {
  private:
   struct Sample {
     Vec2 position{0, 0};
-    Vec2 weighted_position{0, 0};
     float distance = 0;
     Duration duration{0};
     Time time{0};
@@ -57,9 +56,6 @@ class WobbleSmoother {
 
   struct State {
     std::deque<Sample> samples;
-    Vec2 weighted_position_sum{0, 0};
-    float distance_sum = 0;
-    float duration_sum = 0;
   };
 
   State state_;
-- 
2.43.0


From 56bcec73dae389019cb740d7b0091dbfc0b36f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:51 +0000
Subject: [PATCH 11/11] fix: return exactly the end value when interpolating
 all the way

start + (end - start) loses the low bits of end, and all of it when start is
much larger. Without loop mitigation every result is such an interpolation
from the state projected to the raw input, whose velocity and acceleration are
enormous when two inputs are almost simultaneous; the modeled velocity and
acceleration were then replaced by rounding error, or by NaN.
---
 ink_stroke_modeler/internal/utils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ink_stroke_modeler/internal/utils.h b/ink_stroke_modeler/internal/utils.h
index 873cdbb..b3cf691 100644
--- a/ink_stroke_modeler/internal/utils.h
+++ b/ink_stroke_modeler/internal/utils.h
@@ -47,6 +47,8 @@ inline float Normalize01(float start, float end, float value) {
 // value to the range [0, 1].
 template <typename ValueType>
 inline ValueType Interp(ValueType start, ValueType end, float interp_amount) {
+  // Return `end` exactly, even if it is much smaller than `start`.
+  if (interp_amount >= 1) return end;
   return start + (end - start) * Clamp01(interp_amount);
 }
 
-- 
2.43.0

