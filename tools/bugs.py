#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for every planted bug, and (with 'verify IDs|all') confirms in /repo that
each applies, builds, passes the stable tests, and that its demonstration tells it apart."""
import json, os, shutil, subprocess, sys
V = "/verif"
SM = "ink_stroke_modeler/stroke_modeler.cc"
SMH = "ink_stroke_modeler/stroke_modeler.h"
I = "ink_stroke_modeler/internal/"
PM, PMH = I + "position_modeler.cc", I + "position_modeler.h"
ST = I + "stylus_state_modeler.cc"
WS = I + "wobble_smoother.cc"
LC = I + "loop_contraction_mitigation_modeler.cc"
UT, UTH = I + "utils.cc", I + "utils.h"
KP, KPH = I + "prediction/kalman_predictor.cc", I + "prediction/kalman_predictor.h"
SE = I + "prediction/stroke_end_predictor.cc"
AX = I + "prediction/kalman_filter/axis_predictor.cc"
KF = I + "prediction/kalman_filter/kalman_filter.cc"
KFH = I + "prediction/kalman_filter/kalman_filter.h"
TY = "ink_stroke_modeler/types.h"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("dup-ignores-orientation", "C01",
    [(TY, "         lhs.tilt == rhs.tilt && lhs.orientation == rhs.orientation;\n}\ninline bool operator!=(const Input",
      "         lhs.tilt == rhs.tilt;\n}\ninline bool operator!=(const Input")],
    "two consecutive events equal in everything but the orientation",
    "a well-formed input is refused as a duplicate",
    """
int main() {
  StrokeModeler m;
  OK(m.Reset(Params()).ok());
  OK(Upd(m, In(DOWN, 1, 2, 3, .5, .5, .5)).ok());
  OK(Upd(m, In(MOVE, 2, 2, 3.01, .5, .5, .5)).ok());
  OK(Upd(m, In(MOVE, 2, 2, 3.01, .5, .5, .6)).ok());
  OK(!Upd(m, In(MOVE, 2, 2, 3.01, .5, .5, .6)).ok());
  return 0;
}
""")

bug("up-may-travel-back", "C01",
    [(SM, "    if (input.time < last_input_->input.time) {", "    if (input.event_type == Input::EventType::kMove &&\n        input.time < last_input_->input.time) {")],
    "an Up delivered with a timestamp before the last Move (reordered delivery or a clock stepping back)",
    "time goes backwards unnoticed at the end of a stroke",
    """
int main() {
  StrokeModeler m;
  OK(m.Reset(Params()).ok());
  OK(Upd(m, In(DOWN, 1, 2, 3)).ok());
  OK(Upd(m, In(MOVE, 2, 2, 3.01)).ok());
  OK(!Upd(m, In(UP, 2, 3, 3.005)).ok());
  OK(Upd(m, In(UP, 2, 3, 3.02)).ok());
  return 0;
}
""")

bug("refused-up-recorded", "C02",
    [(SM, """        "Received up event while no stroke is in-progress");
  }
""", """        "Received up event while no stroke is in-progress");
  }

  stylus_state_modeler_.Update(input.position, input.time,
                               {.pressure = input.pressure,
                                .tilt = input.tilt,
                                .orientation = input.orientation});
"""), (SM, """    tip_state_buffer_.push_back(position_modeler_.CurrentState());
  }

  stylus_state_modeler_.Update(input.position, input.time,
                               {.pressure = input.pressure,
                                .tilt = input.tilt,
                                .orientation = input.orientation});

  ModelStylus(""", """    tip_state_buffer_.push_back(position_modeler_.CurrentState());
  }

  ModelStylus(""")],
    "an Up refused because it is too far from the last event in time, after which the stroke continues",
    "the stylus values of the refused Up leak into later results",
    """
int main() {
  auto p = Params();
  StrokeModeler a, b;
  OK(a.Reset(p).ok() && b.Reset(p).ok());
  for (auto* m : {&a, &b}) OK(Upd(*m, In(DOWN, 0, 0, 0, .5, .5, .5)).ok());
  OK(!Upd(b, In(UP, 1, 0, 1e4, -1, -1, -1)).ok());
  auto x = Upd(a, In(MOVE, 1, 1, .01, .6, .6, .6)), y = Upd(b, In(MOVE, 1, 1, .01, .6, .6, .6));
  OK(x.ok() && y.ok() && Same(x.r, y.r));
  return 0;
}
""")

bug("failed-predict-keeps-results", "C02",
    [(SM, """absl::Status StrokeModeler::Predict(std::vector<Result> &results) const {
  results.clear();

""", """absl::Status StrokeModeler::Predict(std::vector<Result> &results) const {
"""), (SM, """        "Cannot construct prediction when no stroke is in-progress");
  }
""", """        "Cannot construct prediction when no stroke is in-progress");
  }
  results.clear();
""")],
    "a prediction asked for after the stroke ended, into the buffer of the previous frame",
    "a failed Predict leaves the stale prediction in the caller's buffer",
    """
int main() {
  StrokeModeler m;
  OK(m.Reset(StrokeEnd(Params())).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
  OK(Upd(m, In(MOVE, 1, 1, .01)).ok());
  std::vector<Result> r;
  OK(m.Predict(r).ok() && !r.empty());
  OK(Upd(m, In(UP, 1, 1, .02)).ok());
  OK(!m.Predict(r).ok());
  OK(r.empty());
  return 0;
}
""")

bug("kalman-estimate-cache", "C03",
    [(KPH, """  std::deque<Time> sample_times_;
""", """  std::deque<Time> sample_times_;

  // The estimate is asked for once per frame, but changes only with an input.
  mutable std::optional<State> cached_state_;
  mutable Time cached_time_{0};
"""), (KP, """  if (!IsStable() || sample_times_.empty()) return std::nullopt;
""", """  if (!IsStable() || sample_times_.empty()) return std::nullopt;
  if (cached_state_.has_value() && cached_time_ == sample_times_.back()) {
    return cached_state_;
  }
"""), (KP, """  return estimated_state;
}

void KalmanPredictor::ConstructPrediction(""", """  cached_state_ = estimated_state;
  cached_time_ = sample_times_.back();
  return estimated_state;
}

void KalmanPredictor::ConstructPrediction("""), (KP, """  sample_times_.clear();
  last_position""", """  sample_times_.clear();
  cached_state_ = std::nullopt;
  last_position""")],
    "two inputs with the same timestamp and a prediction between them",
    "a prediction depends on when earlier predictions were made",
    """
int main() {
  auto p = Kalman(Params());
  StrokeModeler a, b;
  OK(a.Reset(p).ok() && b.Reset(p).ok());
  for (auto* m : {&a, &b}) {
    OK(Upd(*m, In(DOWN, 0, 0, 0)).ok());
    for (int i = 1; i < 12; ++i) OK(Upd(*m, In(MOVE, i * .05f, 0, i * .008)).ok());
  }
  OK(Pred(b).ok());
  for (auto* m : {&a, &b}) OK(Upd(*m, In(MOVE, .62f, .02f, 11 * .008)).ok());
  auto x = Pred(a), y = Pred(b);
  OK(x.ok() && y.ok() && Same(x.r, y.r));
  return 0;
}
""")

bug("predict-shares-speed-history", "C03",
    [(SMH, "  LoopContractionMitigationModeler loop_contraction_mitigation_modeler_;\n", "  mutable LoopContractionMitigationModeler loop_contraction_mitigation_modeler_;\n"),
     (SM, """  // Take a copy because ModelStylus() will modify the modeler passed in.
  LoopContractionMitigationModeler prediction_loop_modeler =
      loop_contraction_mitigation_modeler_;
  ModelStylus(tip_state_buffer_, stylus_state_modeler_, prediction_loop_modeler,
              results, last_input_->input.time);
""", """  ModelStylus(tip_state_buffer_, stylus_state_modeler_,
              loop_contraction_mitigation_modeler_, results,
              last_input_->input.time);
""")],
    "loop mitigation on, and a prediction made in the middle of a stroke of varying speed",
    "predicting changes the blend of the rest of the stroke",
    """
int main() {
  auto p = StrokeEnd(Loop(Params()));
  StrokeModeler a, b;
  OK(a.Reset(p).ok() && b.Reset(p).ok());
  for (auto* m : {&a, &b}) OK(Upd(*m, In(DOWN, 0, 0, 0)).ok());
  for (int i = 1; i < 40; ++i) {
    Input in = In(MOVE, 3 * std::cos(i * .4f), 3 * std::sin(i * .4f), i * .008);
    auto x = Upd(a, in), y = Upd(b, in);
    OK(x.ok() && y.ok() && Same(x.r, y.r));
    OK(Pred(b).ok());
  }
  return 0;
}
""")

bug("restore-once-position", "C04",
    [(PMH, "    if (saved_state_.has_value()) state_ = *saved_state_;\n", """    if (saved_state_.has_value()) {
      state_ = *saved_state_;
      saved_state_.reset();
    }
""")],
    "Restore called twice for one Save",
    "the second Restore does not return the tip to the saved state",
    """
int main() {
  StrokeModeler m;
  OK(m.Reset(Params()).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
  OK(Upd(m, In(MOVE, 1, 0, .02)).ok());
  m.Save();
  auto x = Upd(m, In(MOVE, 2, 0, .03));
  m.Restore();
  auto y = Upd(m, In(MOVE, 2, 0, .03));
  m.Restore();
  auto z = Upd(m, In(MOVE, 2, 0, .03));
  OK(x.ok() && y.ok() && z.ok() && Same(x.r, y.r));
  OK(Same(x.r, z.r));
  return 0;
}
""")

bug("restore-keeps-unknown-flags", "C04",
    [(ST, "    state_ = saved_state_;\n", "    state_.raw_input_and_stylus_states =\n        saved_state_.raw_input_and_stylus_states;\n")],
    "a field that goes missing between Save and Restore",
    "after Restore the field is still treated as missing",
    """
int main() {
  StrokeModeler m;
  OK(m.Reset(Params()).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0, .5, .5, .5)).ok());
  m.Save();
  OK(Upd(m, In(MOVE, 1, 0, .01, -1, .5, .5)).ok());
  m.Restore();
  auto x = Upd(m, In(MOVE, 1, 0, .01, .5, .5, .5));
  OK(x.ok() && !x.r.empty() && Near(x.r.back().pressure, .5, 1e-5));
  return 0;
}
""")

bug("loop-history-survives-up", "C05",
    [(SM, """      stroke_model_params_->stylus_state_modeler_params);
  loop_contraction_mitigation_modeler_.Reset(
      stroke_model_params_->position_modeler_params
          .loop_contraction_mitigation_params);
""", """      stroke_model_params_->stylus_state_modeler_params);
""")],
    "loop mitigation on, and a second stroke without Reset in between",
    "the speeds of the previous stroke decide the blend at the beginning of the next",
    """
int main() {
  auto p = Loop(Params());
  StrokeModeler a, b;
  OK(a.Reset(p).ok() && b.Reset(p).ok());
  OK(Upd(b, In(DOWN, 0, 0, 0)).ok());
  for (int i = 1; i < 20; ++i) OK(Upd(b, In(MOVE, i * .8f, 0, i * .008)).ok());
  OK(Upd(b, In(UP, 16, 0, .2)).ok());
  for (auto* m : {&a, &b}) OK(Upd(*m, In(DOWN, 0, 0, 1)).ok());
  for (int i = 1; i < 10; ++i) {
    Input in = In(MOVE, std::sin(i * .5f), std::cos(i * .5f) - 1, 1 + i * .01);
    auto x = Upd(a, in), y = Upd(b, in);
    OK(x.ok() && y.ok() && Same(x.r, y.r));
  }
  return 0;
}
""")

bug("spacing-survives-reset", "C05",
    [(KP, "  sample_times_.clear();\n", "")],
    "a second stroke, with Kalman prediction, soon after another",
    "the input spacing of the previous stroke scales the predictions of the next",
    """
int main() {
  auto p = Kalman(Params());
  StrokeModeler a, b;
  OK(a.Reset(p).ok() && b.Reset(p).ok());
  OK(Upd(b, In(DOWN, 0, 0, 0)).ok());
  for (int i = 1; i < 20; ++i) OK(Upd(b, In(MOVE, i * .05f, 0, i * .008)).ok());
  OK(Upd(b, In(UP, 1, 0, .2)).ok());
  for (auto* m : {&a, &b}) OK(Upd(*m, In(DOWN, 0, 0, 1)).ok());
  for (int i = 1; i < 14; ++i) {
    Input in = In(MOVE, i * .05f, i * i * .002f, 1 + i * .008);
    OK(Upd(a, in).ok() && Upd(b, in).ok());
    auto x = Pred(a), y = Pred(b);
    OK(x.ok() && y.ok() && Same(x.r, y.r));
  }
  return 0;
}
""")

bug("normal-from-callers-buffer", "C06",
    [(SM, "  result.reserve(tip_states.size());\n", "  // The results continue the ones that were already returned.\n  if (!result.empty()) prev_time = result.back().time;\n  result.reserve(result.size() + tip_states.size());\n")],
    "stroke-normal projection, a curved stroke, and a caller that accumulates results in one buffer",
    "the values produced depend on what the caller's buffer holds",
    """
int main() {
  auto p = Loop(Params());
  StrokeModeler a, b;
  OK(a.Reset(p).ok() && b.Reset(p).ok());
  std::vector<Result> acc;
  OK(Upd(a, In(DOWN, 0, 0, 0)).ok());
  OK(b.Update(In(DOWN, 0, 0, 0), acc).ok());
  for (int i = 1; i < 40; ++i) {
    Input in = In(MOVE, 3 * std::cos(i * .7f), 3 * std::sin(i * .7f), i * .02);
    auto x = Upd(a, in);
    size_t n = acc.size();
    OK(x.ok() && b.Update(in, acc).ok());
    OK(Same(x.r, std::vector<Result>(acc.begin() + n, acc.end())));
  }
  return 0;
}
""")

bug("down-clears-buffer", "C06",
    [(SM, "  last_input_ = {.input = input, .corrected_position = input.position};\n  result.push_back({", "  last_input_ = {.input = input, .corrected_position = input.position};\n  // A new stroke begins.\n  result.clear();\n  result.push_back({")],
    "a caller that collects several strokes in one buffer",
    "the results of earlier strokes disappear from the caller's buffer",
    """
int main() {
  StrokeModeler m;
  OK(m.Reset(Params()).ok());
  std::vector<Result> acc;
  for (int s = 0; s < 3; ++s) {
    size_t n = acc.size();
    OK(m.Update(In(DOWN, 0, 0, s), acc).ok());
    OK(acc.size() == n + 1);
    OK(m.Update(In(MOVE, 1, 0, s + .01), acc).ok());
    OK(m.Update(In(UP, 2, 0, s + .02), acc).ok());
  }
  return 0;
}
""")

bug("static-scratch-modeler", "C07",
    [(SE, "  PositionModeler modeler;\n  modeler.Reset(", "  static PositionModeler modeler;\n  modeler.Reset(")],
    "two threads predicting with their own modelers at the same time, one preempted inside the end-of-stroke loop",
    "predictions of one modeler follow the other's pen",
    """
int main() {
  auto p = StrokeEnd(Params());
  int bad[4] = {0, 0, 0, 0};
  std::vector<std::thread> th;
  for (int k = 0; k < 4; ++k)
    th.emplace_back([&, k] {
      StrokeModeler m;
      if (!m.Reset(p).ok()) { bad[k] = 1; return; }
      Upd(m, In(DOWN, k * 10, 0, k));
      Upd(m, In(MOVE, k * 10 + 1, k, k + .01));
      auto first = Pred(m).r;
      // The expectation is computed without a prediction: the end of a copy of the stroke.
      StrokeModeler e;
      if (!e.Reset(p).ok()) { bad[k] = 1; return; }
      Upd(e, In(DOWN, k * 10, 0, k));
      Upd(e, In(MOVE, k * 10 + 1, k, k + .01));
      auto want = Upd(e, In(UP, k * 10 + 1, k, k + .01)).r;
      for (int i = 0; i < 200000 && !bad[k]; ++i) bad[k] = !Same(Pred(m).r, want);
    });
  for (auto& t : th) t.join();
  for (int k = 0; k < 4; ++k) OK(!bad[k]);
  return 0;
}
""")

bug("static-process-noise", "C07",
    [(AX, "  Matrix4 process_noise_covariance =\n", "  static const Matrix4 process_noise_covariance =\n")],
    "two modelers with different Kalman process noise in one process",
    "the second modeler filters with the parameters of the first",
    """
int main() {
  auto p = Kalman(Params()), q = p;
  std::get<KalmanPredictorParams>(q.prediction_params).process_noise = .5;
  StrokeModeler a, b;
  OK(a.Reset(p).ok() && b.Reset(q).ok());
  bool differ = false;
  for (auto* m : {&a, &b}) OK(Upd(*m, In(DOWN, 0, 0, 0)).ok());
  for (int i = 1; i < 20; ++i) {
    Input in = In(MOVE, i * .1f, std::sin(i * .9f) * .01f, i * .008);
    OK(Upd(a, in).ok() && Upd(b, in).ok());
    differ = differ || !Same(Pred(a).r, Pred(b).r, 1e-7);
  }
  OK(differ);
  return 0;
}
""")

bug("float-timestamps", "C08",
    [(PM, "  Duration delta_t = end.time - start.time;\n  float float_delta = delta_t.Value();\n", "  float float_delta = static_cast<float>(end.time.Value()) -\n                      static_cast<float>(start.time.Value());\n")],
    "timestamps counted from a distant epoch (wall clock, long uptime)",
    "the number of results per input depends on the clock's epoch",
    """
int main() {
  auto p = Params();
  StrokeModeler a, b;
  OK(a.Reset(p).ok() && b.Reset(p).ok());
  double e = 1 << 26;
  OK(Upd(a, In(DOWN, 0, 0, 0)).ok() && Upd(b, In(DOWN, 0, 0, e)).ok());
  for (int i = 1; i < 20; ++i) {
    auto x = Upd(a, In(MOVE, i, 0, i * .03125)), y = Upd(b, In(MOVE, i, 0, e + i * .03125));
    OK(x.ok() && y.ok() && x.r.size() == y.r.size());
  }
  return 0;
}
""")

bug("segment-epsilon", "C08",
    [(UTH, "  if (segment_start == segment_end) return 0;\n", "  if ((segment_end - segment_start).Magnitude() < 1e-3f) return 0;\n")],
    "coordinates in a large unit (metres instead of pixels), so that inputs are close together",
    "stylus values stop being interpolated in some units",
    """
int main() {
  auto run = [](float u) {
    auto p = Params();
    p.sampling_params.end_of_stroke_stopping_distance *= u;
    StrokeModeler m;
    std::vector<Result> r;
    if (!m.Reset(p).ok()) std::abort();
    (void)m.Update(In(DOWN, 0, 0, 0, 0, 0, 0), r);
    for (int i = 1; i < 30; ++i) (void)m.Update(In(MOVE, i * u * .5f, 0, i * .008, i / 30.f, .1f, .1f), r);
    return r;
  };
  auto a = run(1), b = run(1.f / 1024);
  OK(a.size() == b.size());
  for (size_t i = 0; i < a.size(); ++i) OK(Near(a[i].pressure, b[i].pressure, 1e-4));
  return 0;
}
""")

bug("lenient-ceil", "C09",
    [(PM, "      std::min(std::ceil(float_delta * sampling_params.min_output_rate),\n", "      // Don't add a sample for a timestamp that is only slightly late.\n      std::min(std::ceil(float_delta * sampling_params.min_output_rate * .999),\n")],
    "an event that arrives a little later than a multiple of the output interval",
    "consecutive results are further apart than 1/min_output_rate",
    """
int main() {
  auto p = Params();
  p.sampling_params.min_output_rate = 100;
  StrokeModeler m;
  OK(m.Reset(p).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
  auto x = Upd(m, In(MOVE, 1, 0, .030015));
  OK(x.ok() && x.r.size() == 4);
  return 0;
}
""")

bug("angle-beyond-limit", "C10",
    [(PM, """  if (sampling_params.max_estimated_angle_to_traverse_per_input > 0) {
""", """  if (n_steps > sampling_params.max_outputs_per_call) {
    return absl::InvalidArgumentError(absl::Substitute(
        "Input events are too far apart; requested $0 > $1 samples.", n_steps,
        sampling_params.max_outputs_per_call));
  }
  if (sampling_params.max_estimated_angle_to_traverse_per_input > 0) {
"""), (PM, """      n_steps = steps_for_angle;
    }
  }
  if (n_steps > sampling_params.max_outputs_per_call) {
    return absl::InvalidArgumentError(absl::Substitute(
        "Input events are too far apart; requested $0 > $1 samples.", n_steps,
        sampling_params.max_outputs_per_call));
  }
""", """      n_steps = steps_for_angle;
    }
  }
""")],
    "angle-based upsampling with a small angle and a sharp turn",
    "one Update appends more results than max_outputs_per_call",
    """
int main() {
  auto p = Params();
  p.sampling_params.max_outputs_per_call = 50;
  p.sampling_params.max_estimated_angle_to_traverse_per_input = .01;
  StrokeModeler m;
  OK(m.Reset(p).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
  for (int i = 1; i < 30; ++i) {
    auto x = Upd(m, In(MOVE, i % 4 < 2 ? 5 : -5, (i + 1) % 4 < 2 ? 5 : -5, i * .02));
    OK(x.r.size() <= 50);
  }
  return 0;
}
""")

bug("step-count-overflow", "C10",
    [(PM, """  int n_steps =
      std::min(std::ceil(float_delta * sampling_params.min_output_rate),
               static_cast<double>(std::numeric_limits<int>::max()));
""", """  int n_steps =
      std::ceil(float_delta * sampling_params.min_output_rate);
""")],
    "two events so far apart that the number of steps does not fit an int (clock jump)",
    "an input that should be refused is accepted without any resampling",
    """
int main() {
  StrokeModeler m;
  OK(m.Reset(Params()).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
  OK(!Upd(m, In(MOVE, 1, 0, 1e9)).ok());
  OK(Upd(m, In(MOVE, 1, 0, .01)).ok());
  return 0;
}
""")

bug("second-oldest-missing", "C11",
    [(ST, "            raw_input_and_stylus_states[1].time) > params.min_sample_duration;\n", "            raw_input_and_stylus_states.at(2).time) >\n               params.min_sample_duration;\n"),
     (ST, "    return raw_input_and_stylus_states.size() > params.min_input_samples &&\n", "    // Keep one input more than necessary, to be on the safe side.\n    return raw_input_and_stylus_states.size() > params.min_input_samples &&\n")],
    "stroke-normal projection with min_input_samples = 1",
    "an uncaught exception: only two inputs are held when the third is looked at",
    """
int main() {
  auto p = Normals(Params());
  p.stylus_state_modeler_params.min_input_samples = 1;
  StrokeModeler m;
  OK(m.Reset(p).ok());
  try {
    OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
    for (int i = 1; i < 30; ++i) OK(Upd(m, In(MOVE, i, 0, i * .01)).ok());
  } catch (...) {
    std::printf("exception\\n");
    return 1;
  }
  return 0;
}
""")

bug("unknown-orientation-sticks", "C12",
    [(ST, "  state_.received_unknown_orientation = false;\n", "")],
    "a stroke without orientation followed by one with orientation on the same modeler",
    "a field that was never reported missing in the stroke is -1",
    """
int main() {
  StrokeModeler m;
  OK(m.Reset(Params()).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0, .5, .5, -1)).ok());
  OK(Upd(m, In(UP, 1, 0, .01, .5, .5, -1)).ok());
  OK(Upd(m, In(DOWN, 0, 0, 1, .5, .5, 1)).ok());
  auto x = Upd(m, In(MOVE, 1, 0, 1.01, .5, .5, 1));
  OK(x.ok() && x.r.back().orientation >= 0);
  return 0;
}
""")

bug("angle-not-normalised", "C12",
    [(UTH, "  return normalize_angle(Interp(start, end, interp_amount));\n", "  return Interp(start, end, interp_amount);\n")],
    "a pen whose orientation passes through zero",
    "orientations below 0 (which read as missing) or above 2*pi are returned",
    """
int main() {
  StrokeModeler m;
  OK(m.Reset(Params()).ok());
  std::vector<Result> r;
  (void)m.Update(In(DOWN, 0, 0, 0, .5, .5, .2f), r);
  (void)m.Update(In(MOVE, 1, 0, .05, .5, .5, 6.2f), r);
  (void)m.Update(In(MOVE, 2, 0, .1, .5, .5, .2f), r);
  (void)m.Update(In(UP, 3, 0, .15, .5, .5, 6.2f), r);
  for (auto& x : r) OK(x.orientation >= 0 && x.orientation <= 6.2832f);
  return 0;
}
""")

bug("up-from-raw-position", "C13",
    [(SM, "      last_input_->corrected_position, last_input_->input.time, input.position,\n", "      last_input_->input.position, last_input_->input.time, input.position,\n")],
    "wobble smoothing on, a slow zigzag, and an Up later than the last Move",
    "the path to the Up starts at the raw instead of the smoothed position of the last input",
    """
// The spring, driven from the smoothed position: with a single Move at rest speed the smoothed
// position is the average over the window, known exactly here.
int main() {
  auto p = Params();
  p.wobble_smoother_params = {.is_enabled = true, .timeout = Duration(1), .speed_floor = 100000, .speed_ceiling = 200000};
  p.sampling_params.min_output_rate = 64;
  StrokeModeler m;
  OK(m.Reset(p).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
  OK(Upd(m, In(MOVE, 1, 0, .0078125)).ok());
  auto a = Upd(m, In(MOVE, 3, 0, .015625)).r.back();
  // window: position 1 for 1/128 s and 3 for 1/128 s: average 2
  auto x = Upd(m, In(UP, 3, 0, .015625 + .03125));
  OK(x.ok() && x.r.size() >= 2);
  double dt = .015625, anchor = 2.5;
  double acc = (anchor - a.position.x) / p.position_modeler_params.spring_mass_constant - p.position_modeler_params.drag_constant * a.velocity.x;
  double v = a.velocity.x + dt * acc, pos = a.position.x + dt * v;
  OK(Near(x.r[0].position.x, pos, 1e-3));
  return 0;
}
""")

bug("wobble-window-one-sample", "C13",
    [(WS, "  while (state_.samples.front().time < time - params_.timeout) {\n", "  if (state_.samples.front().time < time - params_.timeout) {\n")],
    "wobble smoothing on, and a fast burst of events followed by slower ones (or a lost stretch)",
    "samples older than the timeout keep pulling the path",
    """
int main() {
  auto p = Params();
  p.wobble_smoother_params = {.is_enabled = true, .timeout = Duration(.1), .speed_floor = 1000, .speed_ceiling = 2000};
  StrokeModeler m;
  OK(m.Reset(p).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
  for (int i = 1; i <= 90; ++i) OK(Upd(m, In(MOVE, 0, 0, i * .001)).ok());
  // The pen rests somewhere else, with slower events: after a second only these are in the window.
  R x;
  for (int i = 1; i <= 20; ++i) x = Upd(m, In(MOVE, 5, 0, .09 + i * .05));
  OK(x.ok() && Near(x.r.back().position.x, 5, .01));
  return 0;
}
""")

bug("retention-by-newest-minus-oldest", "C14",
    [(ST, "            raw_input_and_stylus_states[1].time) > params.min_sample_duration;\n", "            raw_input_and_stylus_states.front().time) >\n               params.min_sample_duration;\n")],
    "stroke-normal projection with unevenly spaced events",
    "an input is forgotten although without it the retained ones do not span min_sample_duration",
    """
int main() {
  auto p = Normals(Params());
  p.stylus_state_modeler_params.min_input_samples = 2;
  p.stylus_state_modeler_params.min_sample_duration = Duration(.05);
  p.position_modeler_params = {.spring_mass_constant = .05f, .drag_constant = 20.f};
  StrokeModeler m;
  OK(m.Reset(p).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0, 0, 0, 0)).ok());
  OK(Upd(m, In(MOVE, 1, 0, .045, .25f, 0, 0)).ok());
  // the tip is still close to the start: its stylus values come from the first segment
  auto x = Upd(m, In(MOVE, 2, 0, .06, .75f, 0, 0));
  OK(x.ok() && x.r.back().position.x < .9);
  OK(Near(x.r.back().pressure, x.r.back().position.x * .25, .01));
  return 0;
}
""")

bug("first-crossing-kept", "C14",
    [(ST, "        if (distance < best_distance) {\n", "        if (distance < best_distance && !best_projection.has_value()) {\n")],
    "stroke-normal projection where the normal meets the retained path more than once on one side (a loop)",
    "the stylus values come from a farther, older part of the path",
    """
int main() {
  auto p = Normals(Params());
  p.stylus_state_modeler_params.min_input_samples = 50;
  StrokeModeler m;
  OK(m.Reset(p).ok());
  // a long loop: out along y=0, up, and back along y=2 — the normals of the way back (pointing down)
  // meet both legs.
  double t = 0;
  OK(Upd(m, In(DOWN, 0, 0, t, 0, 0, 0)).ok());
  for (int i = 1; i <= 20; ++i) OK(Upd(m, In(MOVE, i * .5f, 0, t += .01, 0, 0, 0)).ok());
  R x;
  for (int i = 1; i <= 12; ++i) x = Upd(m, In(MOVE, 10, i * .2f, t += .01, 1, 0, 0));
  for (int i = 1; i <= 10; ++i) x = Upd(m, In(MOVE, 10 - i * .5f, 2.4f + i * .02f, t += .01, 1, 0, 0));
  OK(x.ok());
  OK(x.r.back().pressure > .9);
  return 0;
}
""")

bug("retry-keeps-time", "C09",
    [(PMH, "        state_ = previous_state;\n        continue;\n", "        state_.position = previous_state.position;\n        state_.velocity = previous_state.velocity;\n        continue;\n")],
    "a stroke that ends in fast motion, so that a catch-up step overshoots and is retried",
    "the retried step starts at the time of the discarded one: the catch-up leaves gaps in time longer than 1/min_output_rate",
    """
int main() {
  StrokeModeler m;
  OK(m.Reset(Params()).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
  for (int i = 1; i < 10; ++i) OK(Upd(m, In(MOVE, i * 2.f, 0, i * .01)).ok());
  auto x = Upd(m, In(UP, 18.5f, 0, .095));
  OK(x.ok());
  double last = .095 - .005;
  for (auto& r : x.r) {
    OK(r.time.Value() - last <= 1. / 180 + 1e-6);
    last = r.time.Value();
  }
  return 0;
}
""")

bug("overshoot-tolerance", "C15",
    [(PMH, "      if (closest_t < 1) {\n", "      if (closest_t < .97f) {\n")],
    "a catch-up step that passes the end point only slightly",
    "the stroke goes past the Up position and may turn back",
    """
int main() {
  // The catch-up may come close to the Up position, but never pass it.
  for (int k = 0; k < 400; ++k) {
    StrokeModeler m;
    OK(m.Reset(Params()).ok());
    OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
    for (int i = 1; i < 10; ++i) OK(Upd(m, In(MOVE, i * 2.f, 0, i * .01)).ok());
    float e = 16 + k * .01f;
    auto x = Upd(m, In(UP, e, 0, .09));
    for (auto& r : x.r) OK(r.position.x <= e + 1e-4 || r.time.Value() <= .09 + 1e-9);
  }
  return 0;
}
""")

bug("prediction-capped-by-outputs", "C16",
    [(SE, "                           sampling_params_.end_of_stroke_max_iterations,\n                           sampling_params_.end_of_stroke_stopping_distance,\n",
      "                           std::min(\n                               sampling_params_.end_of_stroke_max_iterations,\n                               sampling_params_.max_outputs_per_call),\n                           sampling_params_.end_of_stroke_stopping_distance,\n"),
     (SE, "#include <", "#include <algorithm>\n#include <")],
    "max_outputs_per_call smaller than end_of_stroke_max_iterations",
    "the prediction is shorter than what ending the stroke would draw",
    """
int main() {
  auto p = StrokeEnd(Params());
  p.sampling_params.max_outputs_per_call = 3;
  StrokeModeler m, e;
  OK(m.Reset(p).ok() && e.Reset(p).ok());
  for (auto* x : {&m, &e}) {
    OK(Upd(*x, In(DOWN, 0, 0, 0)).ok());
    OK(Upd(*x, In(MOVE, 9, 4, .01)).ok());
  }
  OK(Same(Pred(m).r, Upd(e, In(UP, 9, 4, .01)).r));
  return 0;
}
""")

bug("confidence-from-recent-samples", "C17",
    [(KP, "      std::min(1.f, static_cast<float>(x_predictor_.NumIterations()) /\n", "      std::min(1.f, static_cast<float>(sample_times_.size()) /\n")],
    "max_time_samples below desired_number_of_samples, and a long enough stroke",
    "the confidence never reaches the configured one and predictions stay short",
    """
int main() {
  auto p = Kalman(Params());
  auto& k = std::get<KalmanPredictorParams>(p.prediction_params);
  k.max_time_samples = 5;
  k.prediction_interval = Duration(.1);
  StrokeModeler m;
  OK(m.Reset(p).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
  size_t n = 0;
  for (int i = 1; i < 60; ++i) {
    OK(Upd(m, In(MOVE, i * .2f, 0, i * .008)).ok());
    n = Pred(m).r.size();
  }
  // uniform fast motion: full confidence, 18 points and the connector
  OK(n >= 18);
  return 0;
}
""")

bug("one-time-sample-less", "C17",
    [(KP, "      sample_times_.size() >\n", "      sample_times_.size() >=\n")],
    "more inputs than max_time_samples, unevenly spaced",
    "velocity and higher derivatives are scaled by the wrong average spacing",
    """
int main() {
  auto p = Kalman(Params());
  auto& k = std::get<KalmanPredictorParams>(p.prediction_params);
  k.max_time_samples = 4;
  k.prediction_interval = Duration(.05);
  k.acceleration_weight = 0;
  k.jerk_weight = 0;
  StrokeModeler m;
  OK(m.Reset(p).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
  for (int i = 1; i < 80; ++i) OK(Upd(m, In(MOVE, i * .25f, 0, i * .0078125)).ok());
  auto x = Pred(m).r;
  OK(!x.empty());
  // the filter's velocity of .25 per input over the documented spacing: three gaps by four samples
  OK(Near(x.back().velocity.x, .25 / (3 * .0078125 / 4), .5));
  return 0;
}
""")

bug("speed-of-the-spring", "C18",
    [(SM, "        result.back().velocity, tip_state.time);\n", "        tip_state.velocity, tip_state.time);\n")],
    "loop mitigation, and a stroke on which the blended speed differs from the spring's",
    "the blend follows the average speed of the spring model instead of the results",
    """
// The strength of each blend follows from the mean speed of the two previous results.
int main() {
  auto p = Loop(Params());
  auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  l.min_speed_sampling_window = Duration(1e-6);
  l.min_discrete_speed_samples = 2;
  l.speed_lower_bound = 0;
  l.speed_upper_bound = 1000;
  l.interpolation_strength_at_speed_lower_bound = 1;
  l.interpolation_strength_at_speed_upper_bound = 0;
  auto q = p;
  q.position_modeler_params.loop_contraction_mitigation_params.is_enabled = false;
  StrokeModeler m, n;
  OK(m.Reset(p).ok() && n.Reset(q).ok());
  std::vector<Result> a, b;
  for (int i = 0; i < 30; ++i) {
    Input in = In(i ? MOVE : DOWN, 5 * std::cos(i * i * .03f), 5 * std::sin(i * i * .03f), i * .005);
    OK(m.Update(in, a).ok() && n.Update(in, b).ok());
    // both see the same spring; the blend moves the result off it
  }
  OK(a.size() == b.size());
  int judged = 0;
  for (size_t i = 4; i < a.size(); ++i) {
    // strength from the two previous blended speeds
    double s = 1 - std::min(1., (a[i - 1].velocity.Magnitude() + a[i - 2].velocity.Magnitude()) / 2000.);
    double s1 = 1 - std::min(1., (b[i - 1].velocity.Magnitude() + b[i - 2].velocity.Magnitude()) / 2000.);
    if (std::fabs(s - s1) < .005) continue;
    // modeled * s + projected * (1 - s): the projection is on the raw polyline, so for both strengths we
    // can solve for it; only the right strength gives a point on the polyline.
    auto off = [&](double w) {
      double px = (a[i].position.x - w * b[i].position.x) / (1 - w), py = (a[i].position.y - w * b[i].position.y) / (1 - w), best = 1e9;
      for (int j = 1; j < 30; ++j) {
        double ax = 5 * std::cos((j - 1) * (j - 1) * .03f), ay = 5 * std::sin((j - 1) * (j - 1) * .03f), bx = 5 * std::cos(j * j * .03f), by = 5 * std::sin(j * j * .03f);
        double dx = bx - ax, dy = by - ay, u = std::max(0., std::min(1., ((px - ax) * dx + (py - ay) * dy) / (dx * dx + dy * dy)));
        best = std::min(best, std::hypot(ax + u * dx - px, ay + u * dy - py));
      }
      return best;
    };
    double right = off(s), wrong = off(s1);
    if (std::fabs(right - wrong) < .01) continue;
    ++judged;
    OK(right < .01);
  }
  OK(judged > 0);
  return 0;
}
""")

bug("reentrancy-flag", "C19",
    [(SMH, "  bool save_active_ = false;\n};", "  bool save_active_ = false;\n  bool in_update_ = false;\n};"),
     (SM, """  switch (input.event_type) {
    case Input::EventType::kDown:
      return ProcessDownEvent(input, results);
    case Input::EventType::kMove:
      return ProcessMoveEvent(input, results);
    case Input::EventType::kUp:
      return ProcessUpEvent(input, results);
  }
  return absl::InvalidArgumentError("Invalid EventType.");
""", """  if (in_update_) {
    return absl::FailedPreconditionError("Update must not be called from itself");
  }
  in_update_ = true;
  absl::Status status = absl::InvalidArgumentError("Invalid EventType.");
  switch (input.event_type) {
    case Input::EventType::kDown:
      status = ProcessDownEvent(input, results);
      break;
    case Input::EventType::kMove:
      status = ProcessMoveEvent(input, results);
      break;
    case Input::EventType::kUp:
      status = ProcessUpEvent(input, results);
      break;
  }
  in_update_ = false;
  return status;
""")],
    "an allocation that fails inside an Update",
    "after the failure the modeler refuses every input, even after Reset",
    """
static long countdown = -1;
void* operator new(std::size_t n) {
  if (countdown >= 0 && countdown-- == 0) throw std::bad_alloc();
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
  int failed = 0;
  for (int k = 0; k < 8; ++k) {
    StrokeModeler m;
    OK(m.Reset(Params()).ok());
    std::vector<Result> r;
    OK(m.Update(In(DOWN, 0, 0, 0), r).ok());
    countdown = k;
    try {
      (void)m.Update(In(MOVE, 9, 0, 1), r);
    } catch (const std::bad_alloc&) {
      ++failed;
    }
    countdown = -1;
    OK(m.Reset(Params()).ok());
    OK(m.Update(In(DOWN, 0, 0, 0), r).ok());
  }
  OK(failed > 0);
  return 0;
}
""")

bug("clock-ratchet", "C20",
    [(SMH, "  bool save_active_ = false;\n};", "  bool save_active_ = false;\n  // The latest time seen; time does not go backwards from stroke to stroke.\n  std::optional<Time> latest_time_;\n};"),
     (SM, """  switch (input.event_type) {
    case Input::EventType::kDown:
      return""", """  if (latest_time_ && input.time < *latest_time_) {
    return absl::InvalidArgumentError("Inputs travel backwards in time");
  }
  latest_time_ = input.time;

  switch (input.event_type) {
    case Input::EventType::kDown:
      return""")],
    "a clock that jumps forwards and back (or a second stroke from another clock), then Reset",
    "the modeler never serves again until the clock has caught up",
    """
int main() {
  StrokeModeler m;
  OK(m.Reset(Params()).ok());
  OK(Upd(m, In(DOWN, 0, 0, 1000)).ok());
  OK(m.Reset().ok());
  OK(Upd(m, In(DOWN, 0, 0, 1)).ok());
  OK(Upd(m, In(MOVE, 1, 0, 1.01)).ok());
  return 0;
}
""")

bug("simultaneous-raw-velocity", "C21",
    [(ST, """  if (!state_.raw_input_and_stylus_states.empty() &&
      time != state_.raw_input_and_stylus_states.back().time) {
""", """  if (!state_.raw_input_and_stylus_states.empty()) {
""")],
    "loop mitigation on and two events with the same timestamp",
    "infinite or NaN velocities are returned",
    """
int main() {
  auto p = Loop(Params());
  StrokeModeler m;
  OK(m.Reset(p).ok());
  std::vector<Result> r;
  (void)m.Update(In(DOWN, 0, 0, 0, .5, .5, .5), r);
  (void)m.Update(In(MOVE, 1, 1, .01, .5, .5, .5), r);
  (void)m.Update(In(MOVE, 2, 3, .01, .5, .5, .6), r);
  for (int i = 1; i < 20; ++i) (void)m.Update(In(MOVE, 4 + i, 3, .01 + i * .01, .5, .5, .6), r);
  for (auto& x : r) OK(std::isfinite(x.position.x) && std::isfinite(x.velocity.x) && std::isfinite(x.acceleration.x));
  return 0;
}
""")

bug("stylus-history-capped", "C14",
    [(ST, "  while (ShouldDropOldestInput(params_, state_.raw_input_and_stylus_states)) {",
      "  while (state_.raw_input_and_stylus_states.size() > 256 ||\n         ShouldDropOldestInput(params_, state_.raw_input_and_stylus_states)) {")],
    "max_input_samples over 256 and a device reporting fast enough for the tip to lag by more than 256 inputs",
    "the stylus state comes from inputs the tip is nowhere near",
    """
int main() {
  auto p = Params();
  p.stylus_state_modeler_params.max_input_samples = 1000;
  StrokeModeler m;
  OK(m.Reset(p).ok());
  R x = Upd(m, In(DOWN, 0, 0, 0, 0, 0, 0));
  for (int i = 1; i < 600; ++i) x = Upd(m, In(MOVE, i * .01f, 0, i * 1e-5, i * .001f, 0, 0));
  OK(x.ok() && x.r.size() == 1);
  OK(x.r[0].position.x < 1 && x.r[0].pressure < .1);
  return 0;
}
""")

bug("wobble-window-capped", "C13",
    [(WS, "  while (state_.samples.front().time < time - params_.timeout) {",
      "  while (state_.samples.size() > 512 ||\n         state_.samples.front().time < time - params_.timeout) {")],
    "more than 512 inputs within the smoothing window: a long timeout and a fast device",
    "the moving average covers less than the timeout asks for",
    """
int main() {
  auto p = Params();
  p.wobble_smoother_params = {.is_enabled = true, .timeout = Duration(1), .speed_floor = 10, .speed_ceiling = 11};
  StrokeModeler m;
  OK(m.Reset(p).ok());
  R x = Upd(m, In(DOWN, 0, 0, 0));
  for (int i = 1; i <= 1200; ++i) x = Upd(m, In(MOVE, i <= 600 ? 0 : 1, 0, i / 2000.));
  OK(x.ok() && x.r.size() == 1);
  // Half of the window lies at 1.
  OK(x.r[0].position.x > .4 && x.r[0].position.x < .55);
  return 0;
}
""")

ALLOC = """
static long g_left = -1;
void* operator new(size_t n) {
  if (g_left >= 0 && g_left-- == 0) throw std::bad_alloc();
  if (void* p = std::malloc(n ? n : 1)) return p;
  throw std::bad_alloc();
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
"""

bug("noexcept-model-stylus", "C19",
    [(SM, "    std::vector<Result> &result, Time prev_time) {", "    std::vector<Result> &result, Time prev_time) noexcept {")],
    "the allocator failing while the caller's results vector grows",
    "a failed allocation ends the process instead of reaching the caller",
    ALLOC + """
int main() {
  int failed = 0;
  for (int k = 0; k < 40; ++k) {
    StrokeModeler m;
    OK(m.Reset(Params()).ok());
    OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
    std::vector<Result> r;
    g_left = k;
    try {
      (void)m.Update(In(MOVE, 1, 1, .1), r);
    } catch (const std::bad_alloc&) {
      ++failed;
    }
    g_left = -1;
    OK(m.Reset().ok());
    OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
  }
  OK(failed > 0);
  return 0;
}
""")

bug("save-swallows-failure", "C19",
    [(SM, "  stylus_state_modeler_.Save();\n", "  try {\n    stylus_state_modeler_.Save();\n  } catch (...) {\n  }\n")],
    "the allocator failing within Save, and a Restore of it later",
    "Save seems to succeed, and Restore brings back only part of the stroke",
    ALLOC + """
int main() {
  int failed = 0;
  auto feed = [](StrokeModeler& m, int from, int to, float y) {
    std::vector<Result> r;
    for (int i = from; i < to; ++i) (void)m.Update(In(MOVE, i * .1f, y, i * .01, i * .01f, .5, .5), r);
    return r;
  };
  for (int k = 0; k < 60; ++k) {
    StrokeModeler m, ref;
    for (auto* x : {&m, &ref}) {
      OK(x->Reset(Params()).ok());
      OK(Upd(*x, In(DOWN, 0, 0, 0, 0, .5, .5)).ok());
      feed(*x, 1, 8, 0);
    }
    bool saved = true;
    g_left = k;
    try {
      m.Save();
    } catch (const std::bad_alloc&) {
      saved = false;
      ++failed;
    }
    g_left = -1;
    if (!saved) continue;
    feed(m, 8, 20, 1);
    m.Restore();
    OK(Same(feed(m, 8, 20, 0), feed(ref, 8, 20, 0)));
  }
  OK(failed > 0);
  return 0;
}
""")

bug("refusals-end-the-stroke", "C20",
    [(SMH, "  bool save_active_ = false;\n};", "  bool save_active_ = false;\n  int refused_ = 0;\n};"),
     (SM, "      return absl::InvalidArgumentError(\"Inputs travel backwards in time\");",
      "      if (++refused_ > 100) last_input_.reset();\n      return absl::InvalidArgumentError(\"Inputs travel backwards in time\");")],
    "more than a hundred late events refused within the life of one modeler",
    "the stroke in progress is lost: once the faults stop, well-formed events are still refused",
    """
int main() {
  StrokeModeler m;
  OK(m.Reset(Params()).ok());
  OK(Upd(m, In(DOWN, 0, 0, 1)).ok());
  for (int i = 0; i < 300; ++i) OK(!Upd(m, In(MOVE, 1, 1, .5)).ok());
  OK(Upd(m, In(MOVE, 1, 1, 1.01)).ok());
  return 0;
}
""")

bug("running-speed-sum", "C18",
    [(I + "loop_contraction_mitigation_modeler.h", "  bool save_active_", "  float sum_ = 0, saved_sum_ = 0;\n  bool save_active_"),
     (LC, "  speed_samples_.clear();\n", "  speed_samples_.clear();\n  sum_ = 0;\n"),
     (LC, "  float sum = 0;\n  for (const auto& speed_sample : speed_samples_) {\n    sum += speed_sample.speed;\n  }\n", "  float sum = sum_;\n"),
     (LC, "time = time});\n  while", "time = time});\n  sum_ += speed_samples_.back().speed;\n  while"),
     (LC, "    speed_samples_.pop_front();\n", "    sum_ -= speed_samples_.front().speed;\n    speed_samples_.pop_front();\n"),
     (LC, "  saved_speed_samples_ = speed_samples_;", "  saved_speed_samples_ = speed_samples_;\n  saved_sum_ = sum_;"),
     (LC, "  if (save_active_) speed_samples_ = saved_speed_samples_;\n}", "  if (save_active_) {\n    speed_samples_ = saved_speed_samples_;\n    sum_ = saved_sum_;\n  }\n}")],
    "a very fast movement that has left the window again: its rounding error stays in the sum",
    "the average speed, and with it the strength of the mitigation, is wrong for the rest of the stroke",
    """
int main() {
  auto p = Loop(Params());
  StrokeModeler a, b;
  OK(a.Reset(p).ok() && b.Reset(p).ok());
  std::vector<Result> ra, rb;
  for (int i = 0; i < 400; ++i) {
    float far = i > 3 && i < 8 ? (i % 2 ? 1e9f : -1.3e9f) : 0;
    float x = std::cos(i * .1f) * 1.3f, y = std::sin(i * .1f) * .7f;
    auto t = i == 0 ? DOWN : MOVE;
    ra.clear();
    rb.clear();
    OK(a.Update(In(t, x, y, i * .01), ra).ok());
    OK(b.Update(In(t, x + far, y, i * .01), rb).ok());
  }
  OK(Same(ra, rb, 1e-3));
  return 0;
}
""")

bug("retries-not-counted", "C15",
    [(PMH, "        state_ = previous_state;\n        continue;", "        state_ = previous_state;\n        if (delta_time.Value() > 1e-3) --i;\n        continue;")],
    "the end of a stroke overshooting on the last iteration it may take, while the step is still long",
    "more steps are taken than end_of_stroke_max_iterations, which counts the discarded ones",
    """
int main() {
  auto p = Params();
  p.sampling_params.end_of_stroke_max_iterations = 1;
  StrokeModeler m;
  OK(m.Reset(p).ok());
  R x = Upd(m, In(DOWN, 0, 0, 0));
  for (int i = 1; i <= 90; ++i) x = Upd(m, In(MOVE, i / 18.f, 0, i / 180.));
  OK(x.ok() && !x.r.empty());
  Result tip = x.r.back();
  x = Upd(m, In(UP, tip.position.x + .02f, 0, .5));
  OK(x.ok() && x.r.size() == 1);
  OK(x.r[0].time == tip.time && Near(x.r[0].position.x, tip.position.x, 1e-5));
  return 0;
}
""")

bug("prediction-kept-while-tip-rests", "C03",
    [(SE, "  prediction.clear();\n  if (!last_position_) {", """  static thread_local const StrokeEndPredictor* owner = nullptr;
  static thread_local TipState key;
  static thread_local std::vector<TipState> cached;
  if (owner == this && key.time == last_state.time &&
      key.position == last_state.position &&
      key.velocity == last_state.velocity) {
    prediction = cached;
    return;
  }
  prediction.clear();
  if (!last_position_) {"""),
     (SE, "                           std::back_inserter(prediction));", "                           std::back_inserter(prediction));\n  owner = this;\n  key = last_state;\n  cached = prediction;")],
    "a prediction, then an event with the same timestamp (which does not move the tip), then another prediction",
    "the second prediction depends on whether the first was made: it still ends at the earlier input",
    """
int main() {
  StrokeModeler a, b;
  for (auto* m : {&a, &b}) {
    OK(m->Reset(StrokeEnd(Params())).ok());
    OK(Upd(*m, In(DOWN, 0, 0, 0)).ok());
    OK(Upd(*m, In(MOVE, 1, 0, .01)).ok());
    if (m == &a) OK(Pred(a).ok());
    OK(Upd(*m, In(MOVE, 1, 2, .01)).ok());
  }
  OK(Same(Pred(a).r, Pred(b).r));
  return 0;
}
""")

bug("kalman-times-capped", "C17",
    [(KP, "          static_cast<size_t>(predictor_params_.max_time_samples)) {", "          std::min<size_t>(\n              64, static_cast<size_t>(predictor_params_.max_time_samples))) {")],
    "max_time_samples over 64 and a report rate that changes during the stroke",
    "the predicted velocity is scaled by the mean interval of the wrong number of inputs",
    """
int main() {
  auto p = Kalman(Params());
  std::get<KalmanPredictorParams>(p.prediction_params).max_time_samples = 400;
  StrokeModeler m;
  OK(m.Reset(p).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
  double t = 0;
  for (int i = 1; i <= 200; ++i) {
    t += i <= 100 ? .004 : .008;
    OK(Upd(m, In(MOVE, i * .04f, 0, t)).ok());
  }
  auto r = Pred(m).r;
  OK(!r.empty());
  // .04 per input, and .006 between the inputs on average.
  OK(Near(r.back().velocity.x, .04 / .006, .5));
  return 0;
}
""")

bug("corrected-only-with-steps", "C13",
    [(SM, "  last_input_ = {.input = input, .corrected_position = corrected_position};", "  last_input_ = {\n      .input = input,\n      .corrected_position = n_steps.value() > 0 ? corrected_position : input.position};")],
    "wobble smoothing, a Move with the timestamp of the input before, and a next Move of at least two steps",
    "the path towards the next input starts from the raw position",
    """
int main() {
  auto p = Params();
  p.wobble_smoother_params = {.is_enabled = true, .timeout = Duration(.04), .speed_floor = 10, .speed_ceiling = 11};
  StrokeModeler m;
  OK(m.Reset(p).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
  for (int i = 1; i < 6; ++i) OK(Upd(m, In(MOVE, 0, 0, i * .005)).ok());
  R x = Upd(m, In(MOVE, .01f, 0, .025));
  OK(x.ok() && x.r.size() == 1);
  Result before = x.r[0];
  x = Upd(m, In(MOVE, .011f, 0, .036));
  OK(x.ok() && x.r.size() == 2);
  // The anchors, recovered from the spring equation.
  double mass = p.position_modeler_params.spring_mass_constant, drag = p.position_modeler_params.drag_constant;
  auto anchor = [&](const Result& s, const Result& r) { return (r.acceleration.x + drag * s.velocity.x) * mass + s.position.x; };
  double a1 = anchor(before, x.r[0]), a2 = anchor(x.r[0], x.r[1]);
  OK(std::fabs(2 * a1 - a2) < 1e-4);
  return 0;
}
""")

bug("params-by-address", "C07",
    [(PMH, "  PositionModelerParams params_;\n", "  const PositionModelerParams* drag_params_ = nullptr;\n  PositionModelerParams params_;\n"),
     (PMH, "  void Reset(const TipState& state, PositionModelerParams params) {\n    params_ = params;", "  void Reset(const TipState& state, const PositionModelerParams& params) {\n    params_ = params;\n    drag_params_ = &params_;"),
     (PM, "params_.drag_constant * state_.velocity", "drag_params_->drag_constant * state_.velocity")],
    "a modeler moved during a stroke, and the modeler it was moved from used again",
    "the moved modeler follows the parameters of the other one",
    """
int main() {
  auto p = Params(), q = p;
  q.position_modeler_params.drag_constant = 10;
  StrokeModeler ref;
  auto a = std::make_unique<StrokeModeler>();
  OK(ref.Reset(p).ok() && a->Reset(p).ok());
  for (auto* m : {&ref, a.get()}) OK(Upd(*m, In(DOWN, 0, 0, 0)).ok());
  StrokeModeler b = std::move(*a);
  *a = StrokeModeler();
  OK(a->Reset(q).ok());
  OK(Upd(*a, In(DOWN, 0, 0, 0)).ok());
  for (int i = 1; i < 10; ++i) OK(Same(Upd(ref, In(MOVE, i, 1, i * .01)).r, Upd(b, In(MOVE, i, 1, i * .01)).r));
  return 0;
}
""")

bug("one-speed-sample-dropped", "C18",
    [(LC, "  while (!speed_samples_.empty() &&", "  if (!speed_samples_.empty() &&")],
    "a device that slows its reports down during a stroke, so that several samples leave the window at once",
    "the average speed covers more than the sampling window",
    """
int main() {
  auto p = Loop(Params()), m = p, q = p;
  m.position_modeler_params.loop_contraction_mitigation_params.is_enabled = false;
  q.position_modeler_params.loop_contraction_mitigation_params.interpolation_strength_at_speed_lower_bound = 0;
  q.position_modeler_params.loop_contraction_mitigation_params.interpolation_strength_at_speed_upper_bound = 0;
  StrokeModeler s[3];
  OK(s[0].Reset(p).ok() && s[1].Reset(m).ok() && s[2].Reset(q).ok());
  std::vector<Result> r[3];
  float x = 0;
  double t = 0;
  for (int i = 0; i <= 220; ++i) {
    if (i > 0) {
      t += i <= 200 ? .0005 : .005;
      x += i <= 200 ? .02f : .025f;
    }
    for (int k = 0; k < 3; ++k) {
      r[k].clear();
      OK(s[k].Update(In(i ? MOVE : DOWN, .5f * std::cos(x / .5f), .5f * std::sin(x / .5f), t), r[k]).ok() && r[k].size() == 1);
    }
  }
  // The speed has been 5 for twice the window: the strength is 1 - .9 * 5 / 50.
  Vec2 c = r[0][0].position, b = r[1][0].position, a = r[2][0].position;
  OK((b - a).Magnitude() > 1e-3);
  OK(Near((c - a).Magnitude() / (b - a).Magnitude(), .91, .05));
  return 0;
}
""")

bug("restore-keeps-acceleration", "C04",
    [(PMH, "    if (saved_state_.has_value()) state_ = *saved_state_;", "    if (saved_state_.has_value()) {\n      const Vec2 acceleration = state_.acceleration;\n      state_ = *saved_state_;\n      state_.acceleration = acceleration;\n    }")],
    "a Restore followed by an event that does not advance the tip (same timestamp)",
    "the result carries the acceleration from after the Save",
    """
int main() {
  StrokeModeler a, b;
  for (auto* m : {&a, &b}) {
    OK(m->Reset(Params()).ok());
    OK(Upd(*m, In(DOWN, 0, 0, 0)).ok());
    OK(Upd(*m, In(MOVE, 1, 0, .01)).ok());
    if (m == &a) {
      a.Save();
      OK(Upd(a, In(MOVE, 5, 7, .02)).ok());
      a.Restore();
    }
  }
  OK(Same(Upd(a, In(MOVE, 1, 2, .01)).r, Upd(b, In(MOVE, 1, 2, .01)).r));
  return 0;
}
""")

bug("snapshot-of-the-256th-stroke", "C04",
    [(SMH, "  bool save_active_ = false;\n};", "  bool save_active_ = false;\n  unsigned char stroke_ = 0, saved_stroke_ = 0;\n};"),
     (SM, "  const TipState &tip_state = position_modeler_.CurrentState();\n  if (pred", "  ++stroke_;\n  save_active_ = stroke_ == saved_stroke_;\n  const TipState &tip_state = position_modeler_.CurrentState();\n  if (pred"),
     (SM, "  saved_last_input_ = last_input_;\n", "  saved_last_input_ = last_input_;\n  saved_stroke_ = stroke_;\n")],
    "a Save, exactly 256 further strokes, and a Restore without a Save in that stroke",
    "the Restore brings back an input of a stroke that ended long ago",
    """
int main() {
  StrokeModeler m;
  OK(m.Reset(Params()).ok());
  OK(Upd(m, In(DOWN, 0, 0, 1)).ok());
  m.Save();
  OK(Upd(m, In(UP, 0, 0, 1.1)).ok());
  double t = 2;
  for (int i = 0; i < 1000; ++i, t += 1) {
    OK(Upd(m, In(DOWN, 5, 5, t)).ok());
    m.Restore();
    // Still this stroke.
    OK(!Upd(m, In(MOVE, 5, 5.01f, t - .5)).ok());
    OK(Upd(m, In(UP, 5, 5, t + .1)).ok());
  }
  return 0;
}
""")

bug("save-skips-unchanged-input", "C04",
    [(SM, "void StrokeModeler::Save() {\n", "void StrokeModeler::Save() {\n  // Nothing new since the last call.\n  if (save_active_ && last_input_ && saved_last_input_ &&\n      last_input_->input == saved_last_input_->input) {\n    return;\n  }\n")],
    "Save, an event elsewhere at the same time, the first event again, and Save once more",
    "the second Save keeps the older state, so Restore undoes too much",
    """
int main() {
  auto p = Normals(Params());
  StrokeModeler a, b;
  OK(a.Reset(p).ok() && b.Reset(p).ok());
  for (auto* m : {&a, &b}) {
    OK(Upd(*m, In(DOWN, 0, 0, 0, .1, .1, .1)).ok());
    OK(Upd(*m, In(MOVE, 4, 0, .02, .2, .1, .1)).ok());
    if (m == &a) m->Save();
    OK(Upd(*m, In(MOVE, 4, 9, .02, .9, .1, .1)).ok());
    OK(Upd(*m, In(MOVE, 4, 0, .02, .2, .1, .1)).ok());
  }
  a.Save();
  OK(Upd(a, In(MOVE, 9, 0, .05, .2, .1, .1)).ok());
  a.Restore();
  for (int i = 1; i < 6; ++i) {
    auto x = Upd(a, In(MOVE, 4 - i, i * 2, .02 + i * .01, .3, .1, .1)), y = Upd(b, In(MOVE, 4 - i, i * 2, .02 + i * .01, .3, .1, .1));
    OK(x.ok() && y.ok() && Same(x.r, y.r));
  }
  return 0;
}
""")

bug("restore-skips-unchanged-input", "C04",
    [(SM, "  if (!save_active_) return;\n", "  if (!save_active_) return;\n  if (last_input_ && saved_last_input_ &&\n      last_input_->input == saved_last_input_->input) {\n    return;\n  }\n")],
    "after Save an event elsewhere at the same time and then the saved event again, before Restore",
    "Restore does nothing although inputs were accepted since Save",
    """
int main() {
  auto p = Normals(Params());
  StrokeModeler a, b;
  OK(a.Reset(p).ok() && b.Reset(p).ok());
  for (auto* m : {&a, &b}) {
    OK(Upd(*m, In(DOWN, 0, 0, 0, .1, .1, .1)).ok());
    OK(Upd(*m, In(MOVE, 4, 0, .02, .2, .1, .1)).ok());
  }
  a.Save();
  OK(Upd(a, In(MOVE, 4, 9, .02, .9, .1, .1)).ok());
  OK(Upd(a, In(MOVE, 4, 0, .02, .2, .1, .1)).ok());
  a.Restore();
  for (int i = 1; i < 6; ++i) {
    auto x = Upd(a, In(MOVE, 4 - i, i * 2, .02 + i * .01, .3, .1, .1)), y = Upd(b, In(MOVE, 4 - i, i * 2, .02 + i * .01, .3, .1, .1));
    OK(x.ok() && y.ok() && Same(x.r, y.r));
  }
  return 0;
}
""")

bug("refused-reset-drops-saved-predictor", "C02",
    [(SM, "  if (auto status = ValidateStrokeModelParams(stroke_model_params);\n", "  saved_predictor_ = nullptr;\n  if (auto status = ValidateStrokeModelParams(stroke_model_params);\n")],
    "Save, a Reset with invalid parameters, Restore, Predict",
    "a refused Reset takes the predictor of the snapshot away",
    """
int main() {
  auto p = Kalman(Params()), bad = p;
  bad.sampling_params.min_output_rate = -1;
  StrokeModeler m;
  OK(m.Reset(p).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
  for (int i = 1; i < 8; ++i) OK(Upd(m, In(MOVE, i, 0, i * .01)).ok());
  m.Save();
  OK(!m.Reset(bad).ok());
  m.Restore();
  OK(Pred(m).ok());
  OK(Upd(m, In(MOVE, 9, 0, .09)).ok());
  return 0;
}
""")

bug("room-for-the-limit", "C11",
    [(SM, "  tip_state_buffer_.reserve(*n_steps);\n", "  tip_state_buffer_.reserve(\n      stroke_model_params_->sampling_params.max_outputs_per_call);\n")],
    "a client that sets max_outputs_per_call to the largest int, as 'no limit'",
    "the first Move asks for tens of gigabytes and throws",
    """
#include <sys/resource.h>
int main() {
  rlimit l{size_t(4) << 30, size_t(4) << 30};
  setrlimit(RLIMIT_AS, &l);
  auto p = Params();
  p.sampling_params.max_outputs_per_call = std::numeric_limits<int>::max();
  StrokeModeler m;
  OK(m.Reset(p).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
  try {
    OK(Upd(m, In(MOVE, 1, 0, .02)).ok());
  } catch (const std::exception& e) {
    std::printf("threw %s\\n", e.what());
    return 1;
  }
  return 0;
}
""")

bug("estimate-shared-by-modelers", "C07",
    [(KP, "  auto estimated_state = GetEstimatedState();\n", """  // Predictions are often asked for several times per input.
  static thread_local std::optional<State> estimate;
  static thread_local std::optional<Vec2> estimate_position;
  static thread_local Time estimate_time{0};
  static thread_local int estimate_iterations = -1;
  if (sample_times_.empty() || estimate_position != last_position_received_ ||
      estimate_time != sample_times_.back() ||
      estimate_iterations != x_predictor_.NumIterations()) {
    estimate = GetEstimatedState();
    estimate_position = last_position_received_;
    estimate_iterations = x_predictor_.NumIterations();
    if (!sample_times_.empty()) estimate_time = sample_times_.back();
  }
  auto estimated_state = estimate;
""")],
    "two modelers with different parameters fed the same events on one thread, each predicting",
    "the second modeler predicts from the first one's estimate",
    """
int main() {
  auto p = Kalman(Params()), q = p;
  std::get<KalmanPredictorParams>(q.prediction_params).process_noise = .5;
  StrokeModeler a, b, c;
  OK(a.Reset(p).ok() && b.Reset(q).ok() && c.Reset(q).ok());
  R alone, shared;
  for (int i = 0; i < 9; ++i) OK(Upd(c, In(i ? MOVE : DOWN, i, (i % 3) * .2f, i * .01)).ok());
  alone = Pred(c);
  for (int i = 0; i < 9; ++i) {
    auto in = In(i ? MOVE : DOWN, i, (i % 3) * .2f, i * .01);
    OK(Upd(a, in).ok() && Upd(b, in).ok());
    OK(Pred(a).ok());
    shared = Pred(b);
  }
  OK(alone.ok() && shared.ok() && Same(alone.r, shared.r));
  return 0;
}
""")

bug("turn-beyond-the-limit", "C10",
    [(PM, "    if (steps_for_angle > n_steps) {\n", "    if (steps_for_angle > n_steps &&\n        steps_for_angle <= sampling_params.max_outputs_per_call) {\n")],
    "a sharp turn under a limit on the change of direction that needs more than max_outputs_per_call results",
    "the input is accepted with too few results instead of refused",
    """
int main() {
  auto p = Params();
  p.sampling_params.max_outputs_per_call = 50;
  p.sampling_params.max_estimated_angle_to_traverse_per_input = .01f;
  StrokeModeler m;
  OK(m.Reset(p).ok());
  OK(Upd(m, In(DOWN, 0, 0, 0)).ok());
  OK(Upd(m, In(MOVE, 5, 0, .01)).ok());
  OK(!Upd(m, In(MOVE, -500, 3, .03)).ok());
  OK(Upd(m, In(MOVE, 5.01, 0, .0101)).ok());
  return 0;
}
""")

bug("jerk-weight-capped", "C17",
    [(KP, "  estimated_state.jerk *= predictor_params_.jerk_weight;", "  estimated_state.jerk *= std::min(predictor_params_.jerk_weight, 1.f);")],
    "a jerk weight above one",
    "the extrapolation uses a smaller jerk than configured",
    """
int main() {
  auto p = Kalman(Params());
  auto& k = std::get<KalmanPredictorParams>(p.prediction_params);
  k.jerk_weight = 3;
  k.acceleration_weight = 1;
  k.prediction_interval = Duration(.05);
  k.confidence_params.max_linear_deviation = 1e6;
  k.confidence_params.max_estimation_distance = 1e6;
  k.confidence_params.min_travel_speed = 0;
  k.confidence_params.max_travel_speed = 1e-3;
  StrokeModeler m;
  OK(m.Reset(p).ok());
  for (int i = 0; i < 30; ++i) {
    float t = i * .01f;
    OK(Upd(m, In(i ? MOVE : DOWN, 400 * t * t * t, 0, i * .01)).ok());
  }
  auto r = Pred(m);
  OK(r.ok() && r.r.size() > 4);
  // Over the extrapolated part the acceleration grows by the weighted jerk, about 3 * 2400.
  size_t n = r.r.size();
  double jerk = (r.r[n - 1].acceleration.x - r.r[n - 2].acceleration.x) * 180;
  std::printf("jerk %g\\n", jerk);
  OK(jerk > 4000);
  return 0;
}
""")

bug("time-zero-means-unset", "C08",
    [(ST, "      time != state_.raw_input_and_stylus_states.back().time) {", "      state_.raw_input_and_stylus_states.back().time != Time(0) &&\n      time != state_.raw_input_and_stylus_states.back().time) {")],
    "an event exactly at time zero of the clock, with loop mitigation on",
    "the velocity of the raw input, and so the blended results, depend on the clock's epoch",
    """
int main() {
  auto p = Loop(Params());
  p.position_modeler_params.loop_contraction_mitigation_params.interpolation_strength_at_speed_lower_bound = .5f;
  StrokeModeler a, b;
  OK(a.Reset(p).ok() && b.Reset(p).ok());
  for (int i = 0; i < 10; ++i) {
    double t = i / 64.;
    auto x = Upd(a, In(i ? MOVE : DOWN, i, i * i * .1f, t)), y = Upd(b, In(i ? MOVE : DOWN, i, i * i * .1f, t + 4));
    for (auto& r : y.r) r.time = Time(r.time.Value() - 4);
    OK(x.ok() && y.ok() && Same(x.r, y.r));
  }
  return 0;
}
""")

bug("strength-not-restored", "C04",
    [(I + "loop_contraction_mitigation_modeler.h", " private:\n", "  // The value returned by the last call to Update().\n  float CurrentValue() const { return current_value_; }\n\n private:\n  float current_value_ = 1;\n"),
     (LC, "  speed_samples_.clear();\n", "  speed_samples_.clear();\n  current_value_ = 1;\n"),
     (LC, "  return GetInterpolationValue();\n}", "  current_value_ = GetInterpolationValue();\n  return current_value_;\n}"),
     (SM, "      loop_contraction_mitigation_modeler.GetInterpolationValue();", "      loop_contraction_mitigation_modeler.CurrentValue();")],
    "loop mitigation on, and Restore after inputs that changed the recent speed",
    "the first result after Restore is blended with the strength of the inputs that were undone",
    """
int main() {
  StrokeModeler a, b;
  auto p = Loop(Params());
  OK(a.Reset(p).ok() && b.Reset(p).ok());
  for (auto* m : {&a, &b})
    for (int i = 0; i < 12; ++i) OK(Upd(*m, In(i ? MOVE : DOWN, i * .3f, (i % 4) * .1f, i * .01)).ok());
  a.Save();
  for (int i = 12; i < 20; ++i) OK(Upd(a, In(MOVE, i * 3, (i % 4) * 2, i * .01)).ok());
  a.Restore();
  auto x = Upd(a, In(MOVE, 4, 1, .12)), y = Upd(b, In(MOVE, 4, 1, .12));
  OK(x.ok() && y.ok() && Same(x.r, y.r));
  return 0;
}
""")

bug("covariance-frozen", "C17",
    [(KF, "  // P = F * P * F' + Q\n", "  // The filter has long converged.\n  if (iter_num_ > 400) return;\n  // P = F * P * F' + Q\n")],
    "a stroke of more than 400 inputs with prediction",
    "the filter's gain decays to nothing, and the estimate no longer follows the pen",
    """
int main() {
  auto p = Kalman(Params());
  std::get<KalmanPredictorParams>(p.prediction_params).confidence_params.max_estimation_distance = 1e6;
  StrokeModeler m;
  OK(m.Reset(p).ok());
  R early, late;
  // The same zigzag over and over: the estimate has to repeat itself, too.
  for (int i = 0; i < 1000; ++i) {
    int k = i % 40;
    OK(Upd(m, In(i ? MOVE : DOWN, k < 20 ? k * .2f : (40 - k) * .2f, 0, i / 128.)).ok());
    if (i == 320 + 15) early = Pred(m);
    if (i == 920 + 15) late = Pred(m);
  }
  OK(early.ok() && late.ok() && !early.r.empty() && early.r.size() == late.r.size());
  for (size_t i = 0; i < early.r.size(); ++i) OK(Near(early.r[i].position.x, late.r[i].position.x, 2e-3));
  return 0;
}
""")

bug("projection-search-stops-early", "C14",
    [(ST, "      min_distance = distance;\n    }\n  }\n", "      min_distance = distance;\n    } else if (distance > 100 * min_distance) {\n      // The polyline only leads away from here.\n      break;\n    }\n  }\n")],
    "a retained polyline that starts near the tip, leads far away and comes back even nearer",
    "pressure, tilt and orientation come from an older place of the stroke",
    """
int main() {
  auto p = Params();
  p.stylus_state_modeler_params.max_input_samples = 40;
  p.position_modeler_params.drag_constant = 180;
  p.position_modeler_params.spring_mass_constant = 1.f / 32400;
  StrokeModeler m;
  OK(m.Reset(p).ok());
  OK(Upd(m, In(DOWN, 0, .001f, 0, 0, 0, 0)).ok());
  R r;
  float xs[] = {10, 20, 30, 20, 10, 0, 0, 0, 0};
  int n = 0;
  for (float x : xs) { ++n; r = Upd(m, In(MOVE, x, 0, n * .05, n < 6 ? .5f : 1, .5, .5)); OK(r.ok()); }
  OK(Near(r.r.back().position.x, 0, 1e-3));
  std::printf("pressure %g\\n", r.r.back().pressure);
  OK(r.r.back().pressure > .99);
  return 0;
}
""")


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def generate(ids):
    work = "/tmp/bugs_w"
    sh("rm -rf /tmp/bugs_w; git -C /repo worktree prune; git clone -q /repo /tmp/bugs_w")
    for b in BUGS:
        if ids and b["id"] not in ids:
            continue
        sh("git checkout -q -- .", cwd=work)
        for f, old, new in b["edits"]:
            p = os.path.join(work, f)
            s = open(p).read()
            n = s.count(old)
            if n < 1 or (n > 1 and old != "#include <"):
                sys.exit("%s: %s matches %d times in %s" % (b["id"], old[:60], n, f))
            open(p, "w").write(s.replace(old, new, 1))
        d = os.path.join(V, "seeded", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=work).stdout)
        shutil.copy(V + "/tools/bugdemo/demo.sh", d + "/demo.sh")
        os.chmod(d + "/demo.sh", 0o755)
        shutil.copy(V + "/tools/bugdemo/util.h", d + "/util.h")
        shutil.copytree(V + "/sim/shim", d + "/shim")
        open(d + "/demo.cc", "w").write('#include "util.h"\n' + b["demo"].strip("\n") + "\n")
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    sh("rm -rf /tmp/bugs_w")


def verify(ids):
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if False else None
    for b in BUGS:
        if ids and b["id"] not in ids:
            continue
        d = os.path.join(V, "seeded", b["id"])
        a = sh("bash %s/demo.sh" % d, cwd="/repo")
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            print(b["id"], "DOES NOT APPLY", r.stdout)
            continue
        try:
            t = sh("bash /opt/vp/test.sh /tmp/bug_out.json")
            try:
                o = json.load(open("/tmp/bug_out.json"))
                tests = "passed %d failed %s" % (len(o["passed"]), o["failed"])
            except Exception as e:
                tests = "TESTS BROKEN %s" % t.stdout[-500:]
            c = sh("bash %s/demo.sh" % d, cwd="/repo")
        finally:
            sh("git -C /repo checkout -- .")
        ok = a.returncode == 0 and c.returncode not in (0, 99)
        print("%-34s %s clean=%d bug=%d %s %s" % (b["id"], "ok " if ok else "BAD", a.returncode, c.returncode, tests, c.stdout.strip()[-150:].replace("\n", " | ") if ok else (a.stdout + c.stdout)[-600:]), flush=True)


if __name__ == "__main__":
    v = len(sys.argv) > 1 and sys.argv[1] == "verify"
    ids = [x for x in sys.argv[2 if v else 1:] if x != "all"]
    (verify if v else generate)(ids)
