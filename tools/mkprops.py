#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
M = "ink_stroke_modeler/"
SM, SMH = M + "stroke_modeler.cc", M + "stroke_modeler.h"
PM, PMH = M + "internal/position_modeler.cc", M + "internal/position_modeler.h"
ST = M + "internal/stylus_state_modeler.cc"
WS = M + "internal/wobble_smoother.cc"
LC = M + "internal/loop_contraction_mitigation_modeler.cc"
KP = M + "internal/prediction/kalman_predictor.cc"
KF = M + "internal/prediction/kalman_filter/kalman_filter.cc"
SE = M + "internal/prediction/stroke_end_predictor.cc"
UT, UTH = M + "internal/utils.cc", M + "internal/utils.h"
PA, PAH = M + "params.cc", M + "params.h"
TY = M + "types.cc"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe) or ["StrokeModeler public API"], hook_needed=None)))

prop("C01", "Exactly the well-formed calls of the event protocol are accepted",
 "Over any delivered event stream, Reset, Update and Predict succeed exactly when the documented protocol allows them: initialised with valid parameters, Down only when idle, Move and Up only during a stroke, Predict only during a stroke with prediction enabled, finite position and time, known event type, time never going backwards, no exact duplicate of the previous accepted input, and no more than max_outputs_per_call samples needed. Wrong phase or missing initialisation is reported as a failed precondition, a bad value as an invalid argument. A refused call never changes which later calls are accepted.",
 ["histories", "fault_sequences", "configurations"],
 "every sequence of Reset/Update/Predict/Save/Restore calls, with events lost, duplicated, reordered, delayed, corrupted and clocks jumping, under every parameter set",
 "Tests check single refusals from one hand-built state each; acceptance depends on the whole history (phase, last accepted input, saved state, current parameters).",
 [SM, PA, TY, PM], [("phase, duplicate and monotonic-time checks", SM + " Update / Process*Event"), ("parameter validation", PA), ("step limit", PM + " NumberOfStepsBetweenInputs")],
 [("last_input_", "last accepted input; empty when idle", SMH), ("stroke_model_params_", "current parameters; empty until initialised", SMH)])
prop("C02", "A refused call leaves no trace",
 "When any call returns an error - a malformed, duplicated, out-of-order, too distant or enormous input, an event in the wrong phase, invalid parameters, an impossible prediction - the modeler behaves from then on exactly as if that call had never been made. A failed Update leaves the caller's result buffer untouched, and a failed Predict leaves it empty.",
 ["histories", "fault_sequences"],
 "every history with any number of refused calls at any positions",
 "Tests assert the returned status and sometimes the next call; they never compare the whole future of the stroke with and without the refused call.",
 [SM, PM, WS, ST], [("validation happens before any sub-model is touched", SM + " Update / ProcessMoveEvent / ProcessUpEvent / Reset")],
 [("sub-model states", "wobble window, tip state, polyline, speed window, predictor", SMH)])
prop("C03", "Predicting never disturbs the stroke and is repeatable",
 "Calling Predict any number of times, at any moments, changes no later result, status or prediction. Two predictions with no state change in between are identical, and a prediction depends only on the parameters and the inputs accepted in the current stroke.",
 ["schedules", "histories"],
 "every placement of Predict calls (frame callbacks) between the other calls, for every prediction strategy",
 "Tests call Predict at a few fixed points of fixed strokes; the claim is over all placements and repetitions.",
 [SM, SMH, KP, SE], [("const prediction on copies of the mutable sub-models", SM + " Predict")],
 [("tip_state_buffer_", "mutable scratch shared by Update and Predict", SMH)])
prop("C04", "Restore returns exactly to the last Save of the stroke",
 "After Restore the modeler behaves exactly as if the inputs accepted since the last Save of this stroke had never been delivered, even if they ended the stroke, and however many times Restore is called. Restore does nothing when no Save was made since the stroke began (its Down) or since Reset; Save itself changes nothing.",
 ["histories", "schedules"],
 "every interleaving of Save and Restore with inputs, predictions, refused calls, stroke ends, new strokes and Resets",
 "Tests save and restore once or twice within one short stroke; combinations across stroke ends, new strokes, parameter changes and repeated restores are not reached.",
 [SM, WS, PMH, ST, LC, KP], [("each stateful component saves and restores itself", SM + " Save / Restore")],
 [("save_active_ / saved_*", "the saved snapshot", SMH + " and every sub-model")])
prop("C05", "Every stroke starts from a clean slate",
 "The results and predictions of a stroke depend only on the parameters in force and on the inputs accepted since its Down. Nothing leaks from earlier strokes, earlier parameters, abandoned or refused work, or snapshots taken earlier, with Reset called between strokes or not.",
 ["histories", "configurations"],
 "every history of earlier strokes, cancels, re-configurations, saves, restores and predictions before a Down",
 "Tests use mostly fresh modelers, or one reset in between; leaks need particular earlier histories.",
 [SM, WS, ST, LC, KP, KF, SE], [("sub-models are reset at Down", SM + " ProcessDownEvent"), ("predictor reset", KP + " Reset, " + KF + " Reset")],
 [("all sub-model state", "must be re-initialised at Down", SMH)])
prop("C06", "Update only appends to the caller's buffer; Predict only replaces it",
 "Update appends its new results after whatever the caller's buffer holds and never reads or alters the existing contents; Predict replaces the contents completely. The values produced do not depend on the buffer's contents, size, capacity or reuse across strokes and instances.",
 ["histories", "inputs"],
 "every content, size and capacity of the caller's buffers at every call",
 "Tests pass empty or freshly cleared vectors almost everywhere.",
 [SM], [("push_back only; clear first in Predict", SM + " ModelStylus / Predict / ProcessDownEvent")])
prop("C07", "Modelers never influence each other",
 "Any number of modelers, used from one thread or from several threads (each modeler by one thread at a time), produce exactly what each would produce alone, whatever the interleaving of their calls, down to preemption inside a call. A modeler may be moved in memory between calls without any effect.",
 ["schedules", "histories"],
 "every interleaving of calls on several modelers and every preemption point inside the library's code",
 "Tests drive one modeler at a time on one thread.",
 [SM, KP, ST, UTH, PA], [("no mutable static or shared state anywhere", "all of " + M)])
prop("C08", "Clock epoch and the choice of units do not matter",
 "Shifting all timestamps by a constant, or expressing time or distance (inputs and the corresponding parameters) in another unit, yields the same statuses, the same number of results and the same results in the shifted or rescaled coordinates, up to floating-point rounding; likewise moving or rotating the coordinate frame by a quarter turn. (Kalman prediction is excepted for distance units only.)",
 ["inputs", "configurations", "fault_sequences"],
 "every event stream, parameter set, epoch (including zero, negative and wall-clock values), unit of time and distance, and frame",
 "Tests use one epoch and one unit system per case, near time zero.",
 [SM, PM, WS, ST, LC, KP, UTH], [("all formulas are dimensionally homogeneous and use time differences only", "all of " + M)])
prop("C09", "Result timestamps follow the input clock at the promised rate",
 "Every accepted input yields at least one result; the Down result carries the input's time; result times never decrease within a stroke; consecutive results are never further apart than 1/min_output_rate; and each Move's results end at the Move's time. Inputs arriving faster than min_output_rate give exactly one result each, slower ones the fewest evenly spaced results that satisfy the rate and, if set, the limit on the estimated change of direction per result; an Up first reaches its own time and then continues in steps of at most 1/min_output_rate.",
 ["inputs", "fault_sequences", "configurations"],
 "every sequence of input timestamps: jitter, bursts, equal timestamps, stalls and jumps, at any epoch",
 "Tests check a few regular spacings.",
 [SM, PM, PMH], [("number of steps between inputs", PM), ("interpolated times", PMH + " UpdateAlongLinearPath")])
prop("C10", "Output per call stays bounded however far apart events are",
 "No Update appends more than max_outputs_per_call results (an Up, at most end_of_stroke_max_iterations more), and no Predict returns more than the larger of the two limits. An input needing more is refused, and the stroke can continue with the next acceptable input.",
 ["inputs", "fault_sequences", "configurations"],
 "every gap between events (suspend and resume, clock jumps), every distance, and every valid limit",
 "Tests try one gap against one limit.",
 [PM, SM, KP, PAH], [("max_outputs_per_call check", PM + " NumberOfStepsBetweenInputs"), ("iteration limit", PMH + " ModelEndOfStroke"), ("prediction length", KP)])
prop("C11", "No input sequence crashes, hangs or corrupts memory",
 "For every valid parameter set and every sequence of calls - with arbitrary values in every input field, including NaN, infinite, huge, negative and denormal ones - each call returns promptly without crash, uncaught exception, out-of-bounds access, use of freed memory, or undefined arithmetic.",
 ["inputs", "histories", "fault_sequences", "configurations"],
 "every call history over every float value in the inputs and every valid parameter set, with corrupted events and lost events",
 "Tests use well-behaved values; the fuzz target in the tree feeds one stroke with one parameter set.",
 [SM, ST, WS, LC, KP, UTH, PM], [("validation of inputs and parameters; explicit bounds in loops", "all of " + M)])
prop("C12", "Stylus values stay within what was reported; unknown stays unknown",
 "Every modeled or predicted pressure and tilt lies within the range of the values reported so far in the stroke, and orientation lies in [0, 2*pi] within the arc between reported neighbours. Once a field has been reported missing (negative or not finite) it is -1 in all results of the stroke from that input on, independently of the other fields, and a field never reported missing is never -1; the Down result itself carries the reported values unchanged.",
 ["inputs", "fault_sequences", "histories"],
 "every stream with fields dropped and reappearing at any time, in any combination",
 "Tests cover a few fixed patterns of missing fields.",
 [ST, UT, UTH], [("sticky per-field unknown flags", ST + " Update / Query"), ("clamped interpolation and angle interpolation", UTH)])
prop("C13", "The modeled path is the documented model of the delivered events",
 "With loop mitigation off, the positions, velocities and accelerations of all results equal, up to rounding, the documented model applied to the accepted inputs: the wobble moving average blended by speed, linear resampling between smoothed inputs, and a damped spring driven by it, continued at the end of the stroke towards the Up position. This holds for every pattern of event timing, loss and repetition.",
 ["inputs", "fault_sequences", "configurations"],
 "every accepted event stream and every (numerically stable) valid parameter set",
 "Tests pin golden numbers for a handful of short strokes.",
 [WS, PM, PMH, SM], [("wobble smoother", WS), ("spring integration", PM + " Update"), ("linear path and end-of-stroke loops", PMH)])
prop("C14", "Stylus values are those of the raw input the tip projects to",
 "Each result's pressure, tilt and orientation are the linear interpolation (angles the short way round) between two consecutive retained inputs, at the point of the retained input polyline to which the modeled tip projects - the closest point, or the intersection along the stroke normal on the outside of the turn, falling back to the nearer end of the polyline. The inputs retained are exactly those the parameters prescribe (the last max_input_samples, or the fewest satisfying min_input_samples and min_sample_duration).",
 ["inputs", "fault_sequences", "configurations"],
 "every accepted event stream, both projection modes, every retention limit",
 "Tests check a few geometries on the component with hand-computed numbers.",
 [ST, UT, UTH, SM], [("projection and retention", ST), ("stroke normal", UT)])
prop("C15", "The end of the stroke approaches the final input without overshooting",
 "After an Up, the extra end-of-stroke results come ever closer to the Up position, each moves by at least the stopping distance, and at most end_of_stroke_max_iterations steps are tried. The time step is the output interval, halved only when a longer step would pass the Up position. The catch-up stops as soon as it is within the stopping distance or a step would move less than it, and does not stop while it could still make progress; only when the Up would return nothing else is a single step shorter than the stopping distance returned.",
 ["inputs", "configurations", "fault_sequences"],
 "every state of motion at which a stroke can end, including right after gaps, stalls and lost moves",
 "Tests end a few strokes at rest or in uniform motion.",
 [PMH, SM], [("end-of-stroke loop with step halving", PMH + " ModelEndOfStroke")])
prop("C16", "Stroke-end prediction shows what ending the stroke now would draw",
 "With the stroke-end strategy and without loop mitigation, the prediction's positions, velocities, accelerations and times are exactly the results that an Up at the last input's position and time would append (nothing, when the Up could only add a single result that makes no progress). With wobble smoothing or angle-based upsampling on, the prediction is the same end-of-stroke catch-up, towards the last smoothed position.",
 ["histories", "configurations"],
 "every moment of every stroke at which a frame asks for a prediction",
 "Tests compare golden numbers at two or three moments.",
 [SE, PMH, SM], [("both run the same end-of-stroke model", SE + ", " + SM + " ProcessUpEvent")])
prop("C17", "Kalman prediction follows the documented estimator and its limits",
 "With the Kalman strategy, the prediction is empty until min_stable_iteration inputs have arrived, and then equals, up to rounding, the documented construction: a cubic connector from the last result to the filtered estimate, continued by the weighted cubic extrapolation scaled by the average input spacing, for prediction_interval times the product of the four confidence terms. The part beyond the estimate never exceeds prediction_interval, rounded up to a whole output step.",
 ["inputs", "histories", "configurations"],
 "every accepted event stream (jittered, lost, repeated), every frame at which a prediction is asked",
 "Tests feed a few regular strokes and pin golden numbers.",
 [KP, KF, M + "internal/prediction/kalman_filter/axis_predictor.cc", M + "internal/prediction/kalman_filter/matrix.h"],
 [("filter", KF), ("prediction", KP + " ConstructPrediction / NumberOfPointsToPredict")])
prop("C18", "Loop mitigation blends path and raw input by recent speed as configured",
 "With loop mitigation on, each result is the blend of the spring model and its projection onto the raw input polyline, with the strength the parameters assign to the average speed of the recent results in the documented sampling window: all model when nothing has been sampled, the lower-bound strength at or below the lower speed, the upper-bound strength at or above the upper one, linear between (the lower-bound strength if the two speeds are equal). Predictions continue from, and never alter, the stroke's speed history.",
 ["inputs", "configurations", "fault_sequences"],
 "every accepted event stream, every pattern of speeds and gaps, every valid window and strength",
 "Tests exercise the component with a few speeds and one stroke.",
 [LC, SM, UT], [("moving average and strength", LC), ("blend", SM + " ModelStylus")])
prop("C19", "A failed allocation never poisons later strokes",
 "If memory allocation fails at any point inside any call, the failure surfaces to the caller as the allocation error without crash, leak or corruption, and after a successful Reset with parameters the modeler works exactly like a new one.",
 ["crash_points", "histories"],
 "every allocation site reached by every call of every history",
 "Tests never fail an allocation.",
 [SM, ST, WS, LC, KP], [("RAII members; full re-initialisation in Reset and at Down", SM)])
prop("C20", "After faults stop the modeler resumes service and catches up",
 "After any history of faults, a Reset followed by a Down is accepted, and so is any well-formed continuation. While a stroke is in progress and the pen rests at a point with inputs arriving regularly, the modeled tip converges to that point within a bounded time.",
 ["histories", "fault_sequences"],
 "every fault history followed by a fault-free suffix",
 "Tests never continue a stroke after a burst of faults.",
 [SM, PM, WS], [("Reset clears the stroke", SM), ("damped spring", PM)])
prop("C21", "Finite events give finite results",
 "For every valid, numerically stable parameter set and every stream of finite events of ordinary magnitude - including equal timestamps (otherwise at least a nanosecond apart), repeated positions, long pauses and single-sample strokes - every position, velocity, acceleration and time that is returned or predicted is finite.",
 ["inputs", "fault_sequences", "configurations"],
 "every accepted finite event stream, every prediction moment",
 "Tests never look for NaN after degenerate timing (all-equal timestamps, long pauses).",
 [KP, WS, ST, UTH, PM], [("guards against division by zero", "WobbleSmoother, StylusStateModeler, KalmanPredictor, utils")])
prop("N01", "The stand-alone parameter validators accept exactly the valid domain",
 "Each deprecated stand-alone validation function accepts its argument exactly when the corresponding part of the whole parameter set would be accepted.",
 ["inputs"], "every value of every parameter struct", "Finite sample of values.", [PA], [("validators", PA)])
prop("N02", "Formatted strings describe the value they are given",
 "The string form of every public type shows its fields and never fails.",
 ["inputs"], "every value of every printable type", "Finite sample of values.", [TY, M + "internal/internal_types.cc"], [("ToFormattedString", TY)])
prop("N03", "Vector, time and matrix arithmetic is correct",
 "The vector, time, duration and small-matrix operators compute the mathematical operation, up to rounding.",
 ["inputs"], "every operand", "Finite sample of operands.", [M + "types.h", M + "internal/prediction/kalman_filter/matrix.h"], [("operators", M + "types.h")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
