#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(
            files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

D = "kats/detectors/"
prop("C01", "Restarting a detector from its saved state is invisible in its output",
  "A streaming detector model (CUSUM, statistical significance for one or many series, rolling statistics, distribution distance, static threshold) that is saved after any prefix of a stream of windows, killed at any point while it works on a later window, and rebuilt from the saved bytes alone gives every remaining window exactly the response an uninterrupted model gives. Saving never changes the model's answers, can be done before or after any window, and saving a rebuilt model gives the same state again.",
  ["crash_points", "histories", "fault_sequences"],
  "every stream of windows, every model configuration, every crash point (between windows, between scoring and saving, at any source line inside scoring) and any number of crashes",
  "the unit tests round-trip a handful of freshly built models; none kills a worker in the middle of a stream and compares the rest of the stream with an uninterrupted run",
  [D+"detector.py", D+"cusum_model.py", D+"stat_sig_detector.py", D+"rolling_stats_model.py", D+"distribution_distance_model.py", D+"threshold_detector.py"],
  [("serialize / serialized_model constructor argument", D+"cusum_model.py CUSUMDetectorModel"), ("serialize / serialized_model", D+"stat_sig_detector.py"), ("serialize / serialized_model", D+"rolling_stats_model.py")],
  state=[("cps, alert_fired, pre_mean, pre_std, number_of_normal_scan", "what CUSUM remembers between windows", D+"cusum_model.py")],
  observe=["AnomalyResponse returned by fit_predict", "bytes returned by serialize"])

prop("C02", "Redelivering a window to a detector gives the same answer",
  "Scoring a window never modifies the window or the history object the caller handed in, whether scoring succeeds, raises, or dies half-way. So a caller that delivers the same window with the same history again, to a worker rebuilt from the same saved state (or freshly configured when there is none), gets the identical response, however many times and after whatever failed attempts; two workers scoring the same objects at the same time get it too, and writing into a response does not change the window or history it came from.",
  ["histories", "crash_points", "fault_sequences", "inputs"],
  "every detector model with fit_predict (CUSUM, statistical significance, rolling statistics, distribution distance, static threshold, outlier, multivariate, interval), every window/history pair, every number of duplicate deliveries and every abort point inside an attempt",
  "tests build new data for each call and look at one response; no test calls twice with the same history object and compares, or aborts an attempt",
  [D+"stat_sig_detector.py", D+"cusum_model.py", D+"rolling_stats_model.py", D+"outlier_detector.py", D+"multivariate_detector.py", D+"interval_detector.py", D+"distribution_distance_model.py"],
  [("copy of the history before extending it with the window", D+"cusum_model.py CUSUMDetectorModel.fit_predict")],
  observe=["the caller's TimeSeriesData objects", "AnomalyResponse"])

prop("C03", "One detector worker can serve many streams without mixing them up",
  "For the detector models that keep no detection state between windows (statistical significance for one or many series, rolling statistics, distribution distance, static threshold, outlier, multivariate, and the interval detectors), the response to a window depends only on the configuration, that window and its history. It is unaffected by which windows, of which streams, in which order, the same instance or other instances in the process scored before, including windows that were rejected or aborted. (A model configured without a time unit or interval duration learns it from its first window and then counts as configured with it.)",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of windows of several streams on shared and separate model instances, sequentially and on concurrently scheduled threads with separate instances",
  "tests use one instance for one call, or one stream; they do not interleave streams or reuse an instance after a failure",
  [D+"stat_sig_detector.py", D+"rolling_stats_model.py", D+"distribution_distance_model.py", D+"outlier_detector.py", D+"multivariate_detector.py", D+"interval_detector.py", D+"threshold_detector.py"],
  [("per-call reset of working attributes", D+"stat_sig_detector.py"), ("per-call reset of working attributes", D+"interval_detector.py")],
  observe=["AnomalyResponse"])

prop("C04", "A detector's response covers exactly the delivered window",
  "Whenever a streaming detector model accepts a window, its scores (and anomaly magnitude, confidence band and prediction where present) carry exactly one finite-length row per point of that window, at that window's timestamps and in their order, with no row for history and none missing, whatever the length of the window relative to the model's scan, control, step or rolling windows. Points for which there is not enough history get the model's neutral score rather than being dropped; a window the model cannot score is refused with an error that says so.",
  ["inputs", "histories", "configurations"],
  "every way a delivery schedule cuts a stream into windows (including one-point windows, windows longer than any internal window or batch size, windows after gaps), with and without history",
  "tests check lengths for a few fixed window sizes; delivery that splits, delays and bunches windows reaches the boundary sizes they never use",
  [D+"cusum_model.py", D+"stat_sig_detector.py", D+"rolling_stats_model.py", D+"distribution_distance_model.py", D+"threshold_detector.py"],
  [("score_tsd assembly and remaining-data handling", D+"cusum_model.py fit_predict"), ("_reorganize_back", D+"stat_sig_detector.py")],
  observe=["AnomalyResponse.scores, anomaly_magnitude_ts, stat_sig_ts, confidence_band, predicted_ts"])

prop("C05", "How a stream is cut into deliveries does not change a point's score",
  "For the detector models that score each point from the points at and before it (statistical significance for one or many series with a fixed time unit, static threshold, rolling statistics, distribution distance), a point delivered with its full history gets the same score whether it arrives alone, in a small window or in one large backfill window, and regardless of the internal splitting of long windows. Later points never influence an earlier point's score.",
  ["schedules", "inputs", "configurations"],
  "every partition of a stream into delivery windows, every stall-then-backfill pattern, every internal split length",
  "tests score one window; a few compare two hand-picked splits",
  [D+"stat_sig_detector.py", D+"rolling_stats_model.py", D+"distribution_distance_model.py", D+"threshold_detector.py"],
  [("rolling control/test windows over history + window", D+"stat_sig_detector.py"), ("max_split_ts_length reorganisation", D+"stat_sig_detector.py")],
  observe=["AnomalyResponse.scores"])

prop("C06", "Series batched into one detector call do not affect each other",
  "When several series are scored together by a multi-series detector (statistical significance for many series with corrected scores and without the rescaling across series, vectorised CUSUM), each series gets the score it would get if scored alone by the single-series detector of the same configuration. Adding, removing, reordering or corrupting other series of the batch changes nothing for it.",
  ["inputs", "configurations", "fault_sequences"],
  "every batch composition, column order and corruption (spikes, constants, level shifts) of the other series",
  "tests compare a few fixed batches with single runs",
  [D+"stat_sig_detector.py", D+"cusum_model.py", D+"cusum_detection.py"],
  [("column-wise rolling statistics", D+"stat_sig_detector.py MultiStatSigDetectorModel"), ("VectorizedCUSUMDetectorModel", D+"cusum_model.py")],
  observe=["AnomalyResponse.scores columns"])

U = "kats/utils/"
prop("C07", "Parallel backtests give the serial answer under every schedule",
  "A backtest (rolling origin, expanding, rolling and fixed window, cross validation, and the generic backtester with any data partition) returns the same fold results, raw errors and summary errors when run in parallel as when run serially, for every number of workers, every order in which workers pick up and finish folds and every interleaving of worker threads. Every fold's error pairs that fold's forecast with that fold's truth, and the summary is the weighted average of the fold errors.",
  ["schedules", "inputs", "configurations"],
  "every worker count, task assignment, completion order and thread interleaving; every fold layout; several real models",
  "the tests run with whatever order the operating system produces and compare a few error values with constants",
  [U+"backtesters.py", U+"datapartition.py"],
  [("apply_async futures collected in fold order", U+"backtesters.py BackTesterParent._build_and_train_models"), ("starmap", U+"backtesters.py GenericBacktester.run_backtester")],
  state=[("results, errors, raw_errors", "fold results collected from workers", U+"backtesters.py")],
  observe=["results", "raw_errors", "errors", "get_errors()"])

prop("C08", "Backtest folds never look ahead and follow their documented layout",
  "In every backtest the model of a fold is trained on exactly the points the fold layout assigns (never on a test point or anything after its training range), is asked for exactly the horizon that reaches the end of its test range, and is judged on exactly its test points. Fold layouts follow the documented percentages: training ranges expand or slide by the stated rule, the gap of a fixed-window backtest separates training from test, and the last fold of a multi-fold backtest ends at the end of the data.",
  ["inputs", "schedules", "configurations"],
  "every data length, percentage combination, number of folds and gap, under every schedule of workers",
  "tests enumerate some layouts against stored expectations but do not observe what the model is actually given in worker processes",
  [U+"backtesters.py", U+"datapartition.py"],
  [("_create_train_test_splits / _create_model", U+"backtesters.py"), ("_single_train_test_split", U+"datapartition.py")],
  observe=["what each model instance receives in fit and predict"])

prop("C09", "A failing worker is never turned into a wrong backtest result",
  "If a fold fails in a worker (model error, out of memory, unpicklable result), a standard backtest or cross validation raises instead of reporting errors computed from the surviving folds, and the generic backtester marks exactly that fold with the configured error score and leaves all other folds' results as they are without the failure. Running the same backtester object again after the failure has gone gives the result a first run would have given.",
  ["fault_sequences", "schedules"],
  "every subset and order of failing folds, every error kind, parallel and serial, followed by a retry",
  "tests inject no worker failures into multi-fold parallel runs and never retry",
  [U+"backtesters.py"],
  [("future.get re-raises", U+"backtesters.py BackTesterParent._build_and_train_models"), ("error_score", U+"backtesters.py GenericBacktester._get_fold_errors")],
  observe=["exceptions", "fold_errors", "summary_errors", "results after a retry"])

M = "kats/models/"
prop("C10", "Parallel helpers release their workers on every path",
  "Every parallel entry point (backtesters, cross validation, data partition, ensembles, prediction-interval ensemble) waits for the workers it started and shuts its pool down before it returns or raises, whatever fails inside: a worker task, collecting its result, or starting the pool. No worker started by a call is still alive, and no task still running, after the call has ended.",
  ["fault_sequences", "schedules"],
  "every failing task and every schedule, for every parallel entry point",
  "no test looks at pools after a failure",
  [U+"backtesters.py", U+"datapartition.py", U+"ensemble_predict_interval.py", M+"ensemble/ensemble.py", M+"ensemble/weighted_avg_ensemble.py", M+"ensemble/kats_ensemble.py"],
  [("pool.close / pool.join, with-blocks, finally", U+"backtesters.py and the ensembles")],
  observe=["open pools and live workers when the call ends"])

prop("C11", "Ensemble forecasts do not depend on worker scheduling",
  "Median, weighted-average and Kats ensembles return, for every number of workers, completion order and assignment of member models to workers, the forecast obtained by fitting and backtesting each member on its own one after another and combining them: the row-wise median, or the average weighted by each member's own inverse backtest error. Each member's forecast, error and weight stay attached to that member, and a member that fails to fit makes the ensemble raise rather than combine the rest.",
  ["schedules", "inputs", "fault_sequences", "configurations"],
  "every member list and order, worker count, completion order and member failure",
  "tests run real pools once with a fixed member list and compare with stored numbers",
  [M+"ensemble/ensemble.py", M+"ensemble/median_ensemble.py", M+"ensemble/weighted_avg_ensemble.py", M+"ensemble/kats_ensemble.py"],
  [("results keyed by member name", M+"ensemble/ensemble.py BaseEnsemble.fit")],
  state=[("fitted, errors, weights", "per-member results collected from the pool", M+"ensemble/")],
  observe=["predict / forecast / aggregate output", "weights"])

prop("C12", "Prediction-interval ensembles are reproducible and their chains independent",
  "With a fixed random seed the prediction-interval ensemble returns the same intervals for every worker count, task assignment and completion order, and in serial and parallel mode alike. Its simulated chains use independent random draws: no two chains of one projection share their perturbations because they ran in different worker processes, and every block's errors and every chain land in their own row.",
  ["schedules", "configurations", "inputs"],
  "every worker count, chunk assignment and completion order, serial and parallel",
  "tests run the parallel mode once and look only at the output's shape",
  [U+"ensemble_predict_interval.py"],
  [("index returned with each task's result", U+"ensemble_predict_interval.py"), ("per-chain random draws", U+"ensemble_predict_interval.py _projection_single")],
  state=[("error_matrix, ensemble_fcst", "rows collected from workers", U+"ensemble_predict_interval.py")],
  observe=["get_projection", "ensemble_fcst"])

prop("C13", "Parallel data partitioning equals the serial split and keeps its keys",
  "Splitting a list or dictionary of series in parallel gives, for every worker count and completion order, the split of each series on its own, under that series' own key or position and in fold order. Within each fold, training points all come before test points, no point is in both, and the caller's series are left unchanged; any core limit from one up to the number of available cores is accepted.",
  ["schedules", "inputs", "configurations"],
  "every collection, key order, worker count, completion order and partition configuration",
  "tests use a fixed list and the machine's own core count",
  [U+"datapartition.py"],
  [("tag returned with each split", U+"datapartition.py DataPartitionBase.split")],
  observe=["split()"])

prop("C14", "The same seed gives the same result whatever else uses randomness",
  "Components with a seed of their own (the simulator's level shift and trend shift series, the Bayesian online change point detector, the KDE residual translator) return identical results for identical seeds and inputs, regardless of how much randomness other code consumed before, between or, on other threads, during their steps, of aborted calls, and of other calls on the same object; and they leave numpy's global generator as it was. Components that draw from the global generator (Prophet's sampled intervals under predict(seed=), ARIMA and noise simulation, metalearner training and downsampling) give identical results whenever the seed is passed or the global seed is fixed just before the call.",
  ["schedules", "histories"],
  "every amount and position of foreign random draws, repeated calls, other instances, and interleavings with other seeded components",
  "tests set one global seed and call once",
  [U+"simulator.py", D+"bocpd.py", D+"bocpd_model.py", D+"residual_translation.py", M+"prophet.py", M+"metalearner/metalearner_predictability.py", M+"metalearner/metalearner_modelselect.py"],
  [("RandomState(random_seed)", U+"simulator.py"), ("_sample_bayesian_linreg", D+"bocpd.py"), ("seed", M+"prophet.py")],
  observe=["simulated series", "change points", "forecast intervals"])

prop("C15", "A saved metalearner is loaded back exactly or not at all",
  "Saving a trained metalearner (predictability or model selection) either raises or leaves a file that loads to a model with identical predictions in a fresh process; a disk error or a full disk during saving is reported to the caller. Loading a missing, torn, truncated or unreadable file raises ValueError and leaves the receiving object as it was, and never yields a model that predicts differently from one that was saved.",
  ["fault_sequences", "crash_points", "histories"],
  "every write at which the disk fails, fills up, tears or loses data, every crash point during a save, every read fault during a load, any number of save/load rounds",
  "tests save once to a healthy disk and load once",
  [M+"metalearner/metalearner_predictability.py", M+"metalearner/metalearner_modelselect.py"],
  [("joblib.dump / joblib.load of the whole state", M+"metalearner/")],
  observe=["save_model, load_model, pred_by_feature"])

prop("C16", "A stored nowcasting model restores the same one-step forecasts",
  "The bytes a nowcasting model saves, given to another nowcasting model over the same data and features, restore exactly the same forecasts, through any number of save/load generations, interleaved with other models and after redelivery of the same bytes. Truncated or damaged bytes either raise an error and leave the model that was loaded before in place, or are the empty value that stands for no model.",
  ["fault_sequences", "histories"],
  "every sequence of fit, save, store, load and predict by several models, with lost, torn, stale and duplicated stores",
  "one test saves and loads once",
  [M+"nowcasting/nowcasting.py", M+"nowcasting/nowcastingplus.py", M+"nowcasting/dynamic_nowcasting.py", M+"nowcasting/model_io.py"],
  [("serialize_for_zippy / deserialize_from_zippy", M+"nowcasting/model_io.py")],
  observe=["save_model, load_model, predict"])

prop("C17", "Silencing a model's console output always gives the console back",
  "While output is being silenced nothing reaches the process's standard output and error; once the last silenced section has ended, by return, exception or failure to set up, standard output and error point where they did before and no file descriptor is left open. This holds for nested sections, for sections that overlap on different threads in any order, and when the system runs out of file descriptors.",
  ["schedules", "fault_sequences"],
  "every nesting and overlap of silenced sections on any number of threads, every failing open/dup/close call",
  "no test overlaps sections or fails a system call",
  [D+"prophet_detector.py"],
  [("SilentStdoutStderr", D+"prophet_detector.py")],
  state=[("saved descriptors", "where output pointed before", D+"prophet_detector.py")],
  observe=["file descriptors 1 and 2, open descriptors"])

prop("C18", "Series assembled from out-of-order deliveries end up the same",
  "A time series built from points delivered in any order, in any batching and with duplicates (duplicates dropped on request, first delivery kept) is the sorted series of the distinct points, and appending batches in time order gives the same series as building it at once. Slicing, copying, arithmetic, interpolation and iteration give results that share no mutable state with the original, minimum and maximum describe the current values after every operation of the class, and an operation that raises leaves the series unchanged.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "every delivery order, duplication and batching; every sequence of operations on a set of related series, with operations that fail",
  "tests check each operation once on a small series; sequences of operations on aliased objects are not explored",
  ["kats/consts.py"],
  [("sort_by_time, drop_duplicate_time", "kats/consts.py TimeSeriesData.__init__"), ("value setter recomputing min and max", "kats/consts.py")],
  state=[("_time, _value, _min, _max", "the series and its cached extremes", "kats/consts.py")],
  observe=["time, value, min, max, to_dataframe, =="])

prop("C19", "Forecasting models do not interfere through shared inputs or earlier calls",
  "The forecast of a model depends only on its data, its parameters, and the horizon and frequency asked for: not on how often or with which horizons it was asked before, on a failed or aborted call in between, or on other models that share its data or parameter objects and run before it or at the same time on other threads. Fitting and forecasting never change the caller's data, parameter objects or frames of future values, nor does writing into a returned forecast.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving (sequential or on threads) of construct, fit, predict and aborted calls of several models sharing data and parameters: linear, quadratic, Holt-Winters, theta, ARIMA, SARIMA, harmonic regression, STLF, simple heuristics, Prophet, VAR, Bayesian VAR, ML-AR (caller's objects only), temporal hierarchical",
  "tests fit a model and predict once, and do not share objects between live models",
  [M+"linear_model.py", M+"quadratic_model.py", M+"holtwinters.py", M+"theta.py", M+"arima.py", M+"sarima.py", M+"harmonic_regression.py", M+"stlf.py", M+"simple_heuristic_model.py", M+"prophet.py", M+"var.py", M+"bayesian_var.py", M+"ml_ar.py", M+"reconciliation/thm.py"],
  [("models copy what they change", M)],
  observe=["predict output", "caller's data and params objects"])

# ---- properties this family cannot address here -------------------------------
prop("N01", "Feature extraction returns each documented feature's value",
  "For every univariate series, every selected feature has the value its definition gives, and selecting fewer features never changes the value of a feature that stays selected.",
  ["inputs", "configurations"], "every series and feature selection",
  "tests check stored values of a few series",
  ["kats/tsfeatures/tsfeatures.py"], [("TsFeatures.transform", "kats/tsfeatures/tsfeatures.py")], observe=["transform"])
prop("N02", "Error metrics equal their definitions",
  "Every error metric returns the value of its published formula for every pair of truth and prediction, including zero, missing and infinite entries as documented.",
  ["inputs"], "every pair of arrays",
  "tests sample some arrays",
  ["kats/metrics/metrics.py"], [("metric functions", "kats/metrics/metrics.py")], observe=["return values"])
prop("N03", "Parallel hyper-parameter search returns the best evaluated configuration",
  "Whatever the order in which parallel evaluations finish, a parameter search lists every evaluated configuration with its own score and returns the best of them.",
  ["schedules", "fault_sequences"], "every completion order and worker failure",
  "tests run small searches once",
  [U+"time_series_parameter_tuning.py"], [("pool.map over arms", U+"time_series_parameter_tuning.py")], observe=["list_parameter_value_scores"])
prop("N04", "Global neural forecasting models train and restore reproducibly",
  "A global model trained with a seed gives the same forecasts for every worker count, and a saved global model restores to the same forecasts.",
  ["schedules", "crash_points"], "every worker count, every save/restore",
  "tests run once", [M+"globalmodel/model.py", M+"globalmodel/serialize.py"], [("load_global_model_from_file", M+"globalmodel/serialize.py")], observe=["predict"])
prop("N05", "Change point detectors find every level shift above their threshold",
  "Offline change point detectors report each change point whose evidence exceeds the configured threshold, and report none on data without change beyond their stated false alarm rate.",
  ["inputs"], "every series",
  "tests check some series",
  [D+"cusum_detection.py", D+"bocpd.py", D+"robust_stat_detection.py"], [("detector()", D)], observe=["change points"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
