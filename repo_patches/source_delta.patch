From 5a5a2d69a3c7cadbee45d671156b4f5940108ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 01/38] fix: DataPartitionBase accepts every core limit its own
 check documents

---
 kats/utils/datapartition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kats/utils/datapartition.py b/kats/utils/datapartition.py
index 2515fce..af94d91 100644
--- a/kats/utils/datapartition.py
+++ b/kats/utils/datapartition.py
@@ -65,12 +65,13 @@ class DataPartitionBase(ABC):
             total_cores = cpu_count()
             if max_core is None:
                 self.max_core: int = max((total_cores - 1) // 2, 1)
-            elif isinstance(max_core, int) and max_core > 0 and max_core < total_cores:
+            elif isinstance(max_core, int) and 0 < max_core <= total_cores:
                 self.max_core = max_core
             elif isinstance(max_core, int) and max_core > total_cores:
                 logging.warning(
                     f"`max_core` is larger than maximum available cores ({total_cores}) and sets `max_core = {total_cores}`."
                 )
+                self.max_core = total_cores
             else:
                 msg = f"max_core should be a positive integer in [1, {total_cores}] but receives {max_core}."
                 logging.error(msg)
-- 
2.43.0


From cc159e20008f4be15a96e51ea2ff9e3af8ec2f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 02/38] fix: DataPartitionBase.split releases its worker pool
 when a split raises

---
 kats/utils/datapartition.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kats/utils/datapartition.py b/kats/utils/datapartition.py
index af94d91..38a1df3 100644
--- a/kats/utils/datapartition.py
+++ b/kats/utils/datapartition.py
@@ -144,9 +144,11 @@ class DataPartitionBase(ABC):
             # pyre-fixme
             params = [(k, data[k]) for k in keys]
             pool = Pool(self.max_core)
-            raw_res = pool.starmap(self._single_train_test_split, params)
-            pool.close()
-            pool.join()
+            try:
+                raw_res = pool.starmap(self._single_train_test_split, params)
+            finally:
+                pool.close()
+                pool.join()
         else:
             # pyre-fixme
             raw_res = [self._single_train_test_split(k, data[k]) for k in keys]
-- 
2.43.0


From c4a5343bb7760ea9d51046bb582f1ef955abc61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 03/38] fix: run_backtest starts from empty results when it is
 run again

---
 kats/utils/backtesters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kats/utils/backtesters.py b/kats/utils/backtesters.py
index 470c165..bcd18c6 100644
--- a/kats/utils/backtesters.py
+++ b/kats/utils/backtesters.py
@@ -636,6 +636,10 @@ class BackTesterParent(ABC):
     def run_backtest(self) -> None:
         """Executes backtest."""
 
+        # start afresh: an earlier (possibly failed) run leaves nothing behind
+        self.results = []
+        self.raw_errors = []
+        self.errors = {name: 0.0 for name, _ in self.error_methods}
         self._build_and_train_models(self._create_train_test_splits())
         self.calc_error()
 
-- 
2.43.0


From 50f78c33b8a6dc71de110f0ba5cfa3b4a26daf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 04/38] fix: GenericBacktester releases its worker pool when
 collecting results raises

---
 kats/utils/backtesters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kats/utils/backtesters.py b/kats/utils/backtesters.py
index bcd18c6..af2f6f6 100644
--- a/kats/utils/backtesters.py
+++ b/kats/utils/backtesters.py
@@ -225,9 +225,11 @@ class GenericBacktester(ABC):
 
         if self.multi:
             pool = Pool(self.max_core)
-            all_res = pool.starmap(self._fit_and_scorer, train_test_data)
-            pool.close()
-            pool.join()
+            try:
+                all_res = pool.starmap(self._fit_and_scorer, train_test_data)
+            finally:
+                pool.close()
+                pool.join()
         else:
             all_res = []
             for train, test in train_test_data:
-- 
2.43.0


From 6b9b20b838678fef8e5a8dd528e5a56146aa258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:17 +0000
Subject: [PATCH 05/38] fix: weighted summary of GenericBacktester with failed
 folds

---
 kats/utils/backtesters.py | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/kats/utils/backtesters.py b/kats/utils/backtesters.py
index af2f6f6..9c2ffbf 100644
--- a/kats/utils/backtesters.py
+++ b/kats/utils/backtesters.py
@@ -110,6 +110,15 @@ def _check_max_core(max_core: Optional[int]) -> int:
     return core_num
 
 
+def _get_num_points(data: DataPartition) -> int:
+    """Helper function for counting the data points of one or several time series."""
+
+    if isinstance(data, TimeSeriesData):
+        return len(data)
+    series = data.values() if isinstance(data, dict) else data
+    return sum(len(ts) for ts in series)
+
+
 def _get_scorer(
     scorer: Union[str, List[str], CoreMetric],
 ) -> Optional[Callable[[pd.DataFrame], Dict[str, float]]]:
@@ -236,8 +245,11 @@ class GenericBacktester(ABC):
                 tmp_all_res = self._fit_and_scorer(train, test)
                 all_res.append(tmp_all_res)
         logging.info("Successfully finish evaluating models on all partitions.")
-        # pyrefly: ignore [bad-argument-type]
-        self.backtest_result = self._summarize(all_res)
+        self.backtest_result = self._summarize(
+            # pyrefly: ignore [bad-argument-type]
+            all_res,
+            [_get_num_points(test) for _, test in train_test_data],
+        )
         return None
 
     def _fit_and_scorer(
@@ -273,7 +285,9 @@ class GenericBacktester(ABC):
         return error_metrics, fold_errors
 
     def _summarize(
-        self, results: List[Tuple[pd.DataFrame, Dict[str, float]]]
+        self,
+        results: List[Tuple[pd.DataFrame, Dict[str, float]]],
+        test_sizes: List[int],
     ) -> BacktesterResult:
         if not results:
             _log_error("Fail to get evaluation results!")
@@ -286,15 +300,17 @@ class GenericBacktester(ABC):
 
         # aggregate error metrics from each fold
         summary_errors = {}
-        num_fold = len(fold_errors)
-        weight = np.ones(num_fold)
+        weight = np.ones(len(fold_errors))
         if self.summarizer == "weighted":
-            weight = np.array([len(t) for t in raw_errors])
-            weight = weight / np.sum(weight) * num_fold
-        for em in error_metrics:
-            summary_errors[em] = np.nanmean(
-                np.array([t[em] for t in fold_errors]) * weight
+            # a failed fold has no raw errors and counts with the size of its test data
+            weight = np.array(
+                [n if t is None else len(t) for t, n in zip(raw_errors, test_sizes)]
             )
+        for em in error_metrics:
+            errors = np.array([t[em] for t in fold_errors])
+            # np.nan errors are left out together with their weights
+            valid_weight = np.where(np.isnan(errors), np.nan, weight)
+            summary_errors[em] = np.nanmean(errors * weight) / np.nanmean(valid_weight)
 
         backtest_res = BacktesterResult(
             raw_errors=raw_errors if self.raw_errors else None,
-- 
2.43.0


From 0e78c2d2bc35b833be3d479416dd532fd71de48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:17 +0000
Subject: [PATCH 06/38] fix: kats_units_forecaster forecasts past the gap
 between train and test data

---
 kats/utils/backtesters.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/kats/utils/backtesters.py b/kats/utils/backtesters.py
index 9c2ffbf..a2ef9b9 100644
--- a/kats/utils/backtesters.py
+++ b/kats/utils/backtesters.py
@@ -153,6 +153,16 @@ def _get_scorer(
     _log_error(msg)
 
 
+def _get_gap_size(train: TimeSeriesData, test: TimeSeriesData) -> int:
+    """Helper function for counting the time points between train and test data."""
+
+    freq = pd.infer_freq(train.time) if len(train) > 2 else None
+    if freq is None:
+        return 0
+    between = pd.date_range(train.time.iloc[-1], test.time.iloc[0], freq=freq)
+    return max(len(between) - 2, 0)
+
+
 def kats_units_forecaster(
     params: Params,
     # pyre-fixme
@@ -164,9 +174,13 @@ def kats_units_forecaster(
     Forecaster function for uni-time series Kats forecaasting model.
     """
     try:
+        # points between train and test data are forecasted too, but not evaluated
+        gap = _get_gap_size(train, test)
         model = model_class(data=train, params=params)
         model.fit()
-        fcst = model.predict(steps=len(test))
+        fcst = model.predict(steps=gap + len(test))
+        if gap > 0:
+            fcst = fcst.iloc[gap:].reset_index(drop=True)
         fcst["y"] = test.value.values
         return fcst
     except Exception as e:
-- 
2.43.0


From 17f2ce20662b70019ccf53780771df44f3ee619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 07/38] fix: ensembles release their worker pool when
 submitting a member raises

---
 kats/models/ensemble/ensemble.py              | 16 +++--
 kats/models/ensemble/kats_ensemble.py         | 72 ++++++++++---------
 kats/models/ensemble/weighted_avg_ensemble.py | 18 ++---
 3 files changed, 58 insertions(+), 48 deletions(-)

diff --git a/kats/models/ensemble/ensemble.py b/kats/models/ensemble/ensemble.py
index a32d115..6cdabb1 100644
--- a/kats/models/ensemble/ensemble.py
+++ b/kats/models/ensemble/ensemble.py
@@ -116,13 +116,15 @@ class BaseEnsemble(Model):
         pool = Pool(processes=(num_process), maxtasksperchild=1000)
 
         fitted_models = {}
-        for m in self.params.models:
-            fitted_models[m.model_name] = pool.apply_async(
-                self._fit_single,
-                args=(BASE_MODELS[m.model_name.lower()], m.model_params),
-            )
-        pool.close()
-        pool.join()
+        try:
+            for m in self.params.models:
+                fitted_models[m.model_name] = pool.apply_async(
+                    self._fit_single,
+                    args=(BASE_MODELS[m.model_name.lower()], m.model_params),
+                )
+        finally:
+            pool.close()
+            pool.join()
         self.fitted = {model: res.get() for model, res in fitted_models.items()}
 
     # pyre-fixme[24]: Generic type `Model` expects 1 type parameter.
diff --git a/kats/models/ensemble/kats_ensemble.py b/kats/models/ensemble/kats_ensemble.py
index 7ccfb0b..e49684f 100644
--- a/kats/models/ensemble/kats_ensemble.py
+++ b/kats/models/ensemble/kats_ensemble.py
@@ -317,17 +317,19 @@ class KatsEnsemble(Model):
         )
 
         fitted_models = {}
-        for model in models.models:
-            fitted_models[model.model_name] = pool.apply_async(
-                self._fit_single,
-                args=(
-                    data,
-                    MODELS[model.model_name.split("_")[0].lower()],
-                    model.model_params,
-                ),
-            )
-        pool.close()
-        pool.join()
+        try:
+            for model in models.models:
+                fitted_models[model.model_name] = pool.apply_async(
+                    self._fit_single,
+                    args=(
+                        data,
+                        MODELS[model.model_name.split("_")[0].lower()],
+                        model.model_params,
+                    ),
+                )
+        finally:
+            pool.close()
+            pool.join()
         fitted = {model: res.get() for model, res in fitted_models.items()}
 
         # if auto back testing
@@ -619,17 +621,19 @@ class KatsEnsemble(Model):
         )
 
         fitted_models = {}
-        for model in models.models:
-            fitted_models[model.model_name] = pool.apply_async(
-                self._fit_single,
-                args=(
-                    data,
-                    MODELS[model.model_name.split("_")[0].lower()],
-                    model.model_params,
-                ),
-            )
-        pool.close()
-        pool.join()
+        try:
+            for model in models.models:
+                fitted_models[model.model_name] = pool.apply_async(
+                    self._fit_single,
+                    args=(
+                        data,
+                        MODELS[model.model_name.split("_")[0].lower()],
+                        model.model_params,
+                    ),
+                )
+        finally:
+            pool.close()
+            pool.join()
         fitted = {model: res.get() for model, res in fitted_models.items()}
 
         # simply predict with given steps
@@ -837,17 +841,19 @@ class KatsEnsemble(Model):
             processes=(num_process), maxtasksperchild=1000
         )
         backtesters = {}
-        for model in model_params.models:
-            backtesters[model.model_name] = pool.apply_async(
-                self._backtester_single,
-                args=(
-                    model.model_params,
-                    MODELS[model.model_name.split("_")[0].lower()],
-                ),
-                kwds={"err_method": err_method},
-            )
-        pool.close()
-        pool.join()
+        try:
+            for model in model_params.models:
+                backtesters[model.model_name] = pool.apply_async(
+                    self._backtester_single,
+                    args=(
+                        model.model_params,
+                        MODELS[model.model_name.split("_")[0].lower()],
+                    ),
+                    kwds={"err_method": err_method},
+                )
+        finally:
+            pool.close()
+            pool.join()
         self.errors = errors = {model: res.get() for model, res in backtesters.items()}
         original_weights = {
             model: 1 / (err + sys.float_info.epsilon) for model, err in errors.items()
diff --git a/kats/models/ensemble/weighted_avg_ensemble.py b/kats/models/ensemble/weighted_avg_ensemble.py
index 1a8731a..7dcc5d2 100644
--- a/kats/models/ensemble/weighted_avg_ensemble.py
+++ b/kats/models/ensemble/weighted_avg_ensemble.py
@@ -104,14 +104,16 @@ class WeightedAvgEnsemble(ensemble.BaseEnsemble):
             num_process = 1
         pool = Pool(processes=(num_process), maxtasksperchild=1000)
         backtesters = {}
-        for model in self.params.models:
-            backtesters[model.model_name] = pool.apply_async(
-                self._backtester_single,
-                args=(model.model_params, BASE_MODELS[model.model_name.lower()]),
-                kwds={"err_method": err_method},
-            )
-        pool.close()
-        pool.join()
+        try:
+            for model in self.params.models:
+                backtesters[model.model_name] = pool.apply_async(
+                    self._backtester_single,
+                    args=(model.model_params, BASE_MODELS[model.model_name.lower()]),
+                    kwds={"err_method": err_method},
+                )
+        finally:
+            pool.close()
+            pool.join()
         self.errors = {model: res.get() for model, res in backtesters.items()}
         original_weights = {
             model: 1 / (err + sys.float_info.epsilon)
-- 
2.43.0


From 0a0a8d1a5e431f31b5b5817a4b5ff0d889b58228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 08/38] fix: KatsEnsemble.fit uses the requested error method
 on seasonal data too

---
 kats/models/ensemble/kats_ensemble.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/models/ensemble/kats_ensemble.py b/kats/models/ensemble/kats_ensemble.py
index e49684f..f27aa4d 100644
--- a/kats/models/ensemble/kats_ensemble.py
+++ b/kats/models/ensemble/kats_ensemble.py
@@ -383,6 +383,7 @@ class KatsEnsemble(Model):
                 data=desea_data,
                 models=model_params,
                 should_auto_backtest=auto_backtesting,
+                err_method=err_method,
             )
         else:
             # fit models on the original data
-- 
2.43.0


From 83a68df39bd773a6378e46d13f79a59569819302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 09/38] fix: parallel chains of ensemble_predict_interval use
 independent random draws

---
 kats/utils/ensemble_predict_interval.py | 28 ++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/kats/utils/ensemble_predict_interval.py b/kats/utils/ensemble_predict_interval.py
index 970be60..f5ec949 100644
--- a/kats/utils/ensemble_predict_interval.py
+++ b/kats/utils/ensemble_predict_interval.py
@@ -223,13 +223,28 @@ class ensemble_predict_interval:
 
         self.error_matrix_flag = True
 
+    def _draw_perturbations(self, step: int) -> npt.NDArray:
+        """
+        Draw the random perturbations of one chain, one row for each future block.
+        """
+        future_block = step // self.block_size + int(step % self.block_size > 0)
+        return np.random.multivariate_normal(
+            self.error_matrix.mean(0), np.cov(self.error_matrix.T), future_block
+        )
+
     def _projection_single(
-        self, idx: int, step: int = 30, rolling_based: bool = False
+        self,
+        idx: int,
+        step: int = 30,
+        rolling_based: bool = False,
+        perturbations: Optional[npt.NDArray] = None,
     ) -> Tuple[int, npt.NDArray]:
         """
         Get forecasting for future steps for one chain.
         """
         future_block = step // self.block_size + int(step % self.block_size > 0)
+        if perturbations is None:
+            perturbations = self._draw_perturbations(step)
 
         onechain_fcst = np.zeros(future_block * self.block_size)
         if not rolling_based:
@@ -257,9 +272,7 @@ class ensemble_predict_interval:
             assert pred is not None
             fcst = np.asarray(pred["fcst"])
 
-            fcst[:] += np.random.multivariate_normal(
-                self.error_matrix.mean(0), np.cov(self.error_matrix.T), 1
-            )[0]
+            fcst[:] += perturbations[i]
 
             onechain_fcst[i * self.block_size : (i + 1) * self.block_size] = fcst.copy()
 
@@ -289,7 +302,12 @@ class ensemble_predict_interval:
         ensemble_fcst = np.zeros([self.ensemble_size, step])
         if self.multiprocessing:
             num_process = max(min(self.ensemble_size, (cpu_count() - 1) // 2), 1)
-            ipt_list = [[i, step, rolling_based] for i in range(self.ensemble_size)]
+            # worker processes inherit the state of the random generator, so the
+            # chains' perturbations are drawn here
+            ipt_list = [
+                [i, step, rolling_based, self._draw_perturbations(step)]
+                for i in range(self.ensemble_size)
+            ]
             with Pool(processes=num_process) as pool:
                 records = pool.starmap(self._projection_single, ipt_list)
                 pool.close()
-- 
2.43.0


From 5e035713ad8dc5b4cfdd8089a0ccc5efec162d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:53 +0000
Subject: [PATCH 10/38] fix: linear and quadratic models forecast a single step

---
 kats/models/linear_model.py    | 2 +-
 kats/models/quadratic_model.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/models/linear_model.py b/kats/models/linear_model.py
index 93b3123..5646e9a 100644
--- a/kats/models/linear_model.py
+++ b/kats/models/linear_model.py
@@ -124,7 +124,7 @@ class LinearModel(Model[LinearModelParams]):
         else:
             self._X_future = list(range(self.past_length, self.past_length + steps))
 
-        X_fcst = sm.add_constant(self._X_future)
+        X_fcst = sm.add_constant(self._X_future, has_constant="add")
         if self.model is None:
             raise ValueError("Call fit() before predict()")
         else:
diff --git a/kats/models/quadratic_model.py b/kats/models/quadratic_model.py
index c7227ad..fe49193 100644
--- a/kats/models/quadratic_model.py
+++ b/kats/models/quadratic_model.py
@@ -134,7 +134,7 @@ class QuadraticModel(Model[QuadraticModelParams]):
             _X_future = list(range(past_length, past_length + steps))
         self._X_future = _X_future
         _X_fcst = np.column_stack([_X_future, np.power(_X_future, 2)])
-        X_fcst = sm.add_constant(_X_fcst)
+        X_fcst = sm.add_constant(_X_fcst, has_constant="add")
         y_fcst = model.predict(X_fcst)
         sdev, y_fcst_lower, y_fcst_upper = wls_prediction_std(
             self.model, exog=X_fcst, alpha=self.params.alpha
-- 
2.43.0


From 94694d92f135507cbab711d19d8dd8d7ed6cf384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:52 +0000
Subject: [PATCH 11/38] fix: StatSigDetectorModel scores windows that are a
 multiple of the split length

---
 kats/detectors/stat_sig_detector.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 342d4ff..a67c96b 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -518,45 +518,49 @@ class StatSigDetectorModel(DetectorModel):
         assert response_predicted_ts is not None
 
         start_point = len(data_history)
+        # the last sequence is padded with `remaining` (possibly 0) points
+        num_points = (len(anom.scores) - start_point) * anom.scores.value.shape[
+            1
+        ] - remaining
         res_score_val = pd.Series(
             pd.DataFrame(anom.scores.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:num_points],
             copy=False,
         )
 
         res_predicted_ts_val = pd.Series(
             pd.DataFrame(anom_predicted_ts.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:num_points],
             copy=False,
         )
 
         res_anomaly_magnitude_ts_val = pd.Series(
             pd.DataFrame(anom.anomaly_magnitude_ts.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:num_points],
             copy=False,
         )
 
         res_stat_sig_ts_val = pd.Series(
             pd.DataFrame(anom_stat_sig_ts.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:num_points],
             copy=False,
         )
 
         res_confidence_band_lower_val = pd.Series(
             pd.DataFrame(anom_confidence_band.lower.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:num_points],
             copy=False,
         )
 
         res_confidence_band_upper_val = pd.Series(
             pd.DataFrame(anom_confidence_band.upper.value, copy=False)
             .iloc[start_point:, :]
-            .values.T.flatten()[:-remaining],
+            .values.T.flatten()[:num_points],
             copy=False,
         )
 
-- 
2.43.0


From 46268d9fc8f45b7911cbdafc93c90f9da08ad067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:34 +0000
Subject: [PATCH 12/38] fix: StatSigDetectorModel applies min_perc_change in
 long windows too

---
 kats/detectors/stat_sig_detector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index a67c96b..9fba153 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -294,6 +294,7 @@ class StatSigDetectorModel(DetectorModel):
                 seasonal_period=self.seasonal_period,
                 skip_rescaling=True,
                 use_corrected_scores=self.use_corrected_scores,
+                min_perc_change=self.min_perc_change,
             )
             anom = ss_detect.fit_predict(data=new_data_ts)
             self._reorganize_back(anom)
-- 
2.43.0


From 3562e7c89ef354efba7294a4f88e1c79db5d1412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:34 +0000
Subject: [PATCH 13/38] fix: StatSigDetectorModel keeps the scores of long
 windows when it removes seasonality

---
 kats/detectors/stat_sig_detector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 9fba153..5ed047c 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -322,6 +322,8 @@ class StatSigDetectorModel(DetectorModel):
         # add seasonality back
         if self.rem_season:
             data_season = self.data_season
+            response = self.response
+            assert response is not None
             confidence_band = response.confidence_band
             predicted_ts = response.predicted_ts
             assert data_season is not None
-- 
2.43.0


From 991e97363a2cf2bbb6abff3135f0fa7d838f6df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:34 +0000
Subject: [PATCH 14/38] fix: StatSigDetectorModel does not extend the caller's
 historical data

---
 kats/detectors/stat_sig_detector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 5ed047c..97b7303 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -405,8 +405,8 @@ class StatSigDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
-            historical_data.extend(data, validate=False)
-            total_data = historical_data
+            total_data = historical_data[:]  # leave the caller's object as it is
+            total_data.extend(data, validate=False)
 
         total_data_df = total_data.to_dataframe()
         total_data_df.columns = ["time", "value"]
@@ -763,8 +763,8 @@ class StatSigDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
-            historical_data.extend(data, validate=False)
-            total_data = historical_data
+            total_data = historical_data[:]  # leave the caller's object as it is
+            total_data.extend(data, validate=False)
 
         first_dt = total_data.time.iloc[0]  # first date of the data
 
-- 
2.43.0


From 2177db76cc7b0c7e6b9ba0c6a185445012825e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:23 +0000
Subject: [PATCH 15/38] fix: detectors leave the caller's data and historical
 data as they are

---
 kats/detectors/bocpd_model.py           | 2 ++
 kats/detectors/interval_detector.py     | 4 +++-
 kats/detectors/multivariate_detector.py | 2 ++
 kats/detectors/outlier_detector.py      | 2 ++
 kats/detectors/prophet_detector.py      | 2 ++
 kats/detectors/rolling_stats_model.py   | 2 ++
 6 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/bocpd_model.py b/kats/detectors/bocpd_model.py
index 88e3e3b..2be87c6 100644
--- a/kats/detectors/bocpd_model.py
+++ b/kats/detectors/bocpd_model.py
@@ -104,6 +104,8 @@ class BocpdDetectorModel(DetectorModel):
         # we prepend it to data, and run
         # the detector as if we only saw data
         if historical_data is not None:
+            # leave the caller's object as it is
+            historical_data = historical_data[:]
             historical_data.extend(data, validate=False)
             data = TimeSeriesData(
                 pd.DataFrame(
diff --git a/kats/detectors/interval_detector.py b/kats/detectors/interval_detector.py
index ad048b9..5e09546 100644
--- a/kats/detectors/interval_detector.py
+++ b/kats/detectors/interval_detector.py
@@ -608,8 +608,10 @@ class IntervalDetectorModel(DetectorModel, ABC):
         self.data = None
         self.schema._validate_data(pd.DataFrame(data.value))
         if historical_data is None:
-            self.data = data
+            self.data = data[:]
         else:
+            # leave the caller's object as it is
+            historical_data = historical_data[:]
             historical_data.extend(data, validate=False)
             self.data = historical_data
         assert self.data is not None
diff --git a/kats/detectors/multivariate_detector.py b/kats/detectors/multivariate_detector.py
index c1eb5ba..2c591b4 100644
--- a/kats/detectors/multivariate_detector.py
+++ b/kats/detectors/multivariate_detector.py
@@ -97,6 +97,8 @@ class MultivariateAnomalyDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
+            # leave the caller's object as it is
+            historical_data = historical_data[:]
             historical_data.extend(data)
             total_data = historical_data
 
diff --git a/kats/detectors/outlier_detector.py b/kats/detectors/outlier_detector.py
index a06deb2..3c4993c 100644
--- a/kats/detectors/outlier_detector.py
+++ b/kats/detectors/outlier_detector.py
@@ -84,6 +84,8 @@ class OutlierDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
+            # leave the caller's object as it is
+            historical_data = historical_data[:]
             historical_data.extend(data, validate=False)
             total_data = historical_data
 
diff --git a/kats/detectors/prophet_detector.py b/kats/detectors/prophet_detector.py
index 51b1c7b..099d54a 100644
--- a/kats/detectors/prophet_detector.py
+++ b/kats/detectors/prophet_detector.py
@@ -520,6 +520,8 @@ class ProphetDetectorModel(DetectorModel):
         if historical_data is None:
             total_data = data
         else:
+            # leave the caller's object as it is
+            historical_data = historical_data[:]
             historical_data.extend(data)
             total_data = historical_data
 
diff --git a/kats/detectors/rolling_stats_model.py b/kats/detectors/rolling_stats_model.py
index 11a35e3..3fe7986 100644
--- a/kats/detectors/rolling_stats_model.py
+++ b/kats/detectors/rolling_stats_model.py
@@ -398,6 +398,8 @@ class RollingStatsModel(DetectorModel):
         # pull all the data in historical data
         if historical_data is not None:
             n_points_hist_data = len(historical_data)
+            # leave the caller's object as it is
+            historical_data = historical_data[:]
             historical_data.extend(data, validate=False)
         else:
             # When historical_data is not provided, will use part of data as
-- 
2.43.0


From d05880ed6330737e39d7cba36026c591ce0c2a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:49 +0000
Subject: [PATCH 16/38] fix: statistical significance detectors save all of
 their configuration

---
 kats/detectors/stat_sig_detector.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 97b7303..49a380f 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -125,6 +125,9 @@ class StatSigDetectorModel(DetectorModel):
             self.min_perc_change: float = model_dict.get(
                 "min_perc_change", min_perc_change
             )
+            anomaly_scores_only = model_dict.get(
+                "anomaly_scores_only", anomaly_scores_only
+            )
 
         else:
             # pyrefly: ignore [bad-assignment]
@@ -192,6 +195,7 @@ class StatSigDetectorModel(DetectorModel):
             "use_corrected_scores": self.use_corrected_scores,
             "max_split_ts_length": self.max_split_ts_length,
             "min_perc_change": self.min_perc_change,
+            "anomaly_scores_only": self.anomaly_scores_only,
         }
 
         return json.dumps(model_dict).encode("utf-8")
@@ -1026,10 +1030,27 @@ class MultiStatSigDetectorModel(StatSigDetectorModel):
             seasonal_period=seasonal_period,
             min_perc_change=min_perc_change,
         )
+        if serialized_model:
+            model_dict = json.loads(serialized_model)
+            method = model_dict.get("method", method)
+            skip_rescaling = model_dict.get("skip_rescaling", skip_rescaling)
+            use_corrected_scores = model_dict.get(
+                "use_corrected_scores", use_corrected_scores
+            )
         self.method = method
         self.skip_rescaling = skip_rescaling
         self.use_corrected_scores = use_corrected_scores
 
+    def serialize(self) -> bytes:
+        """
+        Serializes by putting model parameters in a json
+        """
+        model_dict = json.loads(super().serialize())
+        model_dict["method"] = self.method
+        model_dict["skip_rescaling"] = self.skip_rescaling
+
+        return json.dumps(model_dict).encode("utf-8")
+
     def fit_predict(
         self,
         data: TimeSeriesData,
-- 
2.43.0


From fe58ce0eefe356e2eeefee67daf8586c99b2ec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:49 +0000
Subject: [PATCH 17/38] fix: RollingStatsModel can be rebuilt from its saved
 state

---
 kats/detectors/rolling_stats_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/rolling_stats_model.py b/kats/detectors/rolling_stats_model.py
index 3fe7986..8e9a4e7 100644
--- a/kats/detectors/rolling_stats_model.py
+++ b/kats/detectors/rolling_stats_model.py
@@ -230,7 +230,9 @@ class RollingStatsModel(DetectorModel):
         if serialized_model:
             previous_model = json.loads(serialized_model)
             self.rolling_window: int = previous_model["rolling_window"]
-            self.statistics: RollStatsFunction = previous_model["statistics"]
+            self.statistics: RollStatsFunction = RollStatsFunction(
+                previous_model["statistics"]
+            )
             self.remove_seasonality: bool = previous_model["remove_seasonality"]
             self.point_based: bool = previous_model["point_based"]
             self.seasonality_period: str = previous_model["seasonality_period"]
-- 
2.43.0


From 01897afa5ab7a523eae9cbd6e3df27b09493fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:58 +0000
Subject: [PATCH 18/38] fix: RollingStatsModel does not change its own window
 size while scoring

---
 kats/detectors/rolling_stats_model.py | 30 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/kats/detectors/rolling_stats_model.py b/kats/detectors/rolling_stats_model.py
index 8e9a4e7..3d74d69 100644
--- a/kats/detectors/rolling_stats_model.py
+++ b/kats/detectors/rolling_stats_model.py
@@ -289,24 +289,26 @@ class RollingStatsModel(DetectorModel):
         """
         return str.encode(json.dumps(self.__dict__))
 
-    def _point_based_vectorized_data(self, data: npt.NDArray) -> npt.NDArray:
+    def _point_based_vectorized_data(
+        self, data: npt.NDArray, window_points: int
+    ) -> npt.NDArray:
         """
         For Z-scores and its variants,
-        reshape the input data to shape (-1, self.rolling_window + 1)
+        reshape the input data to shape (-1, window_points + 1)
         Each row consists of [history window | one datapoint to evaluate]
 
         For IQR and MAD,
-        reshape the input data to shape (-1, self.rolling_window)
+        reshape the input data to shape (-1, window_points)
         """
         if self.extend_rolling_window:
             shape = data.shape[:-1] + (
-                data.shape[-1] - self.rolling_window,
-                self.rolling_window + 1,
+                data.shape[-1] - window_points,
+                window_points + 1,
             )
         else:
             shape = data.shape[:-1] + (
-                data.shape[-1] - self.rolling_window + 1,
-                self.rolling_window,
+                data.shape[-1] - window_points + 1,
+                window_points,
             )
         strides = data.strides + (data.strides[-1],)
         # pyre-fixme[16]: Module `numpy.lib.stride_tricks` has no attribute `as_strided`.
@@ -318,6 +320,7 @@ class RollingStatsModel(DetectorModel):
         self,
         data_interp: TimeSeriesData,
         n_points_hist_data: int,
+        window_points: int,
     ) -> AnomalyResponse:
         """
         Params:
@@ -325,11 +328,12 @@ class RollingStatsModel(DetectorModel):
             n_point_hist_data: How many points from the original data were historical
                 data. Used to keep track of how many points need to be scored since
                 historical_data and data are merged in fit_predict().
+            window_points: The rolling window size in points.
         """
         if self.extend_rolling_window:
-            rolling_window = self.rolling_window
+            rolling_window = window_points
         else:
-            rolling_window = self.rolling_window - 1
+            rolling_window = window_points - 1
 
         if n_points_hist_data < rolling_window:
             if not self.allow_expanding_window:
@@ -346,13 +350,14 @@ class RollingStatsModel(DetectorModel):
                         data_value,
                     ],
                     axis=0,
-                )
+                ),
+                window_points,
             )
         else:
             data_value = data_interp.value.values[
                 (n_points_hist_data - rolling_window) :
             ]
-            reorg_data = self._point_based_vectorized_data(data_value)
+            reorg_data = self._point_based_vectorized_data(data_value, window_points)
 
         scores_array = (
             SCORE_FUNC_DICT[self.statistics.value](reorg_data, iqr_base=self.iqr_base)
@@ -419,6 +424,7 @@ class RollingStatsModel(DetectorModel):
             return self._fit_predict_point_based(
                 data_interp=historical_data,
                 n_points_hist_data=n_points_hist_data,
+                window_points=self.rolling_window,
             )
 
         # pd.timedelta
@@ -430,10 +436,10 @@ class RollingStatsModel(DetectorModel):
             self.rolling_window % frequency_sec == 0
             and not historical_data.is_data_missing()
         ):
-            self.rolling_window = self.rolling_window // frequency_sec
             return self._fit_predict_point_based(
                 data_interp=historical_data,
                 n_points_hist_data=n_points_hist_data,
+                window_points=self.rolling_window // frequency_sec,
             )
 
         else:
-- 
2.43.0


From 087a503f0207da8de33b16c9ba3fde0ec827552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:58 +0000
Subject: [PATCH 19/38] fix: RollingStatsModel uses iqr_base for irregular data
 too

---
 kats/detectors/rolling_stats_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/rolling_stats_model.py b/kats/detectors/rolling_stats_model.py
index 3d74d69..59960d5 100644
--- a/kats/detectors/rolling_stats_model.py
+++ b/kats/detectors/rolling_stats_model.py
@@ -464,7 +464,9 @@ class RollingStatsModel(DetectorModel):
                 ].value.values
                 if len(window_data_array) >= 2:
                     score = (
-                        SCORE_FUNC_DICT[self.statistics.value](window_data_array)
+                        SCORE_FUNC_DICT[self.statistics.value](
+                            window_data_array, iqr_base=self.iqr_base
+                        )
                         * self.score_base
                     )
                 else:
-- 
2.43.0


From 01e2b63bf307f1aa1b8c2581735f74f2adfce5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:16 +0000
Subject: [PATCH 20/38] fix: CUSUM models score the rest of a window whose
 history is exactly as long as historical_window

---
 kats/detectors/cusum_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/cusum_model.py b/kats/detectors/cusum_model.py
index a9941ff..26b7cfb 100644
--- a/kats/detectors/cusum_model.py
+++ b/kats/detectors/cusum_model.py
@@ -1048,7 +1048,9 @@ class CUSUMDetectorModel(DetectorModel):
         if direction == "right":
             return np.argwhere((tsd.time >= time).values).min()
         elif direction == "left":
-            return np.argwhere((tsd.time < time).values).max()
+            idx = np.argwhere((tsd.time < time).values)
+            # nothing on the left: start with the first point
+            return idx.max() if len(idx) > 0 else 0
         else:
             raise InternalError("direction can only be right or left")
 
-- 
2.43.0


From 2d2ab02a251c2b4dd324078619280432c8083deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:00 +0000
Subject: [PATCH 21/38] fix: StatSigDetectorModel's default saved state keeps
 its format

---
 kats/detectors/stat_sig_detector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/stat_sig_detector.py b/kats/detectors/stat_sig_detector.py
index 49a380f..17b5301 100644
--- a/kats/detectors/stat_sig_detector.py
+++ b/kats/detectors/stat_sig_detector.py
@@ -195,8 +195,10 @@ class StatSigDetectorModel(DetectorModel):
             "use_corrected_scores": self.use_corrected_scores,
             "max_split_ts_length": self.max_split_ts_length,
             "min_perc_change": self.min_perc_change,
-            "anomaly_scores_only": self.anomaly_scores_only,
         }
+        if self.anomaly_scores_only:
+            # left out by default: older versions do not know it
+            model_dict["anomaly_scores_only"] = True
 
         return json.dumps(model_dict).encode("utf-8")
 
-- 
2.43.0


From 69bfdaf020f0545dd1f6febb9c126a949f9644f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:00 +0000
Subject: [PATCH 22/38] fix: StaticThresholdModel's scores do not share memory
 with the caller's data

---
 kats/detectors/threshold_detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kats/detectors/threshold_detector.py b/kats/detectors/threshold_detector.py
index cb0da09..f7603d0 100644
--- a/kats/detectors/threshold_detector.py
+++ b/kats/detectors/threshold_detector.py
@@ -77,7 +77,7 @@ class StaticThresholdModel(DetectorModel):
             AnomalyResponse object whose scores is a copy of the time series. The length of this object is same as data.
         """
         output_ts = self._zeros_ts(data)
-        output_ts.value = data.value
+        output_ts.value = data.value.copy()
         return AnomalyResponse(
             scores=output_ts,
             confidence_band=None,
-- 
2.43.0


From c922065f6a1b4f86e430f8936475df48f39cba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:10 +0000
Subject: [PATCH 23/38] fix: StaticThresholdModel can be saved

---
 kats/detectors/threshold_detector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kats/detectors/threshold_detector.py b/kats/detectors/threshold_detector.py
index f7603d0..efcdd48 100644
--- a/kats/detectors/threshold_detector.py
+++ b/kats/detectors/threshold_detector.py
@@ -5,6 +5,7 @@
 
 # pyre-strict
 
+import json
 from typing import Any, Optional
 
 import numpy as np
@@ -33,7 +34,7 @@ class StaticThresholdModel(DetectorModel):
         self,
         serialized_model: Optional[bytes] = None,
     ) -> None:
-        if serialized_model:
+        if serialized_model and json.loads(serialized_model) is not None:
             self.model = model_from_json(serialized_model)
         else:
             self.model = None
@@ -46,6 +47,8 @@ class StaticThresholdModel(DetectorModel):
         Returns:
             json containing information of the model.
         """
+        if self.model is None:
+            return str.encode(json.dumps(None))
         return str.encode(model_to_json(self.model))
 
     def _zeros_ts(self, data: TimeSeriesData) -> TimeSeriesData:
-- 
2.43.0


From 821978a38dddc4bf7645d783a577cbd327587b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:10 +0000
Subject: [PATCH 24/38] fix: OutlierDetectorModel.fit_predict fits every window
 it is given

---
 kats/detectors/outlier_detector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kats/detectors/outlier_detector.py b/kats/detectors/outlier_detector.py
index 3c4993c..ac2af27 100644
--- a/kats/detectors/outlier_detector.py
+++ b/kats/detectors/outlier_detector.py
@@ -170,4 +170,5 @@ class OutlierDetectorModel(DetectorModel):
             AnomalyResponse object. The length of this object is same as data. The score property
             gives the score for anomaly.
         """
+        self.fit(data=data, historical_data=historical_data)
         return self.predict(data=data, historical_data=historical_data, **kwargs)
-- 
2.43.0


From 99163f728369633f5c1a110a332466a5adab7289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:36 +0000
Subject: [PATCH 25/38] fix: interval detectors do not reuse the intervals of
 an earlier window

---
 kats/detectors/interval_detector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kats/detectors/interval_detector.py b/kats/detectors/interval_detector.py
index 5e09546..794d9c8 100644
--- a/kats/detectors/interval_detector.py
+++ b/kats/detectors/interval_detector.py
@@ -632,6 +632,9 @@ class IntervalDetectorModel(DetectorModel, ABC):
         #       (2) duration
         #   If the user wishes to do this manually, this step can also be bypassed,
         #   returning just the raw test statistics without any critical_value or duration applied.
+        # intervals of an earlier call say nothing about this one
+        self.reject_intervals = None
+        self.fail_to_reject_intervals = None
         if consolidate_into_intervals:
             self.reject_intervals = self._get_intervals(
                 time=_data.time,
-- 
2.43.0


From 69c2a55a7d19d765aecdfda2b4702dc7dd7d6057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 26/38] fix: extending an empty series gives the other series

---
 kats/consts.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kats/consts.py b/kats/consts.py
index 1cc18b5..26829da 100644
--- a/kats/consts.py
+++ b/kats/consts.py
@@ -682,9 +682,13 @@ class TimeSeriesData:
         if isinstance(other.value, pd.Series):
             other_value = pd.DataFrame(other_value, copy=False)
         # Concatenate values
-        self.value = pd.concat(
-            [cur_value, other_value], ignore_index=True, copy=False
-        ).reset_index(drop=True)
+        if len(cur_value) == 0:
+            # an empty series has no columns of its own to keep
+            self.value = other_value.reset_index(drop=True)
+        else:
+            self.value = pd.concat(
+                [cur_value, other_value], ignore_index=True, copy=False
+            ).reset_index(drop=True)
         # Merge value back to Series if required
         self._set_univariate_values_to_series()
         # Validate that frequency is constant if required
-- 
2.43.0


From 1274ab86015656ae0a8c94cd084abd664bb25343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 27/38] fix: CUSUM models keep their baseline when the scan
 window covers all data

---
 kats/detectors/cusum_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kats/detectors/cusum_model.py b/kats/detectors/cusum_model.py
index 26b7cfb..f25a269 100644
--- a/kats/detectors/cusum_model.py
+++ b/kats/detectors/cusum_model.py
@@ -393,7 +393,8 @@ class CUSUMDetectorModel(DetectorModel):
         else:
             cur_mean = vec_data_row[scan_start_index:].value.mean()
 
-            if self.adapted_pre_mean:
+            # (when nothing is left before the scan window, the baseline stays)
+            if self.adapted_pre_mean and scan_start_index > 0:
                 self.pre_mean = vec_data_row.value[:scan_start_index].mean()
                 self.pre_std = vec_data_row.value[:scan_start_index].std(ddof=0)
 
@@ -482,7 +483,8 @@ class CUSUMDetectorModel(DetectorModel):
         else:
             cur_mean = historical_data[scan_start_index:].value.mean()
 
-            if self.adapted_pre_mean:
+            # (when nothing is left before the scan window, the baseline stays)
+            if self.adapted_pre_mean and scan_start_index > 0:
                 self.pre_mean = historical_data.value[:scan_start_index].mean()
                 self.pre_std = historical_data.value[:scan_start_index].std(ddof=0)
 
-- 
2.43.0


From c4798fc501bfa0a4cbd27caf39c6f3deb592a34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:42 +0000
Subject: [PATCH 28/38] fix: a TimeSeriesData.extend that fails leaves the
 series as it was

---
 kats/consts.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/kats/consts.py b/kats/consts.py
index 26829da..ce6dc03 100644
--- a/kats/consts.py
+++ b/kats/consts.py
@@ -671,7 +671,7 @@ class TimeSeriesData:
         if not isinstance(other, TimeSeriesData):
             raise TypeError("extend must take another TimeSeriesData object")
         # Concatenate times
-        self.time = pd.concat(
+        new_time = pd.concat(
             [self.time, other.time], ignore_index=True, copy=False
         ).reset_index(drop=True)
         # Convert values to DataFrame if needed
@@ -684,16 +684,19 @@ class TimeSeriesData:
         # Concatenate values
         if len(cur_value) == 0:
             # an empty series has no columns of its own to keep
-            self.value = other_value.reset_index(drop=True)
+            new_value = other_value.reset_index(drop=True)
         else:
-            self.value = pd.concat(
+            new_value = pd.concat(
                 [cur_value, other_value], ignore_index=True, copy=False
             ).reset_index(drop=True)
+        # Validate that frequency is constant if required, before anything is
+        # changed
+        if validate:
+            self._validate_frequency(new_time)
+        self.time = new_time
+        self.value = new_value
         # Merge value back to Series if required
         self._set_univariate_values_to_series()
-        # Validate that frequency is constant if required
-        if validate:
-            self.validate_data(validate_frequency=True, validate_dimension=False)
 
     def exclude(
         self,
@@ -752,8 +755,8 @@ class TimeSeriesData:
           ValueError: The frequency and/or dimensions were invalid.
         """
         # check the time frequency is constant
-        if validate_frequency and pd.infer_freq(self.time_to_index()) is None:
-            raise ValueError("Only constant frequency is supported for time!")
+        if validate_frequency:
+            self._validate_frequency(self.time)
 
         if validate_dimension and len(self.time) != self.value.shape[0]:
             raise ValueError(
@@ -761,6 +764,10 @@ class TimeSeriesData:
                 f"({len(self.time)} vs. {self.value.shape[0]})"
             )
 
+    def _validate_frequency(self, time: pd.Series) -> None:
+        if pd.infer_freq(pd.DatetimeIndex(time)) is None:
+            raise ValueError("Only constant frequency is supported for time!")
+
     def _calc_min_max_values(self) -> None:
         # Get maximum and minimum values
         if not self.value.empty:
-- 
2.43.0


From f61302995e621b9ddd7bf585d796d94118add62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 29/38] fix: a TimeSeriesData.set_timezone that fails leaves
 the series as it was

---
 kats/consts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kats/consts.py b/kats/consts.py
index ce6dc03..2d4ff1f 100644
--- a/kats/consts.py
+++ b/kats/consts.py
@@ -1205,14 +1205,15 @@ class TimeSeriesData:
         sort_by_time: bool = True,
     ) -> None:
         if not (self.is_timezone_aware()):
-            self.time = (
+            df = self.to_dataframe()
+            df[self.time_col_name] = (
                 # pyre-ignore
                 pd.DatetimeIndex(self.time)
                 .tz_localize(tz, ambiguous=tz_ambiguous, nonexistent=tz_nonexistent)
                 .to_series()
                 .reset_index(drop=True)
             )
-            df = self._sort_by_time(sort_by_time=sort_by_time, df=self.to_dataframe())
+            df = self._sort_by_time(sort_by_time=sort_by_time, df=df)
             self._extract_from_df(df=df)
         else:
             logging.warning("Please make sure the time series is not timezone aware")
-- 
2.43.0


From 4b1aca812ae61b78f45c9e37914d04acf31cf02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 30/38] fix: BayesianVAR.predict leaves the fitted history
 values as they are

---
 kats/models/bayesian_var.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kats/models/bayesian_var.py b/kats/models/bayesian_var.py
index 145eadf..67447e5 100644
--- a/kats/models/bayesian_var.py
+++ b/kats/models/bayesian_var.py
@@ -411,8 +411,8 @@ class BayesianVAR(m.Model[BayesianVARParams]):
 
         if include_history:
             times = self.data.time.iloc[self.p : T].tolist()
-            forecast_vals = self.forecast_vals
-            assert forecast_vals is not None
+            assert self.forecast_vals is not None
+            forecast_vals = list(self.forecast_vals)
         else:
             times = []
             forecast_vals = []
-- 
2.43.0


From 9f11f937f0bc0b736a191a5cfce9f9a7cc14aa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 31/38] fix: VARModel.fit leaves the caller's params.maxlags as
 it is

---
 kats/models/var.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kats/models/var.py b/kats/models/var.py
index 4586bea..0061f9d 100644
--- a/kats/models/var.py
+++ b/kats/models/var.py
@@ -104,9 +104,10 @@ class VARModel(Model[VARParams]):
         """Fit VAR model"""
 
         logging.debug("Call fit()")
-        if self.params.maxlags is None:
+        maxlags = self.params.maxlags
+        if maxlags is None:
             # pyre-fixme[16]: `Optional` has no attribute `time`.
-            self.params.maxlags = int(12 * (len(self.data.time) / 100.0) ** (1.0 / 4))
+            maxlags = int(12 * (len(self.data.time) / 100.0) ** (1.0 / 4))
 
         # create VAR model
         # pyre-fixme[16]: `Optional` has no attribute `value`.
@@ -115,7 +116,7 @@ class VARModel(Model[VARParams]):
 
         # fit VAR model
         self.model = model = var.fit(
-            maxlags=self.params.maxlags,
+            maxlags=maxlags,
             method=self.params.method,
             ic=self.params.ic,
             verbose=self.params.verbose,
-- 
2.43.0


From af0e3ab159861d12d431b523bfe0cd61ddb247ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 32/38] fix: ProphetModel.predict leaves the caller's future
 frame as it is

---
 kats/models/prophet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kats/models/prophet.py b/kats/models/prophet.py
index 24d7b8c..951bcb4 100644
--- a/kats/models/prophet.py
+++ b/kats/models/prophet.py
@@ -324,6 +324,8 @@ class ProphetModel(Model[ProphetParams]):
                 freq=self.freq,
                 include_history=self.include_history,
             )
+        else:
+            future = future.copy()
         if "ds" not in future.columns:
             msg = "`future` should be specified and `future` should contain a column named 'ds' representing the timestamps."
             _error_msg(msg)
-- 
2.43.0


From 38aa7b1700a5f3bb690f30369d8d0021c87ee423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:59 +0000
Subject: [PATCH 33/38] fix: MLARModel leaves the caller's params as they are

---
 kats/models/ml_ar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kats/models/ml_ar.py b/kats/models/ml_ar.py
index ea46094..0375d18 100644
--- a/kats/models/ml_ar.py
+++ b/kats/models/ml_ar.py
@@ -5,6 +5,7 @@
 
 # pyre-strict
 
+import copy
 import logging
 from typing import Any, cast, Dict, List, Optional, Set, Tuple, Union
 
@@ -394,7 +395,8 @@ class MLARModel:
             )
             logging.error(msg)
             raise ValueError(msg)
-        self.params = params
+        # the model refines its own parameters while it is trained
+        self.params: MLARParams = copy.copy(params)
         self.debug = False
         # pyre-fixme
         self.model = None
-- 
2.43.0


From 6654074d3465856ddf093c0ac5500d0ed9384736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 34/38] fix: the simple heuristic 'last' forecast does not
 share memory with the data

---
 kats/models/simple_heuristic_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kats/models/simple_heuristic_model.py b/kats/models/simple_heuristic_model.py
index 6b97d2c..a86c860 100644
--- a/kats/models/simple_heuristic_model.py
+++ b/kats/models/simple_heuristic_model.py
@@ -110,7 +110,8 @@ class SimpleHeuristicModel(Model[SimpleHeuristicModelParams]):
         Args:
             fitted_values: numpy ndarray with shape (len(self.data.value)//steps, steps) from self.data.value
         """
-        return fitted_values[-1, :]
+        # a copy: the forecast must not share memory with the data
+        return fitted_values[-1, :].copy()
 
     def _calc_mean(self, fitted_values: npt.NDArray) -> npt.NDArray:
         """calculates mean from self.data.value
-- 
2.43.0


From a5da7e141514fe4f7feab2e82316db52b46774e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:52 +0000
Subject: [PATCH 35/38] fix: the simulator's seeded series depend on nothing
 but the seed

---
 kats/utils/simulator.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/kats/utils/simulator.py b/kats/utils/simulator.py
index 94e516d..963379c 100644
--- a/kats/utils/simulator.py
+++ b/kats/utils/simulator.py
@@ -354,8 +354,8 @@ class Simulator:
         if z_score_arr is None:
             z_score_arr = []
 
-        # pyrefly: ignore [bad-argument-type]
-        np.random.seed(seed=random_seed)
+        # a generator of our own: the result depends on nothing but the seed
+        rng = np.random.RandomState(random_seed)
 
         # if cp_arr is not sorted, sort it
         cp_arr = sorted(cp_arr)
@@ -385,7 +385,10 @@ class Simulator:
             cp_end = cp_arr[i + 1]
 
             y_val[cp_begin:cp_end] = norm.rvs(
-                loc=level_arr[i], scale=noise, size=(cp_end - cp_begin)
+                loc=level_arr[i],
+                scale=noise,
+                size=(cp_end - cp_begin),
+                random_state=rng,
             )
 
         # add anomalies
@@ -660,7 +663,12 @@ class Simulator:
         )
 
         # add noise and anomalies
-        noise_arr = norm.rvs(loc=0, scale=noise, size=self.n)
+        noise_arr = norm.rvs(
+            loc=0,
+            scale=noise,
+            size=self.n,
+            random_state=np.random.RandomState(random_seed),
+        )
         if len(anomaly_arr) != len(z_score_arr):
             raise ValueError(
                 f"""
-- 
2.43.0


From 7e104a19eb7b65d3f22497c2a2192e1516d9a2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:54 +0000
Subject: [PATCH 36/38] fix: BOCPD's trend model draws from a generator of its
 own

---
 kats/detectors/bocpd.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/kats/detectors/bocpd.py b/kats/detectors/bocpd.py
index 5a81c34..c6d7eb7 100644
--- a/kats/detectors/bocpd.py
+++ b/kats/detectors/bocpd.py
@@ -1598,18 +1598,20 @@ class _BayesianLinReg(_PredictiveModel):
         # this is to make sure the results are consistent
         # and tests don't break randomly
         seed_value = 100
-        # pyrefly: ignore [bad-argument-type]
-        np.random.seed(seed_value)
+        rng = np.random.RandomState(seed_value)
 
-        # pyre-fixme[24]: Generic type `np.ndarray` expects 2 type parameters.
-        sample_sigma_squared = cast(np.ndarray, invgamma.rvs(a_n, scale=b_n, size=1))
+        sample_sigma_squared = cast(
+            # pyre-fixme[24]: Generic type `np.ndarray` expects 2 type parameters.
+            np.ndarray,
+            invgamma.rvs(a_n, scale=b_n, size=1, random_state=rng),
+        )
 
         # Sample a beta value from Normal(mu_n, sigma^2 * inv(lambda_n))
         assert len(mu_n.shape) == 1, (
             f"Expected 1 dimensional mu_n, but got {mu_n.shape}"
         )
 
-        all_beta_samples = np.random.multivariate_normal(
+        all_beta_samples = rng.multivariate_normal(
             mu_n, sample_sigma_squared * np.linalg.inv(lambda_n), size=num_samples
         )
 
-- 
2.43.0


From 3a1afd2c93ae2aa137a153cba37ba4cbf5af1175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:05 +0000
Subject: [PATCH 37/38] fix: overlapping or failing silenced sections give the
 console back

---
 kats/detectors/prophet_detector.py | 68 ++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 18 deletions(-)

diff --git a/kats/detectors/prophet_detector.py b/kats/detectors/prophet_detector.py
index 099d54a..b485283 100644
--- a/kats/detectors/prophet_detector.py
+++ b/kats/detectors/prophet_detector.py
@@ -15,9 +15,10 @@ import logging
 import os
 import re
 import sys
+import threading
 from contextlib import ExitStack
 from enum import Enum
-from typing import Any, Dict, List, Optional, Union
+from typing import Any, Dict, List, Optional, Tuple, Union
 
 import numpy as np
 import pandas as pd
@@ -62,26 +63,57 @@ class SilentStdoutStderr(object):
     # pyre-fixme typing
     stdout, stderr = sys.__stdout__.fileno(), sys.__stderr__.fileno()  # type: ignore
 
+    # The descriptors belong to the process: all sections, nested or on other
+    # threads, share one redirection, undone when the last of them ends.
+    _lock = threading.Lock()
+    _sections: int = 0
+    _saved: Tuple[int, int] = (-1, -1)
+
     def __enter__(self) -> None:
-        # pyre-fixme typing # type: ignore
-        self.devnull = os.open(os.devnull, os.O_RDWR)
-        # pyre-fixme typing
-        self.orig_stdout, self.orig_stderr = os.dup(self.stdout), os.dup(self.stderr)  # type: ignore
-        # flushing everythoing before rerouting not to miss previous output
-        print(flush=True)
-        # point stdout, stderr to /dev/null
-        os.dup2(self.devnull, self.stdout)
-        os.dup2(self.devnull, self.stderr)
+        cls = SilentStdoutStderr
+        with cls._lock:
+            if cls._sections == 0:
+                self._silence()
+            cls._sections += 1
 
     def __exit__(self, *_) -> None:  # type: ignore
-        # flushing everything not to pring after rerouting
-        print(flush=True)
-        # restore stdout, stderr back
-        os.dup2(self.orig_stdout, self.stdout)  # pyre-fixme
-        os.dup2(self.orig_stderr, self.stderr)  # pyre-fixme
-        # close all file descriptors
-        for file in [self.devnull, self.orig_stdout, self.orig_stderr]:  # pyre-fixme
-            os.close(file)
+        cls = SilentStdoutStderr
+        with cls._lock:
+            cls._sections -= 1
+            if cls._sections == 0:
+                self._restore()
+
+    def _silence(self) -> None:
+        with ExitStack() as on_error:
+            devnull = os.open(os.devnull, os.O_RDWR)
+            on_error.callback(os.close, devnull)
+            orig_stdout = os.dup(self.stdout)
+            on_error.callback(os.close, orig_stdout)
+            orig_stderr = os.dup(self.stderr)
+            on_error.callback(os.close, orig_stderr)
+            # flushing everythoing before rerouting not to miss previous output
+            print(flush=True)
+            # point stdout, stderr to /dev/null
+            on_error.callback(os.dup2, orig_stdout, self.stdout)
+            os.dup2(devnull, self.stdout)
+            on_error.callback(os.dup2, orig_stderr, self.stderr)
+            os.dup2(devnull, self.stderr)
+            SilentStdoutStderr._saved = (orig_stdout, orig_stderr)
+            on_error.pop_all()
+        os.close(devnull)
+
+    def _restore(self) -> None:
+        orig_stdout, orig_stderr = SilentStdoutStderr._saved
+        try:
+            # flushing everything not to pring after rerouting
+            print(flush=True)
+        finally:
+            # restore stdout, stderr back
+            os.dup2(orig_stdout, self.stdout)
+            os.dup2(orig_stderr, self.stderr)
+            # close all file descriptors
+            os.close(orig_stdout)
+            os.close(orig_stderr)
 
 
 # Previously assumed Prophet CI width was computed based on sample stddev,
-- 
2.43.0


From d58f32763543a28b7420db69474046e3a0e326dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 38/38] fix: a nowcasting forecast with an external model does
 not replace the model's own

---
 kats/models/nowcasting/nowcasting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kats/models/nowcasting/nowcasting.py b/kats/models/nowcasting/nowcasting.py
index 5227731..3e834d2 100644
--- a/kats/models/nowcasting/nowcasting.py
+++ b/kats/models/nowcasting/nowcasting.py
@@ -183,15 +183,15 @@ class NowcastingModel(m.Model):
             "Call predict() with parameters. "
             "Forecast 1 step only, kwargs:{kwargs}".format(kwargs=kwargs)
         )
-        if model:
-            self.model = model
+        if not model:
+            model = self.model
         if df is not None:
             if "y" in self.df.columns:
-                prediction = self.model.predict(df[self.feature_names])
+                prediction = model.predict(df[self.feature_names])
             else:
                 raise Exception("External df as input has wrong format")
         else:
-            prediction = self.model.predict(self.df[-self.step :][self.feature_names])
+            prediction = model.predict(self.df[-self.step :][self.feature_names])
         return prediction
 
     def load_model(self, model_as_bytes: bytes) -> None:
-- 
2.43.0

