From bfdc3b485b818a13aab60de34aff4aa3d899dee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 01/30] fix: embargo uses the test samples up to the block end
 and also applies when it reaches the end of the data

---
 mizarlabs/model/model_selection.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mizarlabs/model/model_selection.py b/mizarlabs/model/model_selection.py
index 021e20b..66c66e0 100644
--- a/mizarlabs/model/model_selection.py
+++ b/mizarlabs/model/model_selection.py
@@ -286,16 +286,16 @@ def embargo(
             "The passed cross-validation object should have a "
             "member cv.embargo_td defining the embargo time."
         )
-    last_test_eval_time = cv.eval_times.iloc[test_indices[:test_fold_end]].max()
+    last_test_eval_time = cv.eval_times.iloc[
+        test_indices[test_indices < test_fold_end]
+    ].max()
     min_train_index = len(
         cv.pred_times[cv.pred_times <= last_test_eval_time + cv.embargo_td]
     )
-    if min_train_index < cv.indices.shape[0]:
-        allowed_indices = np.concatenate(
-            (cv.indices[:test_fold_end], cv.indices[min_train_index:])
-        )
-        train_indices = np.intersect1d(train_indices, allowed_indices)
-    return train_indices
+    allowed_indices = np.concatenate(
+        (cv.indices[:test_fold_end], cv.indices[min_train_index:])
+    )
+    return np.intersect1d(train_indices, allowed_indices)
 
 
 def purge(
-- 
2.43.0


From 325f2c72ebb257eef18b802d6901272a74f21c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 02/30] fix: number of combinatorial backtest paths comes from
 the number of groups, not of splits

---
 mizarlabs/model/model_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/model_selection.py b/mizarlabs/model/model_selection.py
index 66c66e0..81461ad 100644
--- a/mizarlabs/model/model_selection.py
+++ b/mizarlabs/model/model_selection.py
@@ -434,7 +434,7 @@ def combinatorial_cross_validation_paths(
 
             bound_pred_dict[test_bound[0]].append(tmp_df)
 
-    n_paths = compute_back_test_paths(cv.n_splits, cv.n_test_splits)
+    n_paths = compute_back_test_paths(cv.n_groups, cv.n_test_splits)
     paths = []
 
     # from the sub test computed create paths randomly picking one sub test
-- 
2.43.0


From 477ec67ee6dc2dc41d6f45543a0798086a3135ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 03/30] fix: consult the closing positions model (misspelled
 attribute)

---
 mizarlabs/model/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 9fb5ed3..dc255ed 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -681,7 +681,7 @@ class StrategySignalPipeline:
 
     def determine_positions_to_close(self, X_dict: Dict[str, pd.DataFrame]):
         positions_to_close = None
-        if hasattr(self, "closing_position_model") and self.closing_positions_model:
+        if hasattr(self, "closing_positions_model") and self.closing_positions_model:
             positions_to_close = self.closing_positions_model.close_positions(X_dict)
 
         if positions_to_close not in ("all", "long", "short", None):
-- 
2.43.0


From 1fa366c9d3d23de2599f09651f9e32d44572f826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 04/30] fix: creating strategy bars no longer adds columns to
 the caller's dataframe

---
 mizarlabs/model/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index dc255ed..95b1116 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -797,7 +797,7 @@ class StrategyTrader:
 
         # target dataframe is extracted so that the volatility can be
         # calculated
-        strategy_bars_df = X_dict[self.strategy_pipeline.align_on_]
+        strategy_bars_df = X_dict[self.strategy_pipeline.align_on_].copy()
 
         volatility_adjusted_stop_loss = (
             self.volatility_adjusted_stop_loss
-- 
2.43.0


From 2da258fd8819d4cb5ba96cb440c736120a830451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 05/30] fix: metalabeling features keep only rows the primary
 model predicted, also without its probabilities

---
 mizarlabs/model/pipeline.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 95b1116..2c07d9a 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -402,9 +402,13 @@ class StrategySignalPipeline:
         X_metalabel_aligned.dropna(inplace=True)
         # add primary model predict values for metalabel model as features
         if self.metalabeling_use_predictions_primary_model:
-            X_metalabel_aligned["primary_side_pred"] = pd.Series(
+            X_primary_pred_feature = pd.Series(
                 self.primary_model.predict(X_primary_aligned),
                 index=X_primary_aligned.index,
+                name="primary_side_pred",
+            )
+            X_metalabel_aligned = pd.concat(
+                [X_metalabel_aligned, X_primary_pred_feature], axis=1, join="inner"
             )
         # add primary model predict proba values for metalabel model as features
         if self.metalabeling_use_proba_primary_model:
-- 
2.43.0


From 750e6bc303c4f659a3b350b9179c3d35453a480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 06/30] fix: triple barrier labelling works with a custom side
 column name

---
 mizarlabs/transformers/targets/labeling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mizarlabs/transformers/targets/labeling.py b/mizarlabs/transformers/targets/labeling.py
index 147878a..2abb148 100644
--- a/mizarlabs/transformers/targets/labeling.py
+++ b/mizarlabs/transformers/targets/labeling.py
@@ -167,10 +167,10 @@ class TripleBarrierMethodLabeling(BaseLabeling):
             else 1
         )
 
-        if SIDE not in y.columns:
-            barriers_info_df[self.side_column_name] = 1
+        if self.side_column_name not in y.columns:
+            barriers_info_df[SIDE] = 1
         else:
-            barriers_info_df[self.side_column_name] = y[self.side_column_name]
+            barriers_info_df[SIDE] = y[self.side_column_name]
 
         barriers_df = triple_barrier_labeling(
             close=y[self.close_column_name],
-- 
2.43.0


From feaf9ed3bd0242f946da27c3b222a8f3fa7bf418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 07/30] fix: the trend scanner does not keep the events of an
 earlier call

---
 mizarlabs/transformers/targets/trend_scanning.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index b7ede78..f288dd0 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -77,9 +77,10 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
         assert set(required_columns) == set(
             output_df.columns
         ), f"Missing {set(required_columns) - set(output_df.columns)} in output DataFrame."
-        assert set(self.t_events) == set(
-            output_df.index.values
-        ), f"Missing following time indices in output DataFrame: {set(self.t_events) - set(output_df.index.values)}"
+        if self.t_events is not None:
+            assert set(self.t_events) == set(
+                output_df.index.values
+            ), f"Missing following time indices in output DataFrame: {set(self.t_events) - set(output_df.index.values)}"
 
     def transform(self, y: pd.Series) -> pd.DataFrame:
         """Scans for trends in the provided series and provides
@@ -117,13 +118,12 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
 
         # check if only subset of indices is looped over
         # else scan every index
-        if self.t_events is None:
-            self.t_events = y.index.values
+        t_events = y.index.values if self.t_events is None else self.t_events
 
         # get t values and end indices per index
         t_values_array, end_indices_array = _trend_scan_each_index(
             y_array=y.values.astype(np.float64),
-            indices=y.index.get_indexer(self.t_events),
+            indices=y.index.get_indexer(t_events),
             min_sample_length=self.min_sample_length,
             look_forward_window=self.look_forward_window,
             step=self.step,
@@ -137,7 +137,7 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
         # cast results into dataframe and compute the returns and the sign of the return
         labels = pd.DataFrame(
             {EVENT_END_TIME: event_end_times_array, T_VALUE: t_values_array},
-            index=self.t_events,
+            index=t_events,
         )
         non_nan_labels = labels[EVENT_END_TIME].dropna()
         labels.loc[non_nan_labels.index, RETURN] = (
-- 
2.43.0


From fa66d29565a3f868a5972c4f722c3714b6fb4885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 08/30] fix: trend scanning with step > 1 no longer reads
 uninitialised t-values

---
 mizarlabs/transformers/targets/trend_scanning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index f288dd0..9092008 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -231,7 +231,7 @@ def _get_t_val_and_event_end_time_index_at_index(
     """
 
     # init array to stores t values in
-    t_values_array = np.empty(y_subset.shape[0] - min_sample_length)
+    t_values_array = np.zeros(y_subset.shape[0] - min_sample_length)
 
     # expand forward looking window, compute and store t value, keeping into account
     # the min_sample_length and the stepsize
-- 
2.43.0


From 8b4ee52c8bc471553f4380997ee5084f3c2291cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 09/30] fix: trend scanning survives windows without residual
 variance

---
 mizarlabs/transformers/targets/trend_scanning.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index 9092008..2946f32 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -258,9 +258,14 @@ def _get_t_val_and_event_end_time_index_at_index(
         )
 
         # compute t value for trend coefficient
-        t_values_array[forward_window - min_sample_length] = b_mean_[1, 0] / np.sqrt(
-            b_var_[1, 1]
-        )
+        b_std_ = np.sqrt(b_var_[1, 1])
+        if b_std_ > 0:
+            t_values_array[forward_window - min_sample_length] = b_mean_[1, 0] / b_std_
+        elif b_mean_[1, 0] != 0:
+            # perfect fit: the t value of a noiseless trend is infinite
+            t_values_array[forward_window - min_sample_length] = (
+                np.sign(b_mean_[1, 0]) * np.inf
+            )
 
     # identify max abs t-value and its location
     index_max_t_value = np.argmax(np.abs(t_values_array))
-- 
2.43.0


From 8159d074cc3ec110cfdb9787fcb113cbb3fb152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 10/30] fix: float max_features does not rely on the removed
 np.float alias

---
 mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index 01f08e7..3231ef8 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -375,7 +375,7 @@ class SequentiallyBootstrappedBaseBagging(BaseBagging, metaclass=ABCMeta):
         # Validate max_features
         if isinstance(self.max_features, (numbers.Integral, np.integer)):
             max_features = self.max_features
-        elif isinstance(self.max_features, np.float):
+        elif isinstance(self.max_features, (float, np.floating)):
             max_features = self.max_features * self.n_features_
         else:
             raise ValueError("max_features must be int or float")
-- 
2.43.0


From 46a0756f2fc34d9aca138249cb2a1d6b99e08388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 11/30] fix: estimators_samples_ reports the sequentially
 bootstrapped samples

---
 .../model/sequentially_bootstrapped_bagging_classifier.py    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
index 3231ef8..228546b 100644
--- a/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
+++ b/mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py
@@ -265,6 +265,11 @@ class SequentiallyBootstrappedBaseBagging(BaseBagging, metaclass=ABCMeta):
             )
         return self._ind_mat
 
+    @property
+    def estimators_samples_(self):
+        """The in-bag samples drawn by the sequential bootstrap per estimator."""
+        return self.sequentially_bootstrapped_samples_
+
     def fit(
         self,
         X: pd.DataFrame,
-- 
2.43.0


From 38561bdaaec793306bc1d3e94a9caf6c3d47a9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 12/30] fix: averaging active bets works with a custom bet size
 column name

---
 mizarlabs/transformers/trading/bet_sizing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mizarlabs/transformers/trading/bet_sizing.py b/mizarlabs/transformers/trading/bet_sizing.py
index 415aa85..1f020d0 100644
--- a/mizarlabs/transformers/trading/bet_sizing.py
+++ b/mizarlabs/transformers/trading/bet_sizing.py
@@ -123,9 +123,9 @@ class BetSizingFromProbabilities(BetSizingBase):
             bet_sizing_signal *= X.loc[bet_sizing_signal.index, self._side_column_name]
 
         if self._average_active:
-            bet_sizing_signal_with_barrier = bet_sizing_signal.to_frame(BET_SIZE).join(
-                X[[self._event_end_time_column_name]], how="left"
-            )
+            bet_sizing_signal_with_barrier = bet_sizing_signal.to_frame(
+                self._bet_size_column_name
+            ).join(X[[self._event_end_time_column_name]], how="left")
 
             bet_sizing_signal = avg_active_signals(
                 bet_sizing_signal_with_barrier,
-- 
2.43.0


From 4a60b0fcf9872553dab58b27335e60ce389dd257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 13/30] fix: SMT penalises the window length t - t0 as
 documented

---
 mizarlabs/structural_breaks/sadf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/structural_breaks/sadf.py b/mizarlabs/structural_breaks/sadf.py
index d4d965b..b95b9aa 100644
--- a/mizarlabs/structural_breaks/sadf.py
+++ b/mizarlabs/structural_breaks/sadf.py
@@ -124,7 +124,7 @@ def _get_sadf_at_t(
         if model[:2] == "sm":
             t = y.shape[0]
             t0 = start + 1  # t0 index starts from 1 to t - tau (page 260)
-            current_adf = np.abs(current_adf) / ((y.shape[0] - (t - t0)) ** phi)
+            current_adf = np.abs(current_adf) / ((t - t0) ** phi)
 
         adf_array[start] = current_adf
 
-- 
2.43.0


From 5ce46e614ae7f3fdf56019c4fe8cdd79b287b825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 14/30] fix: SADF accepts a list of lags

---
 mizarlabs/structural_breaks/sadf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/structural_breaks/sadf.py b/mizarlabs/structural_breaks/sadf.py
index b95b9aa..774ea6c 100644
--- a/mizarlabs/structural_breaks/sadf.py
+++ b/mizarlabs/structural_breaks/sadf.py
@@ -50,8 +50,9 @@ class SupremumAugmentedDickeyFullerStatTest:
         phi: float,
     ):
         assert 0 <= phi <= 1, f"Expected phi to be between 0 and 1, got {phi}."
+        max_lag = lags if isinstance(lags, int) else max(lags)
         assert (
-            min_length > lags
+            min_length > max_lag
         ), f"min_length {min_length} should be higher than lags {lags}."
         self.model = model
         self.lags = lags
-- 
2.43.0


From fa8722be1b5d874266e45847b5c94ef5739a1748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 15/30] fix: indicator matrix allows events that all cover
 every bar

---
 mizarlabs/model/bootstrapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/bootstrapping.py b/mizarlabs/model/bootstrapping.py
index 593a663..61b1a19 100644
--- a/mizarlabs/model/bootstrapping.py
+++ b/mizarlabs/model/bootstrapping.py
@@ -70,7 +70,7 @@ def get_ind_matrix(
 
     ind_mat_csc = ind_mat.tocsc()
     assert np.max(ind_mat_csc) == 1
-    assert np.min(ind_mat_csc) == 0
+    assert np.min(ind_mat_csc) >= 0
 
     if return_indices:
         return ind_mat, bar_index
-- 
2.43.0


From 8c8c5bcf30b9fef9db56807838b8fce1746c0f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 16/30] fix: read the untyped signature line of TA-lib
 docstrings

---
 mizarlabs/transformers/technical/factory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/technical/factory.py b/mizarlabs/transformers/technical/factory.py
index 6082354..f662f5a 100644
--- a/mizarlabs/transformers/technical/factory.py
+++ b/mizarlabs/transformers/technical/factory.py
@@ -52,7 +52,10 @@ class TAFactory:
         :rtype: Tuple[List[str]]
         """
         ta_func = self.get_ta_func(func_name)
-        signature = re.search(r"\((.+)\)", ta_func.__doc__).group(1)
+        # newer TA-lib versions put a typed signature before the readable one
+        signature = re.search(
+            rf"^{func_name}\((?!ndarray )(.+)\)", ta_func.__doc__, re.MULTILINE
+        ).group(1)
 
         args_kwargs_names = signature.split("[, ")
         if len(args_kwargs_names) == 1:
-- 
2.43.0


From 54a529767f86f7090d25c0a5d12e42582487f955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 17/30] fix: metalabels are produced when no event is resolved

---
 mizarlabs/transformers/targets/labeling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mizarlabs/transformers/targets/labeling.py b/mizarlabs/transformers/targets/labeling.py
index 2abb148..760fce4 100644
--- a/mizarlabs/transformers/targets/labeling.py
+++ b/mizarlabs/transformers/targets/labeling.py
@@ -415,6 +415,7 @@ def get_labels(
         # correct. When the base model does not take a position or the returns
         #  are 0 then the metalabel will be na
         output_df[RETURN] *= events_without_na[SIDE]
+        output_df[LABEL] = np.nan
         output_df.loc[output_df[RETURN] > 0, LABEL] = 1
         output_df.loc[output_df[RETURN] < 0, LABEL] = 0
         output_df.loc[output_df[RETURN] == 0, LABEL] = np.nan
-- 
2.43.0


From 7c6c68f7be6d6b4d40801e16c3d20f21cbddc576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 18/30] fix: size bets that start at the same time separately

---
 mizarlabs/transformers/trading/bet_sizing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mizarlabs/transformers/trading/bet_sizing.py b/mizarlabs/transformers/trading/bet_sizing.py
index 1f020d0..22f9981 100644
--- a/mizarlabs/transformers/trading/bet_sizing.py
+++ b/mizarlabs/transformers/trading/bet_sizing.py
@@ -120,12 +120,15 @@ class BetSizingFromProbabilities(BetSizingBase):
             ), "The side should be 1, -1 or 0"
 
             check_missing_columns(X, [self._side_column_name])
-            bet_sizing_signal *= X.loc[bet_sizing_signal.index, self._side_column_name]
+            bet_sizing_signal *= X[self._side_column_name]
 
         if self._average_active:
             bet_sizing_signal_with_barrier = bet_sizing_signal.to_frame(
                 self._bet_size_column_name
-            ).join(X[[self._event_end_time_column_name]], how="left")
+            )
+            bet_sizing_signal_with_barrier[self._event_end_time_column_name] = X[
+                self._event_end_time_column_name
+            ]
 
             bet_sizing_signal = avg_active_signals(
                 bet_sizing_signal_with_barrier,
-- 
2.43.0


From e34cc2db3a20d0776969134e99e5829d36294aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:14 +0000
Subject: [PATCH 19/30] fix: do not size metalabeled bets at times without a
 primary side

---
 mizarlabs/model/pipeline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 2c07d9a..0064c02 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -590,6 +590,8 @@ class StrategySignalPipeline:
                     self._primary_model_predictions
                 ]
                 pred_and_proba["side"] = predicted_side
+                # times at which the primary model has no features have no side
+                pred_and_proba = pred_and_proba.dropna(subset=["side"])
             size = self.bet_sizer.transform(pred_and_proba)
 
         else:
-- 
2.43.0


From 7342b5b209741b309f291f513135e168a883704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:46 +0000
Subject: [PATCH 20/30] fix: trend scanning accepts time zone aware series and
 lists of timestamps as events

---
 mizarlabs/transformers/targets/trend_scanning.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index 2946f32..5c79b8e 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -65,10 +65,11 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
             input_series, pd.Series
         ), "Please provide only a Pandas series with close prices with datetime indices."
         if self.t_events is not None:
-            assert set(input_series.index.values).issuperset(set(self.t_events)), (
+            missing_events = pd.Index(self.t_events).difference(input_series.index)
+            assert missing_events.empty, (
                 f"The following time indices are in t_events but "
                 f"not in the provided series "
-                f"{set(input_series.index.values) - set(self.t_events)}"
+                f"{set(missing_events)}"
             )
 
     def _check_output(self, output_df: pd.DataFrame):
@@ -78,9 +79,10 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
             output_df.columns
         ), f"Missing {set(required_columns) - set(output_df.columns)} in output DataFrame."
         if self.t_events is not None:
-            assert set(self.t_events) == set(
-                output_df.index.values
-            ), f"Missing following time indices in output DataFrame: {set(self.t_events) - set(output_df.index.values)}"
+            missing_events = pd.Index(self.t_events).difference(output_df.index)
+            assert (
+                missing_events.empty
+            ), f"Missing following time indices in output DataFrame: {set(missing_events)}"
 
     def transform(self, y: pd.Series) -> pd.DataFrame:
         """Scans for trends in the provided series and provides
@@ -118,7 +120,7 @@ class TrendScannerLabeling(BaseEstimator, TransformerMixin):
 
         # check if only subset of indices is looped over
         # else scan every index
-        t_events = y.index.values if self.t_events is None else self.t_events
+        t_events = y.index if self.t_events is None else pd.Index(self.t_events)
 
         # get t values and end indices per index
         t_values_array, end_indices_array = _trend_scan_each_index(
-- 
2.43.0


From 9f24bb2b44e986651ac3abc6aba9ecad5d906645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:13 +0000
Subject: [PATCH 21/30] fix: trend scanning finds no trend in a constant series

---
 mizarlabs/transformers/targets/trend_scanning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mizarlabs/transformers/targets/trend_scanning.py b/mizarlabs/transformers/targets/trend_scanning.py
index 5c79b8e..9e11206 100644
--- a/mizarlabs/transformers/targets/trend_scanning.py
+++ b/mizarlabs/transformers/targets/trend_scanning.py
@@ -243,6 +243,10 @@ def _get_t_val_and_event_end_time_index_at_index(
             y_subset[:forward_window].reshape(-1, 1)
         )
 
+        # a constant series has no trend, its residuals are rounding noise
+        if np.max(y_subset_forward_window) == np.min(y_subset_forward_window):
+            continue
+
         # Array of [1, 0], [1, 1], [1, 2], ... [1, l] # b_0, b_1 coefficients
         X_constant = np.ones_like(y_subset_forward_window, dtype=np.float64)
         X_trend = (
-- 
2.43.0


From 1d00f66ed89e2aae29d30a7c5ac04533057516a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:46 +0000
Subject: [PATCH 22/30] fix: SADF without lagged differences (lags=0)

---
 mizarlabs/structural_breaks/sadf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/structural_breaks/sadf.py b/mizarlabs/structural_breaks/sadf.py
index 774ea6c..2fe3979 100644
--- a/mizarlabs/structural_breaks/sadf.py
+++ b/mizarlabs/structural_breaks/sadf.py
@@ -254,7 +254,7 @@ def _lag_df(df: pd.DataFrame, lags: Union[int, list]) -> pd.DataFrame:
     :return: dataframe with features and lagged differenced y features
     :rtype: pd.DataFrame
     """
-    df_lagged = pd.DataFrame()
+    df_lagged = pd.DataFrame(index=df.index)
     if isinstance(lags, int):
         lags = range(1, lags + 1)
     else:
-- 
2.43.0


From 8ecd48480ad3d81e777a972569b24b4276c6d32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:00 +0000
Subject: [PATCH 23/30] fix: a window without residual variance does not abort
 the SADF run

---
 mizarlabs/structural_breaks/sadf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/structural_breaks/sadf.py b/mizarlabs/structural_breaks/sadf.py
index 2fe3979..653c3ef 100644
--- a/mizarlabs/structural_breaks/sadf.py
+++ b/mizarlabs/structural_breaks/sadf.py
@@ -88,7 +88,7 @@ class SupremumAugmentedDickeyFullerStatTest:
         return pd.Series(sadf_array, index=indices)
 
 
-@jit(parallel=False, nopython=True)
+@jit(parallel=False, nopython=True, error_model="numpy")
 def _get_sadf_at_t(
     X: np.ndarray, y: np.ndarray, min_length: int, model: str, phi: float
 ) -> np.float64:
-- 
2.43.0


From 79260f997d484f850d43cea0b93271cfbde2c30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:41 +0000
Subject: [PATCH 24/30] fix: VPIN of a history shorter than its window is
 undefined instead of raising

---
 mizarlabs/transformers/microstructural_features/vpin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/microstructural_features/vpin.py b/mizarlabs/transformers/microstructural_features/vpin.py
index 2abf729..d36b6e9 100644
--- a/mizarlabs/transformers/microstructural_features/vpin.py
+++ b/mizarlabs/transformers/microstructural_features/vpin.py
@@ -73,7 +73,8 @@ class VPIN(BaseEstimator, TransformerMixin):
 
         vpin_feature = diff_volume / total_volume_windowed_sum
 
-        vpin_feature.iloc[self.window :] = vpin_feature[self.window :].fillna(0)
+        is_after_warm_up = np.arange(len(vpin_feature)) >= self.window
+        vpin_feature[is_after_warm_up] = vpin_feature[is_after_warm_up].fillna(0)
 
         assert (
             ~vpin_feature[self.window :].isna().any()
-- 
2.43.0


From 3aa4be7f9f1dca126b541bab2b69a5d0145c7b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 25/30] fix: MizarFeatureUnion.fit_transform passes y to its
 members, as fit does

---
 mizarlabs/model/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/model/pipeline.py b/mizarlabs/model/pipeline.py
index 0064c02..cfac0a5 100644
--- a/mizarlabs/model/pipeline.py
+++ b/mizarlabs/model/pipeline.py
@@ -27,7 +27,7 @@ from mizarlabs.transformers.utils import check_missing_columns
 
 class MizarFeatureUnion(FeatureUnion):
     def fit_transform(self, X, y=None, **fit_params):
-        Xs = super().fit_transform(X, y=None, **fit_params)
+        Xs = super().fit_transform(X, y=y, **fit_params)
 
         return pd.DataFrame(Xs, index=X.index)
 
-- 
2.43.0


From 27929db7363889adcc15c0ee538dde08dfc401e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:23 +0000
Subject: [PATCH 26/30] fix: a window with collinear features does not abort
 the SADF run (or leave other statistics uninitialised)

---
 mizarlabs/structural_breaks/sadf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/structural_breaks/sadf.py b/mizarlabs/structural_breaks/sadf.py
index 653c3ef..8e0aedc 100644
--- a/mizarlabs/structural_breaks/sadf.py
+++ b/mizarlabs/structural_breaks/sadf.py
@@ -116,7 +116,12 @@ def _get_sadf_at_t(
         X_ = np.ascontiguousarray(X[start:])
         y_ = np.ascontiguousarray(y[start:])
 
-        b_mean_, b_var_ = get_beta_and_beta_var(X_, y_)
+        try:
+            b_mean_, b_var_ = get_beta_and_beta_var(X_, y_)
+        except Exception:
+            # collinear features: the window has no test statistic
+            adf_array[start] = -np.inf
+            continue
 
         current_adf = b_mean_[0, 0] / b_var_[0, 0] ** 0.5
 
-- 
2.43.0


From a8032926b109fb7e7c423ac1e1071f8a7f255de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 27/30] fix: event times within the same millisecond are told
 apart (barriers, sample weights, active bets)

---
 mizarlabs/transformers/targets/labeling.py | 13 ++++---------
 mizarlabs/transformers/utils.py            |  7 +++++--
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/mizarlabs/transformers/targets/labeling.py b/mizarlabs/transformers/targets/labeling.py
index 760fce4..255b71e 100644
--- a/mizarlabs/transformers/targets/labeling.py
+++ b/mizarlabs/transformers/targets/labeling.py
@@ -16,7 +16,6 @@ from mizarlabs.static import PROFIT_TAKING
 from mizarlabs.static import RETURN
 from mizarlabs.static import SIDE
 from mizarlabs.static import STOP_LOSS
-from mizarlabs.static import TIMESTAMP_UNIT
 from mizarlabs.transformers.utils import check_missing_columns
 from mizarlabs.transformers.utils import convert_to_timestamp
 
@@ -276,10 +275,10 @@ def triple_barrier_labeling(
     ).replace(0, np.nan)
 
     barriers_df.loc[:, STOP_LOSS] = pd.to_datetime(
-        stop_loss_barriers_timestamps, unit=TIMESTAMP_UNIT
+        stop_loss_barriers_timestamps, unit="ns"
     )
     barriers_df.loc[:, PROFIT_TAKING] = pd.to_datetime(
-        profit_taking_barriers_timestamps, unit=TIMESTAMP_UNIT
+        profit_taking_barriers_timestamps, unit="ns"
     )
 
     assert set(barriers_df.columns) == {EVENT_END_TIME, STOP_LOSS, PROFIT_TAKING}
@@ -316,12 +315,8 @@ def get_horizontal_barriers_hit(
     :rtype: Tuple[np.ndarray, np.ndarray]
     """
 
-    stop_loss_barriers_timestamps = np.zeros_like(
-        expiration_barrier_timestamps, dtype=np.float64
-    )
-    profit_taking_barriers_timestamps = np.zeros_like(
-        expiration_barrier_timestamps, dtype=np.float64
-    )
+    stop_loss_barriers_timestamps = np.zeros_like(expiration_barrier_timestamps)
+    profit_taking_barriers_timestamps = np.zeros_like(expiration_barrier_timestamps)
 
     for i in prange(len(index_timestamps)):
         # creating mask between the position taking date and expiration barrier
diff --git a/mizarlabs/transformers/utils.py b/mizarlabs/transformers/utils.py
index 8cbb704..3ffb494 100644
--- a/mizarlabs/transformers/utils.py
+++ b/mizarlabs/transformers/utils.py
@@ -16,7 +16,10 @@ def check_missing_columns(df, wanted_columns):
 
 def convert_to_timestamp(datetime_array: np.ndarray) -> np.ndarray:
     """
-    Convert a datetime array to timestamp in milliseconds.
+    Convert a datetime array to timestamp in nanoseconds.
+
+    The full resolution is kept, so that different times within the same
+    millisecond remain different.
 
     Nans are converted to negatives values
 
@@ -25,7 +28,7 @@ def convert_to_timestamp(datetime_array: np.ndarray) -> np.ndarray:
     :rtype: np.ndarray
     """
 
-    return datetime_array.astype(int) // 10 ** 6
+    return datetime_array.astype(np.int64)
 
 
 class IdentityTransformer(TransformerMixin, BaseEstimator):
-- 
2.43.0


From c4ed9efa923fc9407d6de4d9503e2fd5bf9e0e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:12 +0000
Subject: [PATCH 28/30] fix: triple barrier labelling accepts time zone aware
 bars

---
 mizarlabs/transformers/targets/labeling.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mizarlabs/transformers/targets/labeling.py b/mizarlabs/transformers/targets/labeling.py
index 255b71e..c2abd1b 100644
--- a/mizarlabs/transformers/targets/labeling.py
+++ b/mizarlabs/transformers/targets/labeling.py
@@ -154,6 +154,11 @@ class TripleBarrierMethodLabeling(BaseLabeling):
         :return: Dataframe containing labeled target
         :rtype: pd.DataFrame
         """
+        # the barriers are computed on UTC times
+        time_zone = y.index.tz
+        if time_zone is not None:
+            y = y.set_axis(y.index.tz_convert(None))
+
         barriers_info_df = pd.DataFrame(index=y.index)
 
         barriers_info_df[EVENT_END_TIME] = (
@@ -201,6 +206,12 @@ class TripleBarrierMethodLabeling(BaseLabeling):
         output_df.loc[output_df[DAILY_VOL].isna(), EVENT_END_TIME] = pd.NaT
         output_df.loc[output_df[DAILY_VOL].isna(), RETURN] = np.nan
         output_df.loc[output_df[DAILY_VOL].isna(), LABEL] = np.nan
+
+        if time_zone is not None:
+            output_df.index = output_df.index.tz_localize("UTC").tz_convert(time_zone)
+            output_df[EVENT_END_TIME] = (
+                output_df[EVENT_END_TIME].dt.tz_localize("UTC").dt.tz_convert(time_zone)
+            )
         return output_df
 
 
-- 
2.43.0


From 3f47a78911943a0587d44d0bae8afa8106a10dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 29/30] fix: averaged active bets keep the time zone of the
 signals

---
 mizarlabs/transformers/trading/bet_sizing.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mizarlabs/transformers/trading/bet_sizing.py b/mizarlabs/transformers/trading/bet_sizing.py
index 22f9981..d715acf 100644
--- a/mizarlabs/transformers/trading/bet_sizing.py
+++ b/mizarlabs/transformers/trading/bet_sizing.py
@@ -179,8 +179,14 @@ def avg_active_signals(
         convert_to_timestamp(signals[event_end_time_column_name].values),
     )
 
+    avg_active_bet_size_index = pd.DatetimeIndex(active_bet_size_time_indices)
+    if signals.index.tz is not None:
+        avg_active_bet_size_index = avg_active_bet_size_index.tz_localize(
+            "UTC"
+        ).tz_convert(signals.index.tz)
+
     avg_active_bet_size = pd.Series(
-        avg_active_bet_size_list, index=active_bet_size_time_indices, dtype=float
+        avg_active_bet_size_list, index=avg_active_bet_size_index, dtype=float
     )
 
     return avg_active_bet_size
-- 
2.43.0


From 5b2ffd163c457e541541c00a3a7fcfb8dfab63c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:22 +0000
Subject: [PATCH 30/30] fix: Chow statistics keep the time zone of the series

---
 mizarlabs/structural_breaks/sdfc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mizarlabs/structural_breaks/sdfc.py b/mizarlabs/structural_breaks/sdfc.py
index 115936f..a95bc87 100644
--- a/mizarlabs/structural_breaks/sdfc.py
+++ b/mizarlabs/structural_breaks/sdfc.py
@@ -87,7 +87,7 @@ class SupremumDickeyFullerChowStatTest:
         )
         return pd.Series(
             dfc_array,
-            index=series_to_test.index.values[
+            index=series_to_test.index[
                 self.min_num_samples : series_to_test.shape[0] - self.min_num_samples
             ],
         )
-- 
2.43.0

