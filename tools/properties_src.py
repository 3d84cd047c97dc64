"""Single source for properties.jsonl (run tools/gen.py)."""
LAB = "mizarlabs/transformers/targets/labeling.py"
TS = "mizarlabs/transformers/targets/trend_scanning.py"
BOOT = "mizarlabs/model/bootstrapping.py"
BAG = "mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py"
MS = "mizarlabs/model/model_selection.py"
PIPE = "mizarlabs/model/pipeline.py"
BET = "mizarlabs/transformers/trading/bet_sizing.py"
SW = "mizarlabs/transformers/sample_weights/__init__.py"
DS = "mizarlabs/transformers/sampling/down_sampling.py"
AU = "mizarlabs/transformers/sampling/average_uniqueness.py"
MA = "mizarlabs/transformers/technical/moving_average.py"
MR = "mizarlabs/transformers/technical/mean_reversion.py"
RSI = "mizarlabs/transformers/technical/rsi.py"
MACD = "mizarlabs/transformers/technical/macd.py"
FAC = "mizarlabs/transformers/technical/factory.py"
VOL = "mizarlabs/transformers/technical/volume.py"
Z = "mizarlabs/transformers/features/rolling_z_score.py"
CUST = "mizarlabs/transformers/features/custom.py"
FG = "mizarlabs/transformers/microstructural_features/first_generation.py"
SG = "mizarlabs/transformers/microstructural_features/second_generation.py"
VPIN = "mizarlabs/transformers/microstructural_features/vpin.py"
SADF = "mizarlabs/structural_breaks/sadf.py"
SDFC = "mizarlabs/structural_breaks/sdfc.py"
CSW = "mizarlabs/structural_breaks/cusum_chu_stinchcome_white.py"

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))


p("C01", "A triple-barrier event ends at the first barrier the price path touches",
  "For every bar, the event end time produced by triple-barrier labelling is the earliest of: the first following bar, before the vertical barrier, whose side-signed return since the event bar is strictly above profit_taking_factor x volatility, the first whose side-signed return is strictly below -stop_loss_factor x volatility, and the vertical barrier itself, which is the bar exactly num_expiration_bars bars later. "
  "A factor of 0 disables that barrier, switching volatility adjustment off makes the volatility 1, and the side is read from the (configurable) side column when the input has one (a bar whose side is undefined touches no horizontal barrier) and is +1 otherwise. "
  "An event whose vertical barrier lies beyond the data is searched strictly before the last bar and has no end time when nothing is touched there; an event without a defined volatility has no end time.",
  ["inputs", "configurations"],
  "every close path, every set of (irregular, strictly increasing, millisecond) timestamps, sides in {-1,0,1}, factors, expiration lengths and column names",
  "The tests run one price file through fixed factors and compare to a stored frame; which barrier wins depends on the whole path after each event, on ties, gaps and the edge of the data, which only an enumeration over paths reaches.",
  [LAB], [("vectorised first-touch search per event", LAB + ": get_horizontal_barriers_hit"),
          ("vertical barrier shift and row-wise minimum", LAB + ": TripleBarrierMethodLabeling._transform")],
  [("event end time", "label horizon per bar", "event_end_time column")],
  ["TripleBarrierMethodLabeling.transform"])

p("C02", "Labels and volatility never change when later bars arrive, and look only back",
  "The volatility estimate at a bar is the exponentially weighted standard deviation (the given span) of the returns of the bars up to it, each return taken against the last bar strictly earlier than 24 hours before; it is undefined until two such returns exist. "
  "It depends on no later bar, and once an event has an end time, appending further bars never changes that event's end time, return, label or volatility. "
  "Labelling any prefix of a history therefore agrees with labelling the full history on every event the prefix resolves.",
  ["inputs", "histories"],
  "every bar history, every way of extending it, every span and bar spacing (including gaps over a day and bars exactly a day apart)",
  "Look-ahead is a relation between two runs on a history and its extensions; the tests only ever label one fixed file once.",
  [LAB], [("daily reference bar lookup and ewm std", LAB + ": get_daily_vol"),
          ("barrier search bounded by the vertical barrier", LAB + ": get_horizontal_barriers_hit")],
  [("daily volatility", "per-bar estimate", "daily_vol column")],
  ["get_daily_vol", "TripleBarrierMethodLabeling.transform"])

p("C03", "Triple-barrier returns, labels and meta-labels agree with the event's end",
  "For each resolved event the reported return is close at the end time over close at the event minus 1 and the label its sign; with meta-labelling the return is multiplied by the side and the label is 1 when positive, 0 when negative and undefined when zero. "
  "With expiration labelling, exactly the events that ended at the vertical barrier without any horizontal touch get label 0. "
  "Unresolved events carry neither return nor label, and the output has one row per input bar, in input order, with the input left unmodified.",
  ["inputs", "configurations"],
  "every close path, side sequence and labelling configuration",
  "Tests check label sets and some shapes on one data set; the sign/zero/expiry/side combinations and the bars at the data edge are not covered.",
  [LAB], [("labels from end prices", LAB + ": get_labels")],
  [("label", "per event class", "label column"), ("return", "per event return", "return column")],
  ["TripleBarrierMethodLabeling.transform"])

p("C04", "Trend scanning picks the horizon with the strongest trend for every event",
  "For an event with at least look_forward_window bars ahead (itself included), trend scanning reports the t-value of the OLS slope on the horizon of largest absolute t-value among the lengths min_sample_length, min_sample_length+step, ... below look_forward_window (the first one on ties), the last bar of that horizon as end time, the return to that bar and the sign of the t-value as label. "
  "Other events get undefined values. "
  "Each event's result depends only on the look_forward_window bars starting at it: not on which other events are scanned, on the number of threads, on bars outside the window, or on earlier use of the same scanner object, and a window with no residual variance does not abort the scan.",
  ["inputs", "configurations", "histories"],
  "every series, event subset, min_sample_length < look_forward_window, step >= 1, and sequence of calls on one scanner",
  "Tests use step 1 on a few smooth series and one call per object; other steps, subsets, object reuse and window independence are not exercised.",
  [TS, SDFC], [("per-event scan", TS + ": _trend_scan_each_index"),
               ("argmax of |t|", TS + ": _get_t_val_and_event_end_time_index_at_index")],
  [("t_events", "events to scan", "TrendScannerLabeling.t_events")],
  ["TrendScannerLabeling.transform"])

p("C05", "The CUSUM filter samples exactly when a one-sided drift exceeds the threshold",
  "Reading the series once, the filter keeps an upward and a downward cumulative sum of the differences, each floored/capped at zero, and selects a time exactly when the downward sum falls strictly below -threshold, resetting only that sum, or else when the upward sum rises strictly above the threshold, resetting only that one. "
  "The selected times are a strictly increasing subset of the index, never contain the first bar, and for any prefix of the series equal the selection restricted to that prefix.",
  ["inputs", "histories"],
  "every series and threshold",
  "The one test compares the number of events on one file; the two coupled accumulators and their resets form a state machine over the whole history.",
  [DS], [("two-sided accumulator loop", DS + ": CUSUMFilter.transform")],
  [("pos/neg sums", "accumulated drift", "pos_threshold, neg_threshold")], ["CUSUMFilter.transform"])

p("C06", "Concurrency and average uniqueness count every event on exactly its bars",
  "The indicator matrix has a 1 for an event on exactly the bars from its start to its end time inclusive, over the sorted distinct union of event starts, ends and the price bars lying between the first start and the last end. "
  "An event's average uniqueness is the mean over its bars of one over the number of events active there, so it lies in (0,1] and is 1 exactly for an event that overlaps no other. "
  "This holds for any number of events, including one or all fully overlapping, with end times that need not be bars, and the input is not modified.",
  ["inputs"], "every set of events (start, end) over every bar index",
  "Tests use one small example and one data file; overlap structure (nested, touching, single, off-bar ends) is combinatorial.",
  [BOOT, AU], [("indicator matrix construction", BOOT + ": get_ind_matrix"),
               ("average uniqueness", BOOT + ": calc_average_uniqueness")],
  [("indicator matrix", "bars x events", "ind_mat")], ["get_ind_matrix", "AverageUniqueness.transform"])

p("C07", "Sample weights attribute each bar's return once and decay oldest first",
  "The return-based weight of an event is the absolute value of the sum, over the input bars from its start to its end inclusive, of the bar's log return divided by the number of events active on that bar, a bar without a return contributing nothing. "
  "The time-decay weight is the linear function of cumulative average uniqueness in time order that is 1 at the latest event, reaches minimum_decay_weight at zero cumulated uniqueness when that minimum is non-negative, and otherwise is zero on the oldest -minimum fraction; it is never negative and never decreases with time. "
  "A minimum of 1 gives every event weight 1.",
  ["inputs", "configurations"], "every event set, close path and decay parameter in (-1, 1]",
  "Tests check one stored output and a few inequalities; concurrency-dependent sums and the negative-decay branch depend on the whole overlap structure.",
  [SW, AU, BOOT], [("return weights", SW + ": SampleWeightsByReturns._calculate_weights"),
                   ("time decay", SW + ": SampleWeightsByTimeDecay.transform")],
  (), ["SampleWeightsByReturns.transform", "SampleWeightsByTimeDecay.transform"])

p("C08", "Every sequential-bootstrap draw uses the exact average-uniqueness odds",
  "Each batch of update_probs_every draws picks an event with probability proportional to its average uniqueness given the events drawn in all earlier batches: the mean over its bars of 1/(1 + number of earlier draws, with multiplicity, active on that bar); the first batch is uniform. "
  "The result has exactly the requested number of draws (default: the number of events), each a valid event position, and is a function of the matrix and the random state only. "
  "The matrix passed in is unchanged.",
  ["inputs", "histories", "configurations"], "every indicator matrix, every history of draws, every batch size and sample length",
  "Tests compare frequencies loosely on one matrix; the incremental probability update must equal a recomputation from scratch after every possible draw history.",
  [BOOT], [("incremental probability update", BOOT + ": _calc_update_avg_unique, seq_bootstrap")],
  [("draw history", "bootstrapped events so far", "bootstrapped_samples"), ("avg_unique", "current odds", "avg_unique/prob")],
  ["seq_bootstrap"])

p("C09", "Bagging fits each member on exactly its own sequential bootstrap, reproducibly",
  "Each fitted member of the ensemble is trained on exactly the multiset of rows its sequential bootstrap drew from the indicator columns of the training rows (with the given sample weights) and on its drawn features, and the reported in-bag samples and features are those. "
  "For a fixed random_state the ensemble is the same for every n_jobs, and growing it with warm start gives the same members as fitting it at full size at once; earlier members are never refitted or reordered. "
  "The out-of-bag decision for a row averages only members whose bootstrap did not contain it, and the out-of-bag score is the accuracy of that decision.",
  ["inputs", "configurations", "histories", "schedules"],
  "every training subset, seed, max_samples/max_features, sample weights, batch size, n_jobs and sequence of warm-start fits",
  "Tests fit a few ensembles and look at scores; member-by-member agreement across histories of fits and job partitions is not compared.",
  [BAG, BOOT], [("seed partition and member construction", BAG + ": _fit, _parallel_build_estimators"),
                ("out-of-bag masking", BAG + ": _set_oob_score")],
  [("estimators_", "members", "estimators_"), ("sequentially_bootstrapped_samples_", "in-bag rows", BAG)],
  ["fit", "estimators_samples_", "oob_decision_function_"])

p("C10", "Combinatorial purged CV never lets information leak from test to train",
  "For every split, no training sample's [prediction, evaluation] interval intersects the interval of any test sample, and no training sample lying after a block of adjacent test folds has its prediction time at or before the latest evaluation time of the test samples up to that block's end plus the embargo. "
  "Train and test positions never overlap. "
  "This holds for any evaluation times at or after the prediction times, monotone or not, and for test blocks anywhere, including at the end of the data.",
  ["inputs", "configurations"], "every non-decreasing prediction-time sequence, evaluation times, n_groups, n_test_splits and embargo",
  "Tests use evenly spaced samples with constant horizons; leakage appears for particular combinations of test folds, horizons and embargo.",
  [MS], [("purge", MS + ": purge"), ("embargo", MS + ": embargo"), ("block merging", MS + ": _compute_test_set")],
  [("train_indices", "training positions", MS)], ["CombPurgedKFoldCV.split"])

p("C11", "CPCV uses every fold combination, drops only what it must, and builds full paths",
  "The splits are exactly all combinations of n_test_splits among n_groups contiguous, order-preserving folds whose sizes differ by at most one, the first split having its test folds at the end; each split's test set is the union of its folds. "
  "A sample outside the test set is dropped from training only if it conflicts with the test blocks: before a block and evaluated at or after that block's first prediction time, or after a block and inside the embargo period. "
  "The backtest-path builder returns C(n_groups-1, n_test_splits-1) paths, each containing every sample exactly once with a prediction made by a model for which that sample was in the test set, and each fold-level prediction is used in exactly one path.",
  ["inputs", "configurations"], "every data length, n_groups, n_test_splits, horizons, embargo and model",
  "Tests check counts for some configurations; maximality and the path partition are quantified over all combinations.",
  [MS], [("fold bounds and combinations", MS + ": _test_fold_bounds"),
         ("path assembly", MS + ": combinatorial_cross_validation_paths")],
  (), ["CombPurgedKFoldCV.split", "combinatorial_cross_validation_paths", "compute_back_test_paths"])

p("C12", "Multi-frequency features are aligned using only rows already known",
  "When features of several frequencies are aligned on a leading frame, the row at leading time T of another frame is the mean, minimum or maximum (as configured for it) of exactly its rows later than the last leading time that had rows of it and not later than T, all earlier rows for the first one; a leading time with no new rows repeats the previous aligned row, and leading times before the first row stay undefined. "
  "The leading frame passes through unchanged, and no aligned value depends on a row later than its leading time. "
  "Primary and meta-label features are aligned by the same rule, and the caller's frames are not modified.",
  ["inputs", "configurations"], "every pair of time indices (any relative frequency, gaps, coincident stamps), frame contents and aggregation choice",
  "Tests align one dollar-bar/tick fixture; the interleavings of two clocks are combinatorial.",
  [PIPE], [("two-clock alignment loop", PIPE + ": StrategySignalPipeline._align_on")],
  [("previous_index", "last leading time that consumed rows", PIPE)],
  ["StrategySignalPipeline.create_dataset_primary", "StrategySignalPipeline.predict"])

p("C13", "Strategy side and size come from the right model on the right rows",
  "The side at a time is the primary model's prediction for that row, and the size is: without bet sizer and meta-model the largest primary probability; without bet sizer but with a meta-model the meta-model's probability of class 1; with a bet sizer the sizer applied to the winning class and its probability of the meta-model if present (with the primary side), else of the primary model. "
  "The meta-model sees its own features plus, as configured, the primary prediction and the primary class probabilities of the same rows; rows with undefined features of a model are dropped and never shifted onto other times. "
  "Training sets pair every feature row with the target of the same time, and meta-labels are 1 exactly where the primary prediction equals the target.",
  ["inputs", "configurations"], "every set of frames with different warm-ups, model outputs, flags and bet sizers",
  "Tests fit a handful of pipelines and compare lengths; row/time pairing across frames with different missing rows needs all combinations.",
  [PIPE, BET], [("signal composition", PIPE + ": get_side_and_size"),
                ("meta features", PIPE + ": _get_features_for_metalabeling"),
                ("dataset alignment", PIPE + ": _align_X_dict_and_y")],
  (), ["get_side_and_size", "predict", "predict_proba", "create_dataset_primary", "create_dataset_metalabeling"])

p("C14", "A trader's positions carry the right barriers and leave the caller's data alone",
  "The position frame has, for every bar of the leading frame, stop_loss and profit_taking equal to the volatility (1 when not volatility adjusted) times the respective factor and the configured number of expiration bars, joined with side and size at exactly the signal's times. "
  "Creating signals, bars or positions never modifies the caller's frames, so repeating a call gives the same result; frames with duplicated times are rejected, and the strategy is flagged valid exactly when all sizes are in [0,1] and all sides in [-1,1], as of the latest signal. "
  "When a closing-positions model is set it is consulted with the caller's data and its answer, one of all/long/short/none, is returned, any other answer being an error; without one the answer is none.",
  ["inputs", "histories", "configurations"], "every input, factor configuration and sequence of trader calls",
  "Tests call each method once; side effects on the caller's data, the flag after a sequence of signals and the closing model path are histories.",
  [PIPE, LAB], [("position assembly", PIPE + ": StrategyTrader.create_position"),
                ("closing model", PIPE + ": determine_positions_to_close")],
  [("strategy_valid", "latest validity", PIPE)], ["StrategyTrader.*", "StrategySignalPipeline.determine_positions_to_close"])

p("C15", "Bet sizes are bounded, monotone in confidence, and discretised to the grid",
  "The bet size is |prediction x (2*Phi(z)-1) x side|, z=(p-1/K)/sqrt(p(1-p)): it lies in [0,1], is 0 at p=1/K, increases with |z|, ignores the sign of prediction and side, and is 0 when the prediction or (meta-labelling) the side is 0. "
  "With discretisation the result is the nearest multiple of step_size (rounded to three decimals, capped at 1). "
  "Rows keep their times, column names are as configured, and the input is not modified.",
  ["inputs", "configurations"], "every probability, prediction, side, number of classes, step size and option combination",
  "Tests cover sampled data with few option combinations; the options compose and the grid has boundary cases.",
  [BET], [("sizing formula", BET + ": BetSizingFromProbabilities._transform"), ("discretisation", BET + ": discretise_signal")],
  (), ["BetSizingFromProbabilities.transform", "discretise_signal"])

p("C16", "Averaging active bets uses exactly the bets open at each time",
  "With averaging, the signal at each time at which a bet starts or ends is the mean of the signed sizes of the bets that have started at or before that time and end strictly after it, a bet without end time staying open forever, and 0 when none is open. "
  "The output has one row per distinct start or end time in increasing order, and depends neither on the order of the bets nor on the number of threads.",
  ["inputs"], "every set of bets with starts, ends (possibly missing) and sizes",
  "Tests compare one stored output; open/close interleavings are combinatorial.",
  [BET], [("active average", BET + ": avg_active_signals, _get_avg_active_signals")],
  [("active set", "open bets at a time", "mask")], ["avg_active_signals", "BetSizingFromProbabilities.transform"])

p("C17", "The moving-average crossover signal fires on crossings and holds between them",
  "The signal is +1 exactly at a bar where the fast moving average is above the slow one after having been at or below it on the bar before, -1 exactly where it is below after having been at or above, and 0 elsewhere; with filling it instead keeps the last crossing's value, being 0 before the first crossing. "
  "It is undefined-free, needs both averages on both bars, and depends only on bars up to the current one. "
  "The predictor form returns the same signal, and its class probabilities are 1 for the predicted class and 0 for the others.",
  ["inputs", "histories", "configurations"], "every series, fast and slow windows (a fast one longer than the slow one is refused) and fill option",
  "Tests check a few hand-made series; equality phases and warm-up edges form a state machine over histories.",
  [MA], [("cross detection and forward fill", MA + ": MovingAverageCrossOver")],
  [("side", "held crossing", "side series")], ["MovingAverageCrossOver.transform", "MovingAverageCrossOverPredictor"])

p("C18", "Rule-based strategies signal exactly when their rule holds on past bars",
  "Mean reversion predicts -1 when the close exceeds its EMA by strictly more than the relative threshold, +1 when it is below by strictly more, else 0; RSI confirmation predicts 1 exactly when the RSI was below its threshold on each of the last confirmation-period bars and its moving average increased; the bar-arrival strategy predicts 1 exactly when RSI and normalised arrival-speed difference both lie strictly inside their bands. "
  "The MACD histogram feature is half the change of the histogram's sign. "
  "Bars in any warm-up give 0 (or undefined for MACD), predictions depend only on bars up to the current one, and class probabilities are one-hot on the predicted class.",
  ["inputs", "histories", "configurations"], "every price path, threshold and period configuration",
  "Tests run each strategy once or twice on one file and look at value sets.",
  [MR, RSI, MACD], [("mean reversion rule", MR), ("RSI rules", RSI), ("MACD sign change", MACD)],
  (), ["predict", "predict_proba", "transform"])

p("C19", "Windowed market features use exactly the last bars of their window",
  "Each windowed feature (Roll measure and impact, Parkinson, Corwin-Schultz, Beckers-Parkinson, Kyle, Amihud and Hasbrouck lambdas, VPIN, rolling z-scores, local-maximum ratio) at a bar equals its published formula evaluated on exactly the window of bars ending there, and is undefined before the window is full, VPIN being 0 after its first full window when no volume traded. "
  "Exponential features (buy/sell imbalance, EWMA difference) equal their formula over all bars so far. "
  "Negative Corwin-Schultz and Beckers estimates are floored at 0, and configured column names are the ones read.",
  ["inputs", "configurations"], "every bar history, window length and column naming",
  "Tests compare against stored outputs for one window on one file.",
  [FG, SG, VPIN, Z, CUST, VOL, MA], [("rolling computations", FG), ("second generation", SG), ("VPIN", VPIN), ("z-scores", Z)],
  (), ["transform of each feature"])

p("C20", "Structural-break statistics are suprema over exactly the documented windows",
  "SADF at t is the supremum, over every window ending at t with at least min_length observations, of the ADF t-statistic for the chosen model and lags (a count or a list); for sub/super-martingale models it is the supremum of |t-statistic| divided by (window length - 1) to the power phi. "
  "Chu-Stinchcombe-White reports at each t the supremum over n<t of the (one- or two-sided) standardised departure and the critical value belonging to the maximising n; the Chow statistic at each break is the t-statistic of the lagged level after the break. "
  "Each statistic is indexed by its own time, uses no later observation (except the Chow test, which uses the full sample), and does not depend on the number of threads.",
  ["inputs", "configurations", "schedules"], "every series, model, lag set, min_length, phi, side and minimum sample size",
  "Tests compare one run per model to stored values; window enumeration, penalty, alignment and lag lists are not varied.",
  [SADF, SDFC, CSW], [("window supremum", SADF + ": _get_sadf_at_t, _sadf_outer_loop"),
                      ("CSW supremum", CSW + ": get_test_statistics_array"), ("Chow", SDFC + ": get_dfc_array")],
  (), ["SupremumAugmentedDickeyFullerStatTest.run", "ChuStinchcombeWhiteStatTest.run", "SupremumDickeyFullerChowStatTest.run"])

p("C21", "Transformers are pure: no side effects, repeatable, row-aligned, causal",
  "Every feature, technical, sampling and weighting transformer and rule-based predictor leaves its input unmodified and gives the same answer when called again, in any order, on the same or other data: no state leaks from one call to the next. "
  "Feature transformers and predictors return one row per input row in order, and their output on a prefix of the data equals the prefix of their output. "
  "The output does not depend on columns they do not use.",
  ["histories", "inputs"], "every sequence of transformer calls over every set of inputs and every prefix",
  "Tests call each transformer once per object on the full data; purity and causality relate several calls.",
  [FG, SG, VPIN, Z, CUST, VOL, MA, MR, RSI, MACD, FAC, DS, AU, SW, LAB, TS, BET], [("stateless transforms", "all transformers")],
  [("object state", "attributes surviving a call", "each transformer")], ["transform/predict of each"])

p("C22", "The TA factory binds columns and keyword arguments to the right parameters",
  "For every available technical-analysis function, the transformer built by the factory computes that function on exactly the columns requested, in the function's parameter order (the single series, the pair of series, or named price columns after renaming), with exactly the keyword arguments given and the function's defaults otherwise. "
  "The result is always two-dimensional with one row per input row and one column per output, in order. "
  "Missing columns, unknown functions, unknown or superfluous keyword arguments and invalid renamings are rejected with an error, and building one transformer never affects another.",
  ["inputs", "configurations", "histories"], "every function of the library, column mapping, keyword subset and sequence of factory calls",
  "Tests check a few functions and error cases; the product of functions, mappings and keywords is not covered.",
  [FAC], [("signature parsing", FAC + ": get_args_kwargs"), ("argument binding", FAC + ": _check_and_set_args"),
          ("keyword check", FAC + ": _check_and_set_kwargs")],
  (), ["TAFactory.create_transformer", "TAFactory.get_args_kwargs"])

p("C23", "Feature unions and pipelines compose their members; weights reach the estimator",
  "A feature union answers with a frame holding one row per input row under the input's index and the columns of its members' answers side by side in their order, each member fitted on the rows (and targets) given to the union; fitting and transforming in one call is the same as fitting and then transforming. "
  "A pipeline fits every step on the previous steps' output and hands sample weights, together with the rows and targets in their order, to its final estimator and to it alone: an unweighted fit passes none, and a refit keeps nothing of the one before. "
  "Transforming and predicting learn nothing, and inputs are left unmodified.",
  ["configurations", "histories", "inputs"], "every composition of members, every sequence of fit, transform and predict calls, with and without weights, and every index",
  "Tests use a union of one kind of stateless member and never pass weights through a pipeline.",
  [PIPE], [("union under the index", PIPE + ": MizarFeatureUnion"), ("weight routing", PIPE + ": MizarPipeline.fit")],
  [("fitted members", "what members learned in the last fit", "MizarFeatureUnion, MizarPipeline")], ["fit", "fit_transform", "transform", "predict"])

p("C24", "Requests outside an operation's domain are refused, and refusals leave no trace",
  "Every operation refuses, with an error instead of an answer, what it cannot do, and answers what it can. Refused are: bagging fits on inputs other than a frame and a series under the known bar times, with sample counts or shares that select no row or more rows than there are, feature counts or shares outside the features, fewer members than a warm-started ensemble has, an out-of-bag score with warm start, or sample weights a member cannot take; "
  "events without an end, uniqueness or decay of repeated event times, and a decay factor above one; cross-validators without series of times, with a test group count outside 1..groups-1 or an embargo that is negative or no duration; meta-labelling without a side, and barrier labelling with two negative factors; trend windows no longer than their minimum and events outside the series; strategies given other data sets than configured, targets other than -1, 0 and 1, an unfitted meta-model, data sets that begin after another ends, or undefined probabilities as meta-features; "
  "traders' data with repeated times, and unknown closing decisions; bet sizes outside -1..1, undefined probabilities or ones outside 0..1, sides other than -1, 0 and 1, step sizes outside (0, 1) and missing event ends when averaging; SADF weights outside 0..1, minimum lengths not above the longest lag, unknown models and inputs whose logarithm or square is undefined; unknown side tests; fast periods above slow ones; unknown volume kinds and features; and any missing required column. "
  "A refusal changes nothing: the caller's data stay as they were, and later answers of the same object are those it would have given without the refused requests (only an ensemble that starts afresh at every fit may have given up its members).",
  ["inputs", "configurations", "histories"], "every combination of admissible and inadmissible settings and inputs, and every sequence of refused and answered requests to one object",
  "Tests try a few wrong arguments one at a time on new objects; boundaries of the domains, combinations, and what an object answers after a refusal are not covered.",
  [BAG, BOOT, MS, PIPE, LAB, TS, BET, SADF, CSW, AU, SW, VOL, MA, MACD, Z], [("size checks", BAG + ": _fit"), ("input checks", "_check_input, check_missing_columns, constructors")],
  [("grown members", "members kept by a warm-started ensemble", BAG)], ["constructors", "fit", "transform", "predict", "run", "split", "create_position"])

p("C25", "End to end, each stage of the research flow works on what the one before decided",
  "Sampling a price series with the CUSUM filter, taking sides from moving-average crossings (directly or through a strategy's primary model), labelling the sampled bars against the triple barrier with those sides, and handing the events that have a label on to the indicator matrix, the bootstrapped ensemble, average uniqueness, the return and time-decay weights, the purged cross-validation splits and the averaging of bets gives at every stage exactly what that stage's rule gives for the events of the stages before: "
  "events start on sampled bars and end on a bar of the data within the horizon; an event won has moved to its side; no training and test event of a split read a common bar; an event is unique exactly when no other event shares a bar with it; a bet is open on exactly the bars from its event's start up to, not including, its end. Times, time zones and row order survive every hand-over, the price unit and the column names do not matter, no stage changes the frames it is handed, and what the first bars decided is the same in any longer series.",
  ["inputs", "configurations", "histories"], "every price path, every choice of thresholds, barriers, windows and folds, every kind of time index",
  "Tests exercise one component at a time on its own fixture; whether the answers of one are sound inputs of the next is not covered.",
  [DS, LAB, MA, BOOT, BAG, AU, SW, MS, BET, PIPE], [("flow", "the components chained on one frame")], [("events", "starts, ends, labels and sides carried from stage to stage", LAB)],
  ["CUSUMFilter.transform", "TripleBarrierMethodLabeling.transform", "get_ind_matrix", "AverageUniqueness.transform", "SampleWeightsByReturns.transform", "CombPurgedKFoldCV.split", "avg_active_signals"])

p("C26", "Log-uniform search draws spread evenly over the logarithm of their range",
  "A log-uniform distribution over [a, b] (from 1 to e where an end is not given) gives every part of its range the probability of its share of the logarithm: the distribution function at x is log(x/a)/log(b/a), zero below and one above the range, its survival function the complement, and its percentiles the inverse; equal ratios are equally likely, whatever the unit. "
  "Draws lie within the range, as many as asked for, follow that distribution, and are decided by the given random state alone: the same state gives the same draws from the same, an equal or a copied distribution, whatever was asked before, also through scikit-learn's samplers. Distributions over different ranges never affect one another.",
  ["inputs", "histories"], "every range, every question about every place, and every sequence of distributions, questions and draws",
  "No test covers the distribution; evenness is a statement about every ratio and every random state.",
  [MS], [("distribution function", MS + ": LogUniformGen._cdf"), ("range and defaults", MS + ": log_uniform")],
  [("range", "the ends a and b", MS + ": LogUniformGen")], ["log_uniform", "cdf", "sf", "ppf", "rvs"])
