"""C24: requests outside an operation's domain are refused, and refusals leave no trace."""
import hashlib
import pickle
import warnings

import numpy as np
import pandas as pd

N, F = 8, 3
T0 = pd.Timestamp("2021-01-01")
IDX = pd.date_range(T0, periods=N, freq="H")


def digest(x):
    """A name for an answer, equal for equal answers."""
    def flat(v):
        if isinstance(v, pd.DataFrame):
            return ["df", [str(c) for c in v.columns], [str(i) for i in v.index], [flat(v.iloc[:, j].values) for j in range(v.shape[1])]]
        if isinstance(v, (pd.Series, pd.Index)):
            return ["s", [str(i) for i in v.index] if isinstance(v, pd.Series) else "", flat(v.values)]
        if isinstance(v, np.ndarray):
            return [flat(e) for e in v.tolist()]
        if isinstance(v, dict):
            return [[str(k), flat(e)] for k, e in v.items()]
        if isinstance(v, (list, tuple)):
            return [flat(e) for e in v]
        if isinstance(v, float):
            return "nan" if v != v else "%.9g" % v
        return str(v)
    return hashlib.md5(repr(flat(x)).encode()).hexdigest()[:12]


def val(s):
    return {"int": lambda: s["n"], "share": lambda: s["n"] / s["d"], "text": lambda: "all"}[s["k"]]()


# --------------------------------------------------------------- what each kind of object is and is asked
# make(ctor) -> object; ask(object, ctor, q) -> (data handed over, function giving the answer)
def bag_make(c):
    from mizarlabs.model.sequentially_bootstrapped_bagging_classifier import SequentiallyBootstrappedBaggingClassifier as B
    from .c09 import SpyR, SpyW
    known = pd.date_range(T0, periods=N + 3, freq="H")      # more events than any fit is given
    info = pd.Series(known + pd.Timedelta("2H"), index=known, name="event_end_time")
    bars = pd.DataFrame({"close": 1.0}, index=pd.date_range(T0, periods=N + 6, freq="H"))
    return B(info, bars, base_estimator=(SpyW if c["takes"] else SpyR)(2), max_samples=val(c["ms"]), max_features=val(c["mf"]),
             oob_score=c["oob"], warm_start=c["warm"], random_state=7)


def bag_ask(o, c, q):
    idx = IDX if q["known"] else IDX[:-1].append(pd.DatetimeIndex([T0 + pd.Timedelta("100D")]))
    a = np.arange(N)[:, None] * 64.0 + np.arange(F)[None, :]
    y = np.arange(N) % 2
    X = pd.DataFrame(a, index=idx if q["xi"] == "time" else range(N)) if q["x"] == "frame" else a
    Y = pd.Series(y, index=idx if q["yi"] == "time" else range(N)) if q["y"] == "series" else y
    data = [X, Y] + ([pd.Series(np.arange(N) + 1.0)] if q["w"] else [])

    def go():
        o.set_params(n_estimators=q["want"])
        o.fit(*data[:2], **({"sample_weight": data[2]} if q["w"] else {}))
        return [[list(s) for s in o.estimators_samples_], [list(f) for f in o.estimators_features_]]
    return data, go


def events_make(c):
    from mizarlabs.transformers.sample_weights import SampleWeightsByReturns, SampleWeightsByTimeDecay
    from mizarlabs.transformers.sampling.average_uniqueness import AverageUniqueness
    return {"uniqueness": lambda: AverageUniqueness(), "returns": lambda: SampleWeightsByReturns(),
            "decay": lambda: SampleWeightsByTimeDecay(c["min"][0] / c["min"][1]), "matrix": lambda: None}[c["kind"]]()


def events_ask(o, c, q):
    end = pd.Series(IDX + pd.Timedelta("2H"))
    if q["end"] == "undefined":
        end[3] = pd.NaT
    X = pd.DataFrame({"close": np.arange(N) + 10.0, "event_end_time": end.values}, index=IDX)
    if q["again"]:
        X.index = X.index[:-1].append(X.index[-2:-1])
    if not q["close"]:
        X = X.drop(columns="close")

    def go():
        if o is None:
            from mizarlabs.model.bootstrapping import get_ind_matrix
            return get_ind_matrix(X["event_end_time"], X, "event_end_time").toarray()
        return o.transform(X)
    return [X], go


def cv_make(c):
    from mizarlabs.model.model_selection import CombPurgedKFoldCV
    t = pd.Series(IDX, index=IDX)
    form = lambda k, s: {"series": s, "array": s.values, "none": None}[k]
    emb = {"zero": pd.Timedelta(0), "positive": pd.Timedelta("1H"), "negative": pd.Timedelta("-1H"), "tiny negative": pd.Timedelta(-1), "number": 0}[c["emb"]]
    return CombPurgedKFoldCV(n_groups=c["g"], n_test_splits=val(c["k"]), pred_times=form(c["pred"], t),
                             eval_times=form(c["eval"], t + pd.Timedelta("1H")), embargo_td=emb)


def cv_ask(o, c, q):
    X = pd.DataFrame({"a": range(N)}, index=IDX)
    return [X], lambda: [[list(a), list(b)] for a, b in o.split(X)]


def barriers_make(c):
    from mizarlabs.transformers.targets.labeling import TripleBarrierMethodLabeling
    return TripleBarrierMethodLabeling(2, c["pt"] * .05, c["sl"] * .05, metalabeling=c["meta"], volatility_adjusted_horizontal_barriers=False,
                                       side_column_name="side" if c["name"] == "side" else "")


def barriers_ask(o, c, q):
    df = pd.DataFrame({"close": [10., 11, 9, 10, 12, 11, 10, 9], "side": [1, -1] * 4}, index=IDX)
    s = df["close"].copy()
    df = df.drop(columns=[k for k in ("close", "side") if not q[k]])
    X = df if q["data"] == "frame" else s
    return [X], lambda: o.transform(X)


def trend_make(c):
    from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling
    return TrendScannerLabeling(t_events=None if c["ev"] == "all" else [IDX[1], IDX[2]], look_forward_window=5, min_sample_length=c["min"])


def trend_ask(o, c, q):
    y = pd.Series([10., 11, 9, 10, 12, 11, 10, 9], index=IDX, name="close")
    if not q["covers"]:
        y = y.drop(IDX[2])
    X = y if q["y"] == "series" else y.to_frame()
    return [X], lambda: o.transform(X)


class Primary:
    classes_, n_classes_ = np.array([-1, 0, 1]), 3

    def predict(self, X):
        return np.asarray(X, dtype=float).sum(axis=1).astype(int) % 3 - 1

    def __init__(self, proba="fine"):
        self.proba = proba

    def predict_proba(self, X):
        p = np.eye(3)[self.predict(X) + 1]
        if self.proba != "fine":
            p[-1, 0] = np.nan
        return p


def strategy_make(c):
    from mizarlabs.model.pipeline import StrategySignalPipeline
    from sklearn.tree import DecisionTreeClassifier
    p = StrategySignalPipeline({"L": None, "A": None}, "L", {"A": "mean"}, feature_transformers_metalabeling_model={"L": None})
    p.set_primary_model(Primary(c["proba"]))
    if c["meta"] != "none":
        m = DecisionTreeClassifier(max_depth=2, random_state=1)
        if c["meta"] == "fitted":
            m.fit(np.arange(40).reshape(8, 5), np.arange(8) % 2)
        p.set_metalabeling_model(m)
    return p


def strategy_ask(o, c, q):
    L = pd.DataFrame({"f": np.arange(N) + 1.0}, index=IDX)
    last = dict(meets=IDX[4], touches=IDX[0], before=IDX[0] - pd.Timedelta(1))[q["reach"]]
    ia = pd.DatetimeIndex([last - pd.Timedelta("%dH" % k) for k in range(6, -1, -1)])
    X = {"L": L, "A": pd.DataFrame({"g": np.arange(len(ia)) + 3.0}, index=ia)}
    if q["keys"] == "less":
        X.pop("A")
    if q["keys"] == "more":
        X["B"] = L.copy()
    y = pd.Series([-1.0, 0, 1, np.nan] * 2, index=IDX)
    if q["y"] != "fine":
        y.iloc[5] = 2.0 if q["y"] == "two" else .5

    def go():
        if q["m"] == "predict":
            return o.predict(X)
        if q["m"] == "proba":
            return o.predict_proba(X)
        if q["m"] == "side":
            return o.get_side_and_size(X)
        return (o.create_dataset_primary if q["m"] == "primary" else o.create_dataset_metalabeling)(X, y)
    return [X, y], go


def bets_make(c):
    from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities
    return BetSizingFromProbabilities(3, average_active=c["avg"], meta_labeling=c["meta"], discretise=c["disc"],
                                      step_size=None if c["step"][1] == 0 else c["step"][0] / c["step"][1])


def bets_ask(o, c, q):
    X = pd.DataFrame({"prob": [.99, .6, .5, .9, .7, .8, .4, .95], "pred": [1, -1, 1, 0, 1, -1, -1, 1], "side": [1, -1] * 4,
                      "event_end_time": IDX + pd.Timedelta("2H")}, index=IDX)
    if q["prob"] in ("undefined", "above", "below"):
        X.iloc[4, 0] = dict(undefined=np.nan, above=1 + 2.0 ** -20, below=-2.0 ** -20)[q["prob"]]
    if q["pred"] == "big":
        X["pred"] = 2
    if q["side"] in ("half", "two"):
        X["side"] = X["side"].astype(float)
        X.iloc[3, 2] = .5 if q["side"] == "half" else 2.0
    X = X.drop(columns=[k for k, gone in (("prob", q["prob"] == "missing"), ("pred", q["pred"] == "missing"), ("side", q["side"] == "missing"),
                                          ("event_end_time", not q["end"])) if gone])
    return [X], lambda: o.transform(X)


def sadf_make(c):
    from mizarlabs.structural_breaks.sadf import SupremumAugmentedDickeyFullerStatTest as S
    # a martingale model reads no lags but is made with them
    return S(c["model"], 5 if c["lags"] == "count" else [1, 5, 2], c["min"], True, c["phi"][0] / c["phi"][1])


def sadf_ask(o, c, q):
    k = np.arange(30)
    s = pd.Series(100 + np.sin(k * 1.7) * 5 + (k * k % 11), index=pd.date_range(T0, periods=30, freq="H"), name="close")
    if q["data"] != "fine":
        s.iloc[17] = np.nan if q["data"] == "undefined" else -3.0
    # windows with fewer bars than regressors have no stable number: the answer is which bars get one
    return [s], lambda: o.run(s).index


def make_make(c):
    if c["what"] == "imbalance":
        from mizarlabs.transformers.technical.volume import BuySellImbalance
        return BuySellImbalance(2, 4, ["quote", "base", "all"][c["slow"] - 1])
    if c["what"] == "z-score":
        from mizarlabs.transformers.features.rolling_z_score import RollingZScoreTransformerFactory as Z
        return Z.get_transformer(["buy_sell_diff", "high_to_low_ratio", "buy_sell"][c["slow"] - 1], 3)
    if c["what"] == "macd":
        from mizarlabs.transformers.technical.macd import MACDHistogramCrossOver
        return MACDHistogramCrossOver(c["fast"], c["slow"], 2)
    from mizarlabs.transformers.technical import moving_average as M
    if c["what"] == "cross":
        return M.MovingAverageCrossOver(c["fast"], c["slow"], "close")
    if c["what"] == "difference":
        return M.ExponentialWeightedMovingAverageDifference(c["fast"], c["slow"], "close")
    return M.MovingAverageCrossOverPredictor(c["fast"], c["slow"], "close")


def bars():
    k = np.arange(12)
    X = pd.DataFrame({"close": 10.0 + k % 4, "high": 12.0 + k % 4, "low": 9.0 + k % 3}, index=pd.date_range(T0, periods=12, freq="H"))
    for n in ("base_asset_volume", "quote_asset_volume", "base_asset_buy_volume", "base_asset_sell_volume", "quote_asset_buy_volume", "quote_asset_sell_volume"):
        X[n] = (k * len(n) % 5 + 1) / 8
    return X


def make_ask(o, c, q):
    X = bars()
    return [X], lambda: o.predict(X) if c["what"] == "crossing predictor" else o.transform(X)


class Closing:
    def __init__(self, answer):
        self.answer = answer

    def close_positions(self, X_dict):
        return None if self.answer == "nothing" else self.answer


def trader_make(c):
    from mizarlabs.model.pipeline import StrategySignalPipeline, StrategyTrader
    p = StrategySignalPipeline({"L": None, "A": None}, "L", {"A": "mean"}, closing_positions_model=Closing(c["close"]))
    p.set_primary_model(Primary())
    return StrategyTrader(p, 1, 4, 1.0, 2.0, volatility_window=3, volatility_adjusted_stop_loss=c["vol"])


def trader_ask(o, c, q):
    idx = pd.date_range(T0, periods=N, freq="12H")
    L = pd.DataFrame({"close": [10., 11, 9, 10, 12, 11, 10, 9]}, index=idx)
    A = pd.DataFrame({"g": np.arange(N) + 3.0}, index=idx)
    if not q["close"]:
        L = L.rename(columns={"close": "last"})
    for name, d in (("lead", L), ("other", A)):
        if q["twice"] == name:
            d.index = idx[:-1].append(idx[-2:-1])
    X = {"L": L, "A": A}
    return [X], lambda: {"signal": o.create_signal, "bars": o.create_strategy_bars, "position": o.create_position,
                         "close": o.determine_positions_to_close}[q["m"]](X)


def csw_make(c):
    from mizarlabs.structural_breaks.cusum_chu_stinchcome_white import ChuStinchcombeWhiteStatTest
    return ChuStinchcombeWhiteStatTest(c["side"])


def csw_ask(o, c, q):
    s = pd.Series([10., 11, 9, 10, 12, 11, 10, 9], index=IDX, name="close")
    s = s if q["data"] == "series" else s.to_frame()
    return [s], lambda: o.run(s)


# columns the transformers read, under names of the caller's choice where they can be chosen
def columns_make(c):
    from mizarlabs.transformers import microstructural_features as mf
    from mizarlabs.transformers.sample_weights import SampleWeightsByReturns, SampleWeightsByTimeDecay
    from mizarlabs.transformers.sampling.average_uniqueness import AverageUniqueness
    from mizarlabs.transformers.targets.labeling import TripleBarrierMethodLabeling
    from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities
    w = dict(window=3)
    d = {"Roll": lambda: mf.RollMeasure(close_column_name="c1", **w),
         "RollImpact": lambda: mf.RollImpact(close_column_name="c1", quote_asset_volume_column_name="c2", **w),
         "Parkinson": lambda: mf.ParkinsonVolatility(high_column_name="c1", low_column_name="c2", **w),
         "Corwin": lambda: mf.CorwinSchultzSpread(high_column_name="c1", low_column_name="c2", **w),
         "Beckers": lambda: mf.BeckersParkinsonVolatility(high_column_name="c1", low_column_name="c2", **w),
         "Kyle": lambda: mf.KyleLambda(close_column_name="c1", base_asset_volume_column_name="c2", **w),
         "Amihud": lambda: mf.AmihudLambda(close_column_name="c1", quote_asset_volume_column_name="c2", **w),
         "Hasbrouck": lambda: mf.HasbrouckLambda(close_column_name="c1", quote_asset_volume_column_name="c2", **w),
         "Vpin": lambda: mf.VPIN(base_asset_volume_column_name="c1", base_asset_buy_volume_column_name="c2", base_asset_sell_volume_column_name="c3", **w),
         "Weights": lambda: SampleWeightsByReturns("event_end_time", "c2"),
         "Uniqueness": lambda: AverageUniqueness("event_end_time"),
         "Decay": lambda: SampleWeightsByTimeDecay(.5, "event_end_time"),
         "Barriers": lambda: TripleBarrierMethodLabeling(2, .1, .1, close_column_name="c1", volatility_adjusted_horizontal_barriers=False),
         "Bets": lambda: BetSizingFromProbabilities(2, probability_column_name="c1", prediction_column_name="c2")}
    return d[c["cls"]]()


def columns_ask(o, c, q):
    k = np.arange(12)
    X = pd.DataFrame({"c1": 12.0 + k % 4, "c2": 9.0 + k % 3, "c3": 1.0 + k % 2}, index=pd.date_range(T0, periods=12, freq="H"))
    if c["cls"] == "Bets":
        X["c1"], X["c2"] = X["c1"] / 20, 1 - k % 3
    if c["cls"] in ("Weights", "Uniqueness", "Decay"):
        X["c1"] = X.index + pd.Timedelta("2H")
        X = X.rename(columns={"c1": "event_end_time"})
    if q["miss"]:
        X = X.drop(columns=X.columns[q["miss"] - 1])
    return [X], lambda: o.transform(X)


KINDS = {k: (globals()[k + "_make"], globals()[k + "_ask"])
         for k in ("bag", "events", "cv", "barriers", "trend", "strategy", "bets", "sadf", "make", "columns", "trader", "csw")}


def one(case, q, o):
    """(outcome, answer, data unmodified, why)"""
    data, go = KINDS[case["op"]][1](o, case["ctor"], q)
    before = pickle.dumps(data)
    try:
        out, why = digest(go()), ""
    except Exception as e:
        out, why = None, repr(e)[:200]
    same = all(digest(a) == digest(b) and type(a) is type(b) for a, b in zip(data, pickle.loads(before)))
    return "refuse" if out is None else "answer", out or "", bool(same), why


def made(case):
    try:
        return KINDS[case["op"]][0](case["ctor"]), ""
    except Exception as e:
        return None, repr(e)[:200]


def record(case):
    warnings.simplefilter("ignore")
    o, why = made(case)
    # the matrix of events is asked from a function: there is no object
    refused = bool(why)
    ev = [dict(e="make", op=case["op"], ctor=case["ctor"], out="refuse" if refused else "answer", why=why)]
    kept = []
    for q in [] if refused else case["calls"]:
        out, ans, same, why = one(case, q, o)
        clean = ans
        if out == "answer" and len(kept) < len(ev) - 1:
            p, _ = made(case)
            for k in kept:
                one(case, k, p)
            clean = one(case, q, p)[1]
        ev.append(dict(e="ask", q=q, out=out, ans=ans, clean=clean, pure=same, why=why))
        if out == "answer":
            kept.append(q)
    return ev


def judge(ctx, cases):
    ctx.judge("Trace_Refuse", cases, ctx.record(record, cases))


REPLAY = {"trace": judge}


def run(ctx):
    r = ctx.rng
    ctx.rules.append("TLC enumerates twelve kinds of objects, made and asked twice with requests that are odd in at most two facts (sizes, types, times, columns, order of fits), and decides answer / refuse / free for each. "
                     "Every history is put to the real code; its outcomes are judged by TLC, and an answer after a refusal is compared with the answer in the history without the refusals. Longer seeded histories likewise. Non-trivial: distinct history.")
    ctx.assumptions += ["any exception is a refusal", "one negative barrier factor, equal fast and slow periods and events of equal times in the return weights are not judged"]
    cases = ctx.mc("MC_Refuse", ctx.pick("MC_Refuse", "MC_Refuse_thorough"))
    hist = [dict(op=c["op"], ctor=c["ctor"], calls=[k["q"] for k in c["log"]]) for c in cases]
    by = {}
    for h in hist:
        by.setdefault(h["op"], []).append(h)
    lim = ctx.pick(500, 6000)
    g = []
    for k in sorted(by):
        one_each = by[k]
        g += one_each if len(one_each) <= lim else r.sample(one_each, lim)
        # longer histories: the requests of several histories of objects made alike
        alike = {}
        for h in one_each:
            alike.setdefault(str(sorted(h["ctor"].items(), key=str)), []).append(h)
        groups = [alike[a] for a in sorted(alike) if len(alike[a]) > 3 and alike[a][0]["calls"]]
        for _ in range(ctx.pick(25, 300) if groups else 0):
            hs = r.choice(groups)
            g.append(dict(op=k, ctor=hs[0]["ctor"], calls=[q for h in r.sample(hs, 3) for q in h["calls"]]))
    ctx.sample(g[0])
    ctx.sample(g[-1])
    judge(ctx, g)
