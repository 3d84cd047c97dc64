"""C21: transformers are pure functions of their configuration and the data they use."""
import copy
import math

import numpy as np
import pandas as pd

from .core import pristine

N = 70
SIZES = (0, 31, 44, N)      # the specification's small cuts 1..3
PX = ["open", "high", "low", "close"]
VOL = [p + s for p in ("base_asset", "quote_asset") for s in ("_volume", "_buy_volume", "_sell_volume")]
COLS = PX + VOL + ["num_buy_ticks", "side", "volume", "periods"]
TS = "@time"      # the timestamps are data too


def raw(seed):
    rs = np.random.RandomState(seed)
    d = {}
    c = 80 + np.abs(20 + np.cumsum(rs.randint(-5, 6, N)) * 1.0)
    o = np.r_[c[0], c[:-1]] + rs.randint(-1, 2, N) * .25
    d["open"], d["close"] = o, c
    d["high"] = np.maximum(o, c) + rs.randint(0, 6, N) * .25
    d["low"] = np.minimum(o, c) - rs.randint(0, 6, N) * .25
    for p, k in (("base_asset", 1), ("quote_asset", 100)):
        b, s = rs.randint(1, 60, N) * k, rs.randint(1, 60, N) * k
        d[p + "_buy_volume"], d[p + "_sell_volume"], d[p + "_volume"] = b * 1.0, s * 1.0, (b + s) * 1.0
    d["num_buy_ticks"] = rs.randint(1, 9, N) * 1.0
    d["volume"] = rs.randint(1, 90, N) * 1.0
    d["periods"] = rs.randint(2, 9, N) * 1.0
    d["side"] = rs.choice([-1, 1, 1], N) * 1.0
    d["gap"] = rs.choice([60, 3600, 3600, 7200, 43200], N) * 1000
    d["hold"] = rs.randint(0, 6, N) * 1.0
    d["prob"] = rs.randint(51, 99, N) / 100.0
    d["pred"] = rs.choice([-1, 1], N) * 1.0
    for c in PX + VOL:
        d["?" + c] = rs.rand(N) < .04      # undefined here, for the families and transformers with gaps
    return d


def family(fr):
    a = raw(1000 * fr["root"])
    a["gap"] = raw(7)["gap"]        # every family lives on the same timestamps; branch 2 leaves them
    if fr["br"]:
        b = raw(1000 * fr["root"] + fr["br"])
        if fr["br"] == 1:
            b["gap"] = a["gap"]
        a = {k: np.r_[a[k][: fr["h"]], b[k][fr["h"]:]] for k in a}
    idx = pd.DatetimeIndex(pd.Timestamp("2021-02-01") + pd.to_timedelta(np.cumsum(a["gap"]), unit="ms"))
    return a, idx


def frame(ent, fr):
    a, idx = family(fr)
    n, used = fr["cut"], ent["used"]
    if ent["gaps"] and fr["root"] == 2:
        a = dict(a, **{c: np.where(a["?" + c], np.nan, a[c]) for c in PX + VOL})
    if ent["inp"] == "series":
        return pd.Series(a["close"][:n], index=idx[:n], name=["close", None, "zz"][fr["extra"] % 3])
    if ent["inp"] == "events":
        X = pd.DataFrame({"close": a["close"], "junk": a["open"]}, index=idx)
        X["event_end_time"] = idx + pd.to_timedelta(a["hold"] * 3, unit="h")
        cols = ["close", "junk", "event_end_time"]
    elif ent["inp"] == "bets":
        X = pd.DataFrame({"prob": a["prob"], "pred": a["pred"], "side": a["side"], "junk": a["open"]}, index=idx)
        X["event_end_time"] = idx + pd.to_timedelta(a["hold"] * 3 + 1, unit="h")
        cols = list(X.columns)
    else:
        X = pd.DataFrame({c: a[c] for c in COLS}, index=idx)
        cols = list(COLS)
    X = X.iloc[:n].copy()
    e = fr["extra"] if ent["inp"] != "all" else 0
    if e:      # everything the transformer does not use is different
        rs = np.random.RandomState(e)
        for c in cols:
            if c not in used:
                if e % 3 == 0:
                    del X[c]
                else:
                    X[c] = rs.rand(n) * 50 + 1 if c != "event_end_time" else idx[:n]
        if e % 2:
            X["another"] = rs.rand(n)
            X = X[[X.columns[i] for i in rs.permutation(X.shape[1])]]
    return X


def ent(make, used, causal=True, inp="df", call="transform", aligned=True, tol=1e-9, short=2, gaps=None, free=False):
    return dict(free=free, gaps=inp == "df" if gaps is None else gaps, make=make, used=used, causal=causal, inp=inp, call=call, aligned=aligned, tol=tol, short=short)


def table():
    from mizarlabs.structural_breaks.cusum_chu_stinchcome_white import ChuStinchcombeWhiteStatTest as CSW
    from mizarlabs.structural_breaks.sadf import SupremumAugmentedDickeyFullerStatTest as SADF
    from mizarlabs.structural_breaks.sdfc import SupremumDickeyFullerChowStatTest as SDFC
    from mizarlabs.transformers import microstructural_features as m
    from mizarlabs.transformers.features.custom import LocalMaxToCloseRatio
    from mizarlabs.transformers.features.rolling_z_score import RollingZScoreTransformerFactory as Z
    from mizarlabs.transformers.sample_weights import SampleWeightsByReturns, SampleWeightsByTimeDecay
    from mizarlabs.transformers.sampling.average_uniqueness import AverageUniqueness
    from mizarlabs.transformers.sampling.down_sampling import CUSUMFilter
    from mizarlabs.transformers.targets.labeling import TripleBarrierMethodLabeling
    from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling
    from mizarlabs.transformers.technical.factory import TAFactory
    from mizarlabs.transformers.technical.macd import MACDHistogramCrossOver
    from mizarlabs.transformers.technical.mean_reversion import MeanReversionStrategy
    from mizarlabs.transformers.technical.moving_average import (ExponentialWeightedMovingAverageDifference, MovingAverageCrossOver,
                                                                 MovingAverageCrossOverPredictor)
    from mizarlabs.transformers.technical.rsi import BarArrivalRSIStrategy, RSIConfirmation
    from mizarlabs.transformers.technical.volume import BuySellImbalance
    from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities
    from mizarlabs.transformers.utils import IdentityTransformer
    w = lambda cls: lambda p: cls(3 + 4 * p)
    B, Q = VOL[:3], VOL[3:]
    t = dict(
        roll=ent(w(m.RollMeasure), ["close"]), rollimp=ent(w(m.RollImpact), ["close", "quote_asset_volume"]),
        park=ent(w(m.ParkinsonVolatility), ["high", "low"]), cs=ent(w(m.CorwinSchultzSpread), ["high", "low"]),
        beck=ent(w(m.BeckersParkinsonVolatility), ["high", "low"]),
        kyle=ent(w(m.KyleLambda), ["close", "base_asset_volume"]), amih=ent(w(m.AmihudLambda), ["close", "quote_asset_volume"]),
        hasb=ent(w(m.HasbrouckLambda), ["close", "quote_asset_volume"]),
        vpin=ent(w(m.VPIN), ["base_asset_volume", "base_asset_buy_volume", "base_asset_sell_volume"]),
        lmax=ent(w(LocalMaxToCloseRatio), ["high", "close"]),
        imb=ent(lambda p: BuySellImbalance(3, 9, ["base", "quote"][p - 1]), None),
        ewmd=ent(lambda p: ExponentialWeightedMovingAverageDifference(2 + p, 8, "close", p == 1), ["close"]),
        macross=ent(lambda p: MovingAverageCrossOver(2, 3 + p, "close", p == 1), ["close"]),
        macrossp=ent(lambda p: MovingAverageCrossOverPredictor(2, 3 + p, "close", p == 2), ["close"], call="predict"),
        macd=ent(lambda p: MACDHistogramCrossOver(3, 5 + p, 3), ["close"]),
        meanrev=ent(lambda p: MeanReversionStrategy(.015 * p, 4), ["close"], call="predict"),
        arrival=ent(lambda p: BarArrivalRSIStrategy(70 + p, 20, 5, -5, 6, 2, 4 + p, 10 ** 12), ["close"], call="predict"),
        rsiconf=ent(lambda p: RSIConfirmation(5, 50 + 5 * p, 2, 2), ["close"], call="predict"),
        zgap=ent(lambda p: Z.get_transformer("bar_arrival_time", 4 + p), []),
        zdiff=ent(lambda p: Z.get_transformer("buy_sell_diff", 4 + p), ["quote_asset_buy_volume", "quote_asset_sell_volume"]),
        zsize=ent(lambda p: Z.get_transformer("average_buy_size", 4 + p), ["quote_asset_buy_volume", "num_buy_ticks"]),
        zhl=ent(lambda p: Z.get_transformer("high_to_low_ratio", 4 + p), ["high", "low"]),
        ident=ent(lambda p: IdentityTransformer(), COLS, inp="all", free=True),
        csw=ent(lambda p: CSW(["two_sided", "one_sided_positive"][p - 1]), None, inp="series", call="run", aligned=False, tol=1e-6),
        sadf=ent(lambda p: SADF(["no_trend", "linear"][p - 1], 1, 12, True, 0.0), None, inp="series", call="run", aligned=False, tol=1e-5, short=20),
        smt=ent(lambda p: SADF(["sm_poly_1", "sm_exp"][p - 1], 1, 12, True, .3), None, inp="series", call="run", aligned=False, tol=1e-5, short=20),
        sdfc=ent(lambda p: SDFC(3 + p), None, causal=False, inp="series", call="run", aligned=False, tol=1e-6, short=12),
        cusum=ent(lambda p: CUSUMFilter(4.0 * p), None, inp="series", aligned=False),
        trend=ent(lambda p: TrendScannerLabeling(look_forward_window=6 + p, min_sample_length=4), None, causal=False, inp="series", aligned=False, tol=1e-6, short=15),
        tb=ent(lambda p: TripleBarrierMethodLabeling(5, [1.0, .05][p - 1], [1.0, .05][p - 1], metalabeling=p == 2, volatility_adjusted_horizontal_barriers=p == 1, volatility_window=10),
               ["close", "side"], causal=False),
        uniq=ent(lambda p: AverageUniqueness(), ["event_end_time"], causal=False, inp="events", free=True),
        wret=ent(lambda p: SampleWeightsByReturns(), ["event_end_time", "close"], causal=False, inp="events"),
        wdec=ent(lambda p: SampleWeightsByTimeDecay([.5, -.25][p - 1]), ["event_end_time"], causal=False, inp="events", free=True),
        bet=ent(lambda p: BetSizingFromProbabilities(1 + p, meta_labeling=p == 2), ["prob", "pred", "side"], inp="bets", free=True),
        betdisc=ent(lambda p: BetSizingFromProbabilities(2, discretise=True, step_size=.1 * p), ["prob", "pred"], inp="bets", free=True),
        betavg=ent(lambda p: BetSizingFromProbabilities(1 + p, average_active=True), ["prob", "pred", "event_end_time"],
                   causal=False, inp="bets", aligned=False, free=True),
    )
    t["imb"]["used"] = B + Q
    for f, used, kw in (("SMA", ["close"], "timeperiod"), ("RSI", ["close"], "timeperiod"), ("ATR", ["high", "low", "close"], "timeperiod"),
                        ("BBANDS", ["close"], "timeperiod"), ("OBV", ["close", "volume"], None), ("MACD", ["close"], "signalperiod"),
                        ("CORREL", ["high", "volume"], "timeperiod"), ("CDLENGULFING", PX, None), ("MAVP", ["close", "periods"], "maxperiod")):
        col = ["high", "volume"] if f == "CORREL" else "close"
        t["ta_" + f] = ent(lambda p, f=f, kw=kw, col=col: TAFactory().create_transformer(f, col, kw_args={kw: 3 + 2 * p} if kw else None), used)
    return t


NAMES = None


def num(v):
    if v is None or v is pd.NaT:
        return math.nan
    if isinstance(v, (pd.Timestamp, np.datetime64)):
        return float(pd.Timestamp(v).value)
    return float(v)


def rows_of(out, X, e):
    """(list of value tuples per input row or None, aligned)."""
    n = len(X)
    if isinstance(out, pd.DatetimeIndex):
        s = set(out)
        return [(1.0,) if t in s else (0.0,) for t in X.index], s <= set(X.index) and len(s) == len(out)
    if isinstance(out, (pd.Series, pd.DataFrame)):
        df = out.to_frame() if isinstance(out, pd.Series) else out
        vals = [tuple(num(v) for v in r) for r in df.itertuples(index=False)]
        if e["aligned"]:
            return vals, len(df) == n and df.index.equals(X.index)
        pos = {t: k for k, t in enumerate(X.index)}
        if all(t in pos for t in df.index) and df.index.is_unique:
            got = [None] * n
            for t, v in zip(df.index, vals):
                got[pos[t]] = v
            return got, True
        # rows of its own: the answer as a whole
        whole = tuple(x for t, v in zip(df.index, vals) for x in (num(t),) + v)
        return [whole] * n, True
    a = np.asarray(out)
    a = a.reshape(len(a), -1)
    return [tuple(float(x) for x in r) for r in a], len(a) == n


def eq(a, b, tol):
    return len(a) == len(b) and all((math.isnan(x) and math.isnan(y)) or x == y or abs(x - y) <= tol * (1e-3 + max(abs(x), abs(y))) for x, y in zip(a, b))


def answer(obj, e, X, how):
    if how == 1 and hasattr(obj, "fit"):
        try:
            obj.fit(X)
        except TypeError:
            obj.fit(X, None)
    if e["call"] == "predict":
        if how % 2:
            q = np.asarray(obj.predict_proba(X))
            p = obj.predict(X)
        else:
            p = obj.predict(X)
            q = np.asarray(obj.predict_proba(X))
        r, ok = rows_of(p, X, e)
        if q.ndim != 2 or len(q) != len(r):
            return r, False, [p]
        return [a + tuple(float(v) for v in b) for a, b in zip(r, q)], ok, [p, q]
    out = getattr(obj, e["call"])(X)
    r, ok = rows_of(out, X, e)
    return r, ok, [out]


def spoil(outs):
    """The caller may do what it likes with an answer."""
    for o in outs:
        try:
            if isinstance(o, (pd.Series, pd.DataFrame)):
                o.iloc[:] = 77
            elif isinstance(o, np.ndarray) and o.flags.writeable:
                o[...] = 77
        except (TypeError, ValueError):
            pass


def in_order(r, ok, out, X, S, e):
    """The rows of an answer about the permuted frame X in the order of S (weights may come in time order)."""
    if not e["aligned"] or not isinstance(out, (pd.Series, pd.DataFrame)):
        return (r if len(set(map(str, r))) == 1 else [r[k] for k in X.index.get_indexer(S.index)]), ok
    if len(out) != len(S) or set(out.index) != set(S.index):
        return r, False
    return [r[k] for k in out.index.get_indexer(S.index)], True


def play(steps):
    """Run a history; per call (rows, aligned, pure)."""
    tab = table()
    objs, ents, kept, res = [], [], {}, []
    for s in steps:
        if s["op"] == "new":
            e = tab[s["cls"]]
            objs.append(e["make"](s["par"]))
            ents.append((s["cls"], e))
            continue
        cls, e = ents[s["o"] - 1]
        X = frame(e, s["fr"])
        if s["how"] == 4:      # the same frame object with other contents
            k = (cls, s["fr"]["cut"], tuple(X.columns) if X.ndim > 1 else None)
            if k in kept and len(kept[k]) == len(X):
                Y = kept[k]
                Y.index = X.index
                if X.ndim > 1:
                    for c in X.columns:
                        Y[c] = X[c].values
                else:
                    Y[:] = X.values
                    Y.name = X.name
                X = Y
            kept[k] = X
        obj = objs[s["o"] - 1]
        if s["how"] == 2:
            obj = copy.deepcopy(obj)
        S = X
        if s["how"] == 5 and e["free"]:      # rows in another order, where the order has no meaning
            X = X.iloc[np.random.RandomState(len(X)).permutation(len(X))]
        X0 = X.copy(deep=True)
        r, ok, outs = answer(obj, e, X, s["how"])
        if X is not S:
            r, ok = in_order(r, ok, outs[0], X, S, e)
        pure = X.equals(X0) and X.index.equals(X0.index)
        pure = pure and (list(X.columns) == list(X0.columns) and list(X.dtypes) == list(X0.dtypes) if X.ndim > 1 else X.name == X0.name)
        if s["how"] == 3:
            spoil(outs)
        res.append((r, bool(ok), bool(pure)))
    return res


def record(case):
    """The history in one new process; some of its calls again, each in a new process of its own."""
    tab = table()
    names = sorted(tab)
    kinds, calls = [], []
    for s in case["steps"]:
        if s["op"] == "new":
            kinds.append(s)
        else:
            s["fr"]["cut"] = max(s["fr"]["cut"], tab[kinds[s["o"] - 1]["cls"]]["short"])
            calls.append(s)
    runs = [case["steps"]] + [[kinds[calls[k]["o"] - 1], dict(calls[k], o=1, how=0)] for k in case.get("alone", []) if k < len(calls)]
    reps, ev, nobj = {}, [dict(e="start")], 0
    for steps in runs:
        res = pristine(play, steps)
        base, mine = nobj, []
        for s in steps:
            if s["op"] == "new":
                mine.append(s)
                nobj += 1
                ev.append(dict(e="new", cfg=dict(cls=names.index(s["cls"]) + 1, par=s["par"], causal=tab[s["cls"]]["causal"])))
                continue
            r, ok, pure = res.pop(0)
            cls, par = mine[s["o"] - 1]["cls"], mine[s["o"] - 1]["par"]
            e = tab[cls]
            ids = []
            for i, v in enumerate(r):
                if v is None:
                    ids.append(-1)
                    continue
                lst = reps.setdefault((cls, par, i) if e["causal"] else (cls, par, i, s["fr"]["cut"]), [])
                k = next((k for k, u in enumerate(lst) if eq(u, v, e["tol"])), None)
                if k is None:
                    lst.append(v)
                    k = len(lst) - 1
                ids.append(k)
            ev.append(dict(e="call", o=base + s["o"], fr=s["fr"], rows=ids, aligned=ok, pure=pure))
    return ev


def judge(ctx, cases):
    ctx.judge("Trace_Purity", cases, ctx.record(record, cases))


REPLAY = {"trace": judge}


def from_tlc(ctx, hists, names, per):
    """TLC's histories, its two classes played by real ones."""
    r = ctx.rng
    causal = [n for n in names if names[n]["causal"]]
    whole = [n for n in names if not names[n]["causal"]]
    out = []
    cnt = {n: 0 for n in names}
    for h in hists:
        a, b = min(r.sample(causal, 3), key=cnt.get), min(r.sample(whole, 2), key=cnt.get)
        use = {o["cls"] for o in h["objs"]}
        if len(out) >= per:
            break
        for c in use:
            cnt[{1: a, 2: b}[c]] += 1
        steps = [dict(op="new", cls={1: a, 2: b}[o["cls"]], par=o["par"]) for o in h["objs"]]
        for c in h["calls"]:
            f = c["fr"]
            steps.append(dict(op="call", o=c["o"], how=r.randint(0, 5),
                              fr=dict(root=f["root"], br=f["br"], h=SIZES[f["h"]], cut=SIZES[f["cut"]], extra=f["extra"] * r.randint(1, 9))))
        out.append(dict(steps=steps, alone=[len(h["calls"]) - 1]))
    return out


def gen(ctx, names, n):
    r = ctx.rng
    allc = sorted(names)
    out = []
    for i in range(n):
        main = allc[i % len(allc)]
        steps, k, kinds = [], 0, []
        for _ in range(r.randint(4, 10)):
            if k == 0 or (k < 4 and r.random() < .25):
                cls = main if r.random() < .75 or k == 0 else r.choice(allc)
                steps.append(dict(op="new", cls=cls, par=r.choice([1, 1, 2])))
                k += 1
            else:
                br = r.choice([0, 0, 0, 1, 2])
                steps.append(dict(op="call", o=r.randint(1, k), how=r.randint(0, 5),
                                  fr=dict(root=r.choice([1, 1, 2]), br=br, h=r.randint(1, N - 1) if br else N,
                                          cut=r.choice([N, N, 50, 30, 12, r.randint(2, N)]), extra=r.choice([0, 0, r.randint(1, 9)]))))
        if r.random() < .15:       # one frame object, other contents every time
            for s in steps:
                if s["op"] == "call":
                    s["how"] = 4
                    s["fr"]["cut"] = N
                    s["fr"]["extra"] = 0
        hh = {1: r.randint(5, N - 5), 2: r.randint(5, N - 5)}
        for s in steps:      # a branch leaves its family at one place
            if s["op"] == "call" and s["fr"]["br"]:
                s["fr"]["h"] = hh[s["fr"]["br"]]
        out.append(dict(steps=steps, alone=r.sample(range(len(steps)), 2)))
    return out


def run(ctx):
    ctx.rules.append("spec->code->spec: histories of calls on several objects (families of data sharing prefixes, cuts, unused columns varied) enumerated by TLC, and longer seeded ones, run on %d transformers, predictors, labellers and tests; "
                     "TLC decides which rows of which answers have to agree and whether they do. Non-trivial: distinct history.")
    ctx.assumptions += ["values are compared up to rounding (1e-9 relative; 1e-5 for regression statistics)", "unique increasing timestamps; columns a transformer uses are named in the harness"]
    join = ctx.warm(warmup)
    tab = table()
    ctx.rules[0] = ctx.rules[0] % len(tab)
    hists = ctx.mc("MC_Purity", ctx.pick("MC_Purity", "MC_Purity_thorough"))
    ctx.rng.shuffle(hists)
    join()
    g = from_tlc(ctx, hists, tab, ctx.pick(400, 3000))
    ctx.sample(g[3])
    g2 = gen(ctx, tab, ctx.pick(1800, 12000))
    ctx.sample(g2[5])
    judge(ctx, g + g2)


def warmup():
    tab = table()
    fr = dict(root=9, br=2, h=0, cut=40, extra=0)      # data of no history
    for c in ("csw", "sadf", "smt", "sdfc", "trend", "tb", "betavg"):
        for p in (1, 2):
            e = tab[c]
            try:
                getattr(e["make"](p), e["call"])(frame(e, fr))
            except Exception:
                pass
