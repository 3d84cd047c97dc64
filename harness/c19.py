"""C19: windowed and exponential market features."""
import math

import numpy as np
import pandas as pd

from .core import close
from .inputs import make_index

KINDS = ("roll", "park", "cs", "lam", "vpin", "zgap", "zdiff", "zsize", "zhl", "lmax", "ewmd", "imb")
LN2 = math.log(2)
COLS = ("high", "low", "close", "base_asset_volume", "base_asset_buy_volume", "base_asset_sell_volume",
        "quote_asset_volume", "quote_asset_buy_volume", "quote_asset_sell_volume", "num_buy_ticks")
RENAMED = {"roll": ("close", "quote_asset_volume"), "park": ("high", "low"), "cs": ("high", "low"),
           "lam": ("close", "base_asset_volume", "quote_asset_volume"),
           "vpin": ("base_asset_volume", "base_asset_buy_volume", "base_asset_sell_volume"), "ewmd": ("close",)}


def frame(kind, bars, case):
    n = len(bars)
    if kind == "zgap":
        idx = pd.DatetimeIndex(pd.Timestamp("2021-03-01") + pd.to_timedelta(np.cumsum([b["g"] for b in bars]) * case.get("unit", 1000), unit="ms"))
        if case.get("ikind") == "tz":
            idx = idx.tz_localize("UTC")
    else:
        idx = make_index(n, case.get("iseed", 0), case.get("ikind", "hourly"))
    X = pd.DataFrame({c: np.arange(n) % 4 + 3.0 + i for i, c in enumerate(COLS)}, index=idx)
    X["high"] += 30

    def put(col, f):
        X[col] = np.array([float(f(b)) for b in bars])
    if kind in ("roll", "lam", "lmax"):
        put("close", lambda b: 2.0 ** b["c"])
    if kind in ("park", "cs", "zhl"):
        put("high", lambda b: 2.0 ** b["h"] * 3)
        put("low", lambda b: 2.0 ** b["l"] * 3)
    if kind == "lmax":
        put("high", lambda b: 2.0 ** b["h"])
    if kind == "lam":
        put("base_asset_volume", lambda b: 2.0 ** b["v"])
        put("quote_asset_volume", lambda b: 4.0 ** b["q"])
    if kind == "vpin":
        put("base_asset_buy_volume", lambda b: b["b"])
        put("base_asset_sell_volume", lambda b: b["s"])
        X["base_asset_volume"] = X["base_asset_buy_volume"] + X["base_asset_sell_volume"]
    if kind in ("zdiff", "imb"):
        for p in ("quote", "base") if kind == "zdiff" or case["type"] == "quote" else ("base", "quote"):
            f = 1 if kind == "zdiff" and p == "quote" or p == case.get("type") else 5
            put(p + "_asset_buy_volume", lambda b: b["b"] * f)
            put(p + "_asset_sell_volume", lambda b: b["s"] * f + (f > 1) * (b["b"] % 3))
            X[p + "_asset_volume"] = X[p + "_asset_buy_volume"] + X[p + "_asset_sell_volume"]
    if kind == "zsize":
        put("quote_asset_buy_volume", lambda b: b["b"])
        put("num_buy_ticks", lambda b: 2.0 ** b["n"])
    if kind == "ewmd":
        put("close", lambda b: b["x"])
    ps, vs = scales(kind, case)
    for c in COLS[:-1]:
        X[c] = X[c] * (ps if c in COLS[:3] else vs)
    if case.get("rename"):
        for i, c in enumerate(RENAMED.get(kind, ())):
            X["my_" + c] = X[c]
            X[c] = np.arange(n) * 7 % 11 + 5.0 + i
    return X


def scales(kind, case):
    """units of prices and of volumes"""
    return (1.0, 1.0) if kind in ("ewmd", "imb") else (2.0 ** case.get("ps", 0), 4.0 ** case.get("vs", 0))


def transformers(kind, cfg, case):
    from mizarlabs.transformers import microstructural_features as m
    from mizarlabs.transformers.features.custom import LocalMaxToCloseRatio
    from mizarlabs.transformers.features.rolling_z_score import RollingZScoreTransformerFactory as Z
    from mizarlabs.transformers.technical.moving_average import ExponentialWeightedMovingAverageDifference as E
    from mizarlabs.transformers.technical.volume import BuySellImbalance
    kw = {c + "_column_name": "my_" + c for c in RENAMED.get(kind, ())} if case.get("rename") else {}

    def mk(cls, *cols):
        return cls(cfg["w"], **{k: v for k, v in kw.items() if k[:-len("_column_name")] in cols})
    if kind == "roll":
        return [mk(m.RollMeasure, "close"), mk(m.RollImpact, *RENAMED[kind])]
    if kind == "park":
        return [mk(m.ParkinsonVolatility, "high", "low")]
    if kind == "cs":
        return [mk(m.CorwinSchultzSpread, "high", "low"), mk(m.BeckersParkinsonVolatility, "high", "low")]
    if kind == "lam":
        return [mk(m.KyleLambda, "close", "base_asset_volume"), mk(m.AmihudLambda, "close", "quote_asset_volume"),
                mk(m.HasbrouckLambda, "close", "quote_asset_volume")]
    if kind == "vpin":
        return [mk(m.VPIN, *RENAMED[kind])]
    if kind[0] == "z":
        return [Z.get_transformer(dict(zgap="bar_arrival_time", zdiff="buy_sell_diff", zsize="average_buy_size", zhl="high_to_low_ratio")[kind], cfg["w"])]
    if kind == "lmax":
        return [LocalMaxToCloseRatio(cfg["w"])]
    if kind == "ewmd":
        col = kw.get("close_column_name", "close")
        return [E(cfg["fast"], cfg["slow"], col, False), E(cfg["fast"], cfg["slow"], col, True)]
    return [BuySellImbalance(cfg["fast"], cfg["slow"], case["type"])]


def q(r):
    return math.nan if r[1] == 0 else r[0] / r[1]


def spread(beta, gamma):
    den = 3 - 2 * math.sqrt(2)
    a = max(0.0, (math.sqrt(2) - 1) * math.sqrt(beta) / den - math.sqrt(gamma / den))
    return 2 * (math.exp(a) - 1) / (1 + math.exp(a))


def beckers(beta, gamma):
    k2, den = math.sqrt(8 / math.pi), 3 - 2 * math.sqrt(2)
    return max(0.0, (1 / math.sqrt(2) - 1) * math.sqrt(beta) / (k2 * den) + math.sqrt(gamma / (k2 ** 2 * den)))


def wanted(kind, v, t, bar, cfg, X, ps=1.0, vs=1.0):
    """per transformer (value, abs tolerance); None = not judged"""
    if v == []:
        if kind == "vpin" and t == cfg["w"] or kind[0] == "z" and t > cfg["w"]:
            return [None]
        return [(math.nan, 0)] * dict(roll=2, cs=2, lam=3, ewmd=2).get(kind, 1)
    if kind == "roll":
        r = 2 * math.sqrt(abs(q(v[0])))
        tol = 1e-9 if r > 1e-3 else 2e-5
        quote = X["quote"][t - 1]
        return [(r * ps, tol * ps), (r * ps / quote, tol * ps / quote)]
    if kind == "park":
        return [(q(v[0]) * LN2 ** 2 / (4 * LN2), 1e-9)]
    if kind == "cs":
        b, g = q(v[0]) * LN2 ** 2, v[1][0] * LN2 ** 2
        return [(spread(b, g), 1e-6), (beckers(b, g), 1e-6)]
    if kind == "lam":
        return [(a * u, 1e-9 * u) for a, u in ((q(v[0]), ps / vs), (q(v[1]) * LN2, 1 / vs), (q(v[2]) * LN2, vs ** -.5))]
    if kind[0] == "z":
        return [(q(v[0]) * math.sqrt(q(v[1])), 1e-6)]
    if kind == "ewmd" and len(v) == 2 and not isinstance(v[0], list) or kind == "imb" and not isinstance(v[0], list):
        f, s = v[0] / 100, v[1] / 100      # fixed point answers
        if kind == "imb":
            return [((f - s) / (bar["b"] + bar["s"] + 1), .03)]
        return [(f - s, .03), ((f - s) / (f + 1), .03) if f + 1 > 1 else None]
    return [None if x[1] == 0 else (q(x), 1e-9) for x in v]


def check(case):
    cfg, kind, bars, out = case["cfg"], case["cfg"]["kind"], case["bars"], case["out"]
    for cut in sorted({c for c in case.get("cuts", []) if 0 < c <= len(bars)} | {len(bars)}):
        X = frame(kind, bars[:cut], case)
        before = X.copy(deep=True)
        ts = transformers(kind, cfg, case)
        got = []
        for tr in ts:
            if case.get("again"):
                tr.transform(X.iloc[: max(1, cut - 2)] * 2)
            if hasattr(tr, "fit"):
                tr.fit(X)
            g = tr.transform(X)
            if getattr(g, "shape", None) != (cut, 1):
                return dict(clause="one column, one row per bar", shape=list(getattr(g, "shape", [])), cls=type(tr).__name__)
            got.append(np.asarray(g, dtype=float).ravel())
        if not X.equals(before):
            return dict(clause="the input is not modified", cls=[type(t).__name__ for t in ts])
        cols = dict(quote=X["my_quote_asset_volume" if case.get("rename") and kind == "roll" else "quote_asset_volume"].values)
        for t in range(1, cut + 1):
            for tr, g, w in zip(ts, got, wanted(kind, out[t - 1], t, bars[t - 1], cfg, cols, *scales(kind, case))):
                if w is None:
                    ok = not math.isinf(g[t - 1]) or kind[0] == "z" or kind in ("ewmd",)
                else:
                    ok = close(g[t - 1], w[0], max(w[1], 0), 1e-6)
                if not ok:
                    return dict(clause="the formula on the window ending at the bar", cls=type(tr).__name__, bar=t, cut=cut, got=float(g[t - 1]), want=w and w[0])


def refuse(case):
    """missing columns and unknown names are refused rather than silently replaced"""
    from mizarlabs.transformers.features.rolling_z_score import RollingZScoreTransformerFactory as Z
    from mizarlabs.transformers.technical.volume import BuySellImbalance
    from mizarlabs.transformers.technical.moving_average import ExponentialWeightedMovingAverageDifference as E
    for exc, f in ((KeyError, lambda: Z.get_transformer("nothing", 3)), (ValueError, lambda: BuySellImbalance(2, 3, "other")),
                   (ValueError, lambda: E(5, 3, "close"))):
        try:
            f()
        except exc:
            continue
        return dict(clause="an invalid configuration is refused", exc=exc.__name__)


REPLAY = {"replay": check, "replay_trace": check, "replay_refuse": refuse}


def gen(r, kind, big=False):
    n = 260 if big else r.choice([1, 3, 10, 40, 120])
    if kind in ("ewmd", "imb"):
        f = r.choice([1, 2, 5, 12])
        cfg = dict(kind=kind, fast=f, slow=f + r.choice([0, 1, 4, 15]))
    else:
        cfg = dict(kind=kind, w=r.choice([1, 2, 3, 5, 10, 20] if kind in ("park", "cs", "lam", "vpin", "lmax") else [2, 3, 5, 10, 20]))
        if big:
            cfg["w"] = r.choice([50, 100])
        n = n if big else r.choice([n, cfg["w"], cfg["w"] + 1, cfg["w"] + 3])
    bars, c = [], 3
    sticky = r.random() < .3
    for _ in range(n):
        if bars and sticky and r.random() < .8:
            bars.append(dict(bars[-1]))
            continue
        if kind in ("roll", "lam", "lmax"):
            c = max(0, min(6, c + r.choice([-1, 0, 1])))
        l = r.randint(0, 3)
        zero = r.random() < .3
        b = dict(roll=lambda: dict(c=c), park=lambda: dict(h=l + r.randint(0, 3), l=l), cs=lambda: dict(h=l + r.choice([0, 0, 1, 3]), l=l),
                 lam=lambda: dict(c=c, v=r.randint(0, 3), q=r.randint(0, 2)), vpin=lambda: dict(b=0, s=0) if zero else dict(b=r.randint(0, 9), s=r.randint(0, 9)),
                 zgap=lambda: dict(g=r.randint(1, 60)), zdiff=lambda: dict(b=r.randint(0, 40), s=r.randint(0, 40)), zsize=lambda: dict(b=r.randint(0, 12), n=r.randint(0, 2)),
                 zhl=lambda: dict(h=l + r.randint(0, 2), l=l), lmax=lambda: dict(c=c, h=c + r.randint(0, 2)), ewmd=lambda: dict(x=r.randint(0, 30)),
                 imb=lambda: dict(b=0, s=0) if zero else dict(b=r.randint(0, 20), s=r.randint(0, 20)))[kind]()
        bars.append(b)
    return dict(cfg=cfg, bars=bars, rename=r.random() < .5, again=r.random() < .3, type=r.choice(["quote", "base"]), ikind=r.choice(["hourly", "irregular", "tz"]),
                iseed=r.randint(0, 99), unit=r.choice([1, 1000, 3600000]), ps=r.choice([0, 0, 16, -9]), vs=r.choice([0, 0, 9, -10]), cuts=[r.randint(1, n), r.randint(1, n)])


def run(ctx):
    r = ctx.rng
    ctx.rules.append("spec->code: every history of 5 (6) bars per feature over small bar alphabets and windows of 1-3 (TLC, exact rationals), with the default and with renamed columns beside decoys. "
                     "code->spec: seeded histories up to 120 bars and prefixes, windows up to 20; TLC gives the exact window sums. Non-trivial: distinct case.")
    ctx.assumptions += ["prices are powers of two so that logarithms are exact multiples of ln 2; z-scores of windows without variance are not judged",
                        "the first VPIN window without volume may be undefined or 0"]
    cases = ctx.mc("MC_Features", ctx.pick("MC_Features", "MC_Features_thorough"))
    for i, c in enumerate(cases):
        c.update(rename=i % 2, again=i % 3 == 0, type=["quote", "base"][i // 2 % 2], ikind=["hourly", "tz", "irregular"][i // 4 % 3], unit=[1, 1000, 3600000][i % 3],
                 ps=[0, 0, 16, -9][i // 3 % 4], vs=[0, 0, 9, -10][i // 5 % 4])
    ctx.sample(cases[len(cases) // 2])
    ctx.replay(check, cases, limit=ctx.pick(3000, 13000))
    ctx.replay(refuse, [dict(i=0)], kind="replay_refuse")
    g = [gen(r, KINDS[i % 12], i // 12 % 15 == 4) for i in range(ctx.pick(360, 3600))]
    evs = [[dict(e="start", cfg=c["cfg"], c=i)] + [dict(e="bar", x=b, c=i) for b in c["bars"]] + [dict(e="query", c=i)] for i, c in enumerate(g)]
    ans = ctx.oracle("Trace_Features", g, evs)
    for i, c in enumerate(g):
        c["out"] = ans[i][0]["out"]
    ctx.sample(dict(g[1], bars=g[1]["bars"][:8], out=g[1]["out"][:8]))
    ctx.replay(check, g, kind="replay_trace")
