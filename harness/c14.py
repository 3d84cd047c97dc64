"""C14: the trader's signals, bars, positions and closing decisions over sequences of calls."""
import math

import numpy as np
import pandas as pd

from .core import rat
from .labeling import DAY, vols
from .pipes import frozen, same_frames

OPS = ["signal", "bars", "position", "close"]
BOGUS = ["foo", "ALL", "", 1, True, "long "]


class Closing:
    def __init__(self, ans):
        self.ans, self.seen = ans, []

    def close_positions(self, X):
        self.seen.append(X)
        return self.ans


def concrete(d):
    """X-dict of one data set."""
    idx = pd.DatetimeIndex(pd.to_datetime([1614556800000 + t for t in d["t"]], unit="ms"))
    sig = d["sig"]
    num = lambda s, j: float("nan") if not s else s[j][0] / s[j][1]
    L = pd.DataFrame({"close": np.array(d["c"], dtype=float), "sd": [num(s, 0) for s in sig], "sz": [num(s, 1) for s in sig]}, index=idx)
    A = pd.DataFrame({"a": np.arange(len(idx)) * 1.0}, index=idx)
    if d["dup"] == "L":
        L = pd.concat([L, L.iloc[-1:]])
    if d["dup"] == "A":
        A = pd.concat([A.iloc[:1], A])
    if d.get("has"):   # names the trader writes elsewhere
        L["stop_loss"] = 123.0
        L["size"] = -5.0
    X = {"L": L, "A": A}
    return X if not d.get("order") else {"A": A, "L": L}


def signal_pipeline(closing):
    from mizarlabs.model.pipeline import StrategySignalPipeline

    class P(StrategySignalPipeline):
        def get_side_and_size(self, X_dict):
            L = X_dict["L"]
            return pd.DataFrame({"side": L["sd"], "size": L["sz"]}).dropna()

    kw = {} if closing is None else dict(closing_positions_model=closing)
    return P(feature_transformers_primary_model={"L": None, "A": None}, align_on="L", align_how={"A": "mean"}, **kw)


def ratio(x, v):
    """Barrier as a multiple of the volatility."""
    x = float(x)
    if math.isnan(v) or math.isnan(x):
        return [0, 0] if math.isnan(v) and math.isnan(x) else [7, 0]
    if abs(v) < 1e-7:
        return None if abs(x) < 1e-5 else [7, 0]
    return rat(x / v, 100, 1e-6)


def events(case):
    from mizarlabs.model.pipeline import StrategyTrader
    cfg = case["cfg"]
    closing = None if cfg["close"] == "nomodel" else Closing(
        None if cfg["close"] == "none" else case["bogus"] if cfg["close"] == "bogus" else cfg["close"])
    kw = dict(stop_loss_factor=cfg["sl"][0] / cfg["sl"][1], profit_taking_factor=cfg["pt"][0] / cfg["pt"][1])
    if not cfg["adj"] or case.get("order"):
        kw["volatility_adjusted_stop_loss"] = cfg["adj"]
    if case["span"] != 100:
        kw["volatility_window"] = case["span"]
    trader = StrategyTrader(signal_pipeline(closing), min_num_bars=3, num_expiration_bars=cfg["n"], **kw)
    data = []
    for d in case["data"]:
        v = vols(d["c"], d["refs"], case["span"])
        d["vv"] = v
        data.append(dict(dup=bool(d["dup"]), bars=[dict(v=not math.isnan(x), sig=s) for x, s in zip(v, d["sig"])]))
    ev = [dict(e="start", cfg=cfg, data=data)]
    Xs = [concrete(d) for d in case["data"]]
    for op, x in case["calls"]:
        d, X = case["data"][x - 1], Xs[x - 1]
        before = frozen(X)
        fn = dict(signal=trader.create_signal, bars=trader.create_strategy_bars, position=trader.create_position,
                  close=trader.determine_positions_to_close)[op]
        rows, ans = [], ""
        if closing:
            closing.seen.clear()
        try:
            out = fn(X)
            kind = "close" if op == "close" else "rows"
        except ValueError as e:
            kind, out = "error", None
        if kind == "close":
            ans = "none" if out is None else str(out)
            if closing and not (len(closing.seen) == 1 and same_frames(closing.seen[0], before)):
                ans = "model not consulted once with the data"
        elif kind == "rows":
            pos = {t: i for i, t in enumerate(X["L"].index)}
            for t, r in zip(out.index, out.to_dict("records")):
                i = pos.get(t, -1)
                row = dict(t=i + 1)
                if op != "signal":
                    v = d["vv"][i] if cfg["adj"] else 1.0
                    for nm, col in (("sl", "stop_loss"), ("pt", "profit_taking")):
                        q = ratio(r[col], v)
                        row[nm] = cfg[nm] if q is None else q
                    row["n"] = int(r["num_expiration_bars"])
                if op == "signal":
                    row.update(side=rat(r["side"], 2 ** 24), size=rat(r["size"], 2 ** 24))
                elif op == "position":
                    a, b = rat(r["side"], 2 ** 24), rat(r["size"], 2 ** 24)
                    row["sig"] = [] if a == [0, 0] and b == [0, 0] else [a, b]
                rows.append(row)
            want = {"signal": {"side", "size"}, "bars": {"stop_loss", "profit_taking", "num_expiration_bars"},
                    "position": {"side", "size", "stop_loss", "profit_taking", "num_expiration_bars"}}[op]
            if set(out.columns) != want or len(out.columns) != len(want):
                ans = "columns " + ",".join(map(str, out.columns))
        sv = trader.strategy_valid
        ev.append(dict(e="call", op=op, x=x, kind=kind, ans=ans, rows=rows, pure=same_frames(before, X),
                       valid="unknown" if sv is None else "yes" if sv else "no"))
    return ev


# what the data sets of MC_Trader look like to the caller
def fixed(r):
    def ds(sig, dup=None):
        n = len(sig)
        T, t = 0, []
        for _ in range(n):
            t.append(T)
            T += r.choice([DAY // 3, DAY, DAY + 1])
        return dict(t=t, c=[r.randint(50, 150) for _ in range(n)], sig=sig, dup=dup, order=r.random() < .5, has=r.random() < .3)
    q = lambda a, z: [[a, 1], z]
    return [ds([[], [], q(1, [1, 2]), [], q(-1, [1, 1]), []]), ds([[], q(1, [5, 4]), q(0, [0, 1])]),
            ds([q(2, [1, 4]), q(1, [1, 4])]), ds([[], q(-1, [-1, 8]), q(1, [1, 2])]), ds([[], []]),
            ds([q(1, [1, 2]), q(1, [1, 2])], dup=r.choice(["L", "A"]))]


def gen(r, n):
    out = []
    for i in range(n):
        data = []
        for _ in range(r.randint(1, 4)):
            m = r.choice([1, 2, 5, 10, 30]) if i % 50 != 7 else 150
            T, t = 0, []
            kind = r.choice([[3600000, 7200000], [DAY // 2], [DAY, DAY + 1, DAY - 1], [1000, DAY * 2, DAY // 3]])
            for _ in range(m):
                t.append(T)
                g = r.choice(kind)
                T += g if T + g < 2 * 10 ** 9 else 1000
            good = r.random() < .5
            z = lambda: r.choice([[0, 1], [1, 1], [1, 2], [3, 8]] if good else [[0, 1], [1, 1], [1, 2], [9, 8], [-1, 8], [1001, 1000], [2 ** 23 + 1, 2 ** 23], [-1, 2 ** 23]])
            s = lambda: r.choice([[-1, 1], [0, 1], [1, 1]] if good or r.random() < .7 else [[2, 1], [-3, 2], [1, 1], [-2 ** 23 - 1, 2 ** 23]])
            data.append(dict(t=t, c=[100] * m if r.random() < .1 else [r.randint(50, 150) for _ in range(m)],
                             sig=[[s(), z()] if r.random() < .6 else [] for _ in range(m)],
                             dup=r.choice([None] * 6 + ["L", "A"]), order=r.random() < .5, has=r.random() < .3))
        f = [[1, 1], [1, 2], [2, 1], [3, 2], [0, 1], [5, 1]]
        out.append(dict(cfg=dict(sl=r.choice(f), pt=r.choice(f), n=r.choice([1, 5, 100]), adj=r.random() < .6,
                                 close=r.choice(["nomodel", "none", "all", "long", "short", "bogus"])),
                        data=data, calls=[[r.choice(OPS), r.randint(1, len(data))] for _ in range(r.randint(1, 8))],
                        bogus=r.choice(BOGUS), span=r.choice([100, 1, 2, 5, 20]), order=r.random() < .5))
    return out


def judge(ctx, cases):
    sub = [(i, j) for i, c in enumerate(cases) for j in range(len(c["data"])) if "refs" not in c["data"][j]]
    dat = [cases[i]["data"][j] for i, j in sub]
    if dat:
        ans = ctx.oracle("Trace_DailyVol", dat, [[dict(e, c=k) for e in [dict(e="start", day=86400000)] + [dict(e="bar", t=t) for t in d["t"]] + [dict(e="query")]]
                                                 for k, d in enumerate(dat)])
        for k, d in enumerate(dat):
            d["refs"] = ans[k][0]["refs"]
    ctx.judge("Trace_Trader", cases, ctx.record(events, cases))


REPLAY = {"trace": judge}


def run(ctx):
    r = ctx.rng
    ctx.rules.append("spec->code: every sequence of three calls (signal, bars, position, close) on six kinds of data (valid, size too big, side too big, negative size, no signal, duplicated times) x volatility adjustment x closing model from TLC, sampled and run on the real trader. "
                     "code->spec: seeded sequences of up to 8 calls on up to 4 data sets. Every answer, the validity flag and the caller's frames are judged by TLC after every call. Non-trivial: distinct case.")
    ctx.assumptions += ["the pipeline's signal comes from a stand-in (C13 decides it)", "volatility is the one of C02 (reference bars from the DailyVol specification)", "both factors are numbers"]
    cases = ctx.mc("MC_Trader", ctx.pick("MC_Trader", "MC_Trader_thorough"))
    lim = ctx.pick(1500, 15000)
    fx = [fixed(r) for _ in range(6)]
    seqs = []
    for c in r.sample(cases, min(lim, len(cases))):
        seqs.append(dict(cfg=c["cfg"], calls=[[k["op"], k["x"]] for k in c["calls"]], data=r.choice(fx), bogus=r.choice(BOGUS),
                         span=r.choice([100, 2]), order=r.random() < .5))
    ctx.sample(dict(seqs[0], data="..."))
    g = gen(r, ctx.pick(400, 4000))
    judge(ctx, seqs + g)
