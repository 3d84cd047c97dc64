"""C18: rule-based strategies."""
import numpy as np
import pandas as pd

from .inputs import make_index

NA, NONE = 9, -2000000000
SETUPS = ("mr", "conf", "arr", "macd")


def build(cfg):
    from mizarlabs.transformers.technical.macd import MACDHistogramCrossOver
    from mizarlabs.transformers.technical.mean_reversion import MeanReversionStrategy
    from mizarlabs.transformers.technical.rsi import BarArrivalRSIStrategy, RSIConfirmation
    k = cfg["kind"]
    if k == "mr":
        return MeanReversionStrategy(cfg["thr"], cfg["n"])
    if k == "conf":
        return RSIConfirmation(cfg["n"], cfg["thr"], cfg["k"], cfg["w"])
    if k == "arr":
        return BarArrivalRSIStrategy(rsi_upper_threshold=cfg["hi"], rsi_lower_threshold=cfg["lo"], bar_arrival_upper_threshold=cfg["bhi"],
                                     bar_arrival_lower_threshold=cfg["blo"], rsi_timeperiod=cfg["n"], bar_arrival_fast_period=cfg["fast"],
                                     bar_arrival_slow_period=cfg["slow"], max_bar_arrival_mean_diff=cfg["max"])
    return MACDHistogramCrossOver(cfg["fast"], cfg["slow"], cfg["signal"], cfg.get("col", "close"))


def code(v):
    v = float(v)
    return NA if v != v else int(v) if v == int(v) else 7


def answers(cfg, xs, idx, again=False):
    col = cfg.get("col", "close")
    X = pd.DataFrame({"other": np.arange(len(xs)) % 3 + 50.0, col: [float(x) for x in xs]}, index=idx)
    if col != "close":
        X["close"] = 7.0
    before = X.copy(deep=True)
    s = build(cfg)
    if cfg["kind"] == "macd":
        if again:
            s.transform(X.iloc[: max(1, len(X) - 1)] * 2)
        a = np.asarray(s.fit(X).transform(X), dtype=float)
        pred, proba, ok = [code(2 * v) for v in a.ravel()], [], a.shape == (len(X), 1)
    else:
        if again:      # the strategy has seen other bars of the same times
            s.predict(X * 2) if len(X) % 2 else s.predict_proba(X.iloc[::-1].set_index(X.index))
            q = np.asarray(s.predict_proba(X), dtype=float)
            p = s.predict(X)
        else:
            p = s.predict(X)
            q = np.asarray(s.predict_proba(X), dtype=float)
        ok = q.ndim == 2 and (not isinstance(p, pd.Series) or p.index.equals(X.index))
        pred, proba = [code(v) for v in np.asarray(p)], [[code(v) for v in r] for r in q]
        ok = ok and [float(c) for c in s.classes_] == classes(cfg)
    return dict(pred=pred, proba=proba, pure=bool(X.equals(before)), ok=bool(ok))


def classes(cfg):
    return [-1.0, 0.0, 1.0] if cfg["kind"] == "mr" else [0.0, 1.0]


def q(r):
    return r[0] / r[1]


def replay(case):
    cfg = dict(case["cfg"])
    for k in ("thr", "lo", "hi", "blo", "bhi"):
        if k in cfg:
            cfg[k] = q(cfg[k])
    if "max" in cfg:
        cfg["max"] = int(q(cfg["max"]) * 1e9)
    gaps = np.cumsum([q(b["gap"]) for b in case["bars"]])
    idx = pd.Timestamp("2021-03-01") + pd.to_timedelta(gaps, unit="s")
    r = answers(cfg, [q(b["x"]) for b in case["bars"]], pd.DatetimeIndex(idx))
    want = case["out"]
    if not r["ok"]:
        return dict(clause="shape of the answer")
    if len(r["pred"]) != len(want) or any(p not in w for p, w in zip(r["pred"], want)):
        return dict(clause="the signal follows the rule", got=r["pred"], want=want)
    if cfg["kind"] != "macd" and r["proba"] != [[int(p == c) for c in classes(cfg)] for p in r["pred"]]:
        return dict(clause="probabilities are one-hot on the predicted class", got=r["proba"], pred=r["pred"])
    if not r["pure"]:
        return dict(clause="the input is not modified")


# ------------------------------------------------------------------ indicator formulas in floating point
def ema(xs, n):
    out = [None] * len(xs)
    if len(xs) >= n:
        e = sum(xs[:n]) / n
        out[n - 1] = e
        for i in range(n, len(xs)):
            e += (xs[i] - e) * 2 / (n + 1)
            out[i] = e
    return out


def rsi(xs, n):
    out = [None] * len(xs)
    ag = al = 0.0
    for i in range(1, len(xs)):
        d = xs[i] - xs[i - 1]
        if i <= n:
            ag += max(d, 0)
            al += max(-d, 0)
            if i == n:
                ag, al = ag / n, al / n
        else:
            ag, al = (ag * (n - 1) + max(d, 0)) / n, (al * (n - 1) + max(-d, 0)) / n
        if i >= n:
            out[i] = 0.0 if ag + al < 1e-14 else 100 * ag / (ag + al)
    return out


def macd(xs, fast, slow, signal):
    f = [None] * (slow - fast) + ema(xs[slow - fast:], fast)
    s = ema(xs, slow)
    line = [a - b for a, b in zip(f[slow - 1:], s[slow - 1:])]
    return ([None] * (slow - 1) + [None if g is None else v - g for v, g in zip(line, ema(line, signal))])[:len(xs)]


def scale(v, by):
    return NONE if v is None else int(round(max(-1.9e9, min(1.9e9, v * by))))


def events(case):
    cfg, xs = case["cfg"], [x * case.get("ps", 1) for x in case["xs"]]      # rules do not depend on the unit of prices
    idx = make_index(len(xs), case["iseed"], case["ikind"])
    k = cfg["kind"]
    tc = dict(kind=k, classes=[int(c) for c in classes(cfg)])
    if k == "mr":
        tc["thr"] = scale(cfg["thr"], 1e8)
        vals = [dict(v=NONE if e is None else scale((x - e) / e, 1e8)) for x, e in zip(xs, ema(xs, cfg["n"]))]
    elif k == "conf":
        tc.update(thr=scale(cfg["thr"], 1e6), k=cfg["k"], w=cfg["w"])
        vals, last, flat = [], None, 0
        for v in rsi(xs, cfg["n"]):
            flat = flat + 1 if v is not None and v == last and v in (0.0, 100.0) else 1
            last = v
            vals.append(dict(v=scale(v, 1e6), flat=flat))
    elif k == "arr":
        tc.update(lo=scale(cfg["lo"], 1e6), hi=scale(cfg["hi"], 1e6), blo=scale(cfg["blo"], 1e7), bhi=scale(cfg["bhi"], 1e7))
        g = np.diff(idx.asi8).astype(float)
        vals = []
        for i, v in enumerate(rsi(xs, cfg["n"])):
            d = None
            if i >= max(cfg["fast"], cfg["slow"]):
                d = (g[i - cfg["fast"]:i].mean() - g[i - cfg["slow"]:i].mean()) / cfg["max"]
            vals.append(dict(v=scale(v, 1e6), d=scale(d, 1e7)))
    else:
        vals = [dict(v=NONE if h is None else scale(h / xs[0], 1e9)) for h in macd(xs, cfg["fast"], cfg["slow"], cfg["signal"])]
    ev = [dict(e="start", cfg=tc)]
    done = 0
    n = len(xs)
    for cut in sorted({c for c in case["cuts"] if 2 <= c <= n} | {n}):
        ev += [dict(e="bar", **v) for v in vals[done:cut]]
        done = cut
        a = answers(cfg, xs[:cut], idx[:cut], case.get("again"))
        ev.append(dict(e="query", pred=a["pred"], proba=a["proba"], pure=a["pure"] and a["ok"]))
    return ev


def judge(ctx, cases):
    ctx.judge("Trace_Strategies", cases, ctx.record(events, cases))


REPLAY = {"replay": replay, "trace": judge}


def gen(r, i):
    k = SETUPS[i % 4]
    n = r.choice([2, 3, 8, 30, 90, 200]) if i % 100 not in (4, 5, 6, 7) else 600
    x, xs, kind = 100.0, [], r.choice(["walk", "calm", "trend", "steps", "fall"])
    for j in range(n):
        u = r.gauss(0, 1)
        x *= 1 + dict(walk=.01 * u, calm=.001 * u, trend=.003 + .006 * u, steps=r.choice([0, 0, .01, -.01]), fall=-.004 + .003 * u)[kind]
        xs.append(round(x, 4) if kind != "steps" else x)
    c = dict(xs=xs, ps=r.choice([1, 1, 1, 2.0 ** -14, 2.0 ** 14]), again=r.random() < .4, ikind=r.choice(["hourly", "irregular", "tz"]), iseed=r.randint(0, 999), cuts=[r.randint(2, max(2, n)) for _ in range(2)])
    if k == "mr":
        c["cfg"] = dict(kind=k, n=r.choice([2, 3, 5, 12]), thr=r.choice([0.0, .001, .004, .01, .03]))
    elif k == "conf":
        c["cfg"] = dict(kind=k, n=r.choice([2, 3, 6, 14]), thr=r.choice([30, 45, 50, 60, 80]), k=r.choice([1, 2, 3, 5]), w=r.choice([1, 2, 3, 6]))
    elif k == "arr":
        lo = r.choice([0, 10, 30, 45])
        b = r.choice([-1.0, -.2, -.01, 0.0, .05])
        c["cfg"] = dict(kind=k, n=r.choice([2, 3, 6, 14]), lo=lo, hi=lo + r.choice([10, 30, 60, 101]), blo=b, bhi=b + r.choice([.05, .3, 2.0]),
                        fast=r.choice([1, 2, 4]), slow=r.choice([1, 2, 5, 9]), max=r.choice([3600 * 10 ** 9, 10 ** 13, 86400 * 10 ** 9]))
        if r.random() < .6:
            c["ikind"] = "irregular"
    else:
        f = r.choice([2, 3, 5, 12])
        c["cfg"] = dict(kind=k, fast=f, slow=f + r.choice([0, 1, 3, 14]), signal=r.choice([2, 3, 9]), col=r.choice(["close", "vwap"]))
    return c


def run(ctx):
    r = ctx.rng
    ctx.rules.append("spec->code: every path of 7 bars over three closes for mean reversion, RSI confirmation and MACD, of 5 bars x gaps for bar arrival (TLC, exact indicators). "
                     "code->spec: seeded paths up to 200 bars and their prefixes, rules judged by TLC. Non-trivial: distinct case.")
    ctx.assumptions += ["indicator formulas are evaluated by the harness in floating point for recorded runs; bars within 2e-7 of a threshold may go either way"]
    allc = []
    for k in SETUPS:
        cases = ctx.mc("MC_Strategies", "MC_Strategies_%s%s" % (k, ctx.pick("", "_thorough")))
        ctx.count("cases_" + k, len(cases))
        ctx.sample(cases[len(cases) // 3])
        allc.append(cases)
    for cases in allc:
        ctx.replay(replay, cases, limit=ctx.pick(1500, 12000))
    judge(ctx, [gen(r, i) for i in range(ctx.pick(400, 4000))])
