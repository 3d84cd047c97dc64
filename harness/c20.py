"""C20: structural breaks (SADF/SMT, Chu-Stinchcombe-White, Chow-type Dickey-Fuller)."""
import math

import numpy as np
import pandas as pd

from .core import close
from .inputs import make_index

SIDES = {1: "one_sided_positive", -1: "one_sided_negative", 0: "two_sided"}


def series(case, upto=None):
    n = len(case["ys"])
    idx = make_index(n, case.get("iseed", 0), case.get("ikind", "hourly"))
    s = pd.Series([float(v) * case.get("scale", 1) for v in case["ys"]], index=idx, name="x")
    return s.iloc[:upto]


def threads(case):
    import numba
    numba.set_num_threads(min(case.get("threads", 2), numba.config.NUMBA_NUM_THREADS))


def sadf(case, upto=None):
    """{1-based time: statistic}"""
    from mizarlabs.structural_breaks.sadf import SupremumAugmentedDickeyFullerStatTest
    threads(case)
    c = case["cfg"]
    lags = c["lags"]
    if case.get("count") and lags == list(range(1, len(lags) + 1)):
        lags = len(lags)
    elif not lags:
        lags = 0
    s = series(case, upto)
    before = s.copy(deep=True)
    r = SupremumAugmentedDickeyFullerStatTest(c["model"], lags, c["min"], c["const"], case.get("phi", 0.5)).run(s)
    if not s.equals(before):
        raise AssertionError("the input was modified /repo/")
    pos = s.index.get_indexer(r.index)
    return [(int(p) + 1, float(v)) for p, v in zip(pos, r.values)]


def csw(case, upto=None):
    from mizarlabs.structural_breaks.cusum_chu_stinchcome_white import ChuStinchcombeWhiteStatTest
    threads(case)
    s = series(case, upto)
    r = ChuStinchcombeWhiteStatTest(SIDES[case["cfg"]["side"]]).run(s)
    pos = s.index.get_indexer(r.index)
    return [(int(p) + 1, float(a), float(b)) for p, a, b in zip(pos, r["statistic"], r["critical_value"])]


def chow(case):
    from mizarlabs.structural_breaks.sdfc import SupremumDickeyFullerChowStatTest
    threads(case)
    s = series(case)
    r = SupremumDickeyFullerChowStatTest(case["cfg"]["m"]).run(s)
    pos = s.index.get_indexer(r.index)
    return [(int(p), float(v)) for p, v in zip(pos, r.values)]


def value(a):
    n, d = a["t2"]
    return a["sgn"] * math.sqrt(n / d)


def cmp_csw(got, want):
    if [g[0] for g in got] != [w["time"] for w in want]:
        return dict(clause="each statistic is indexed by its own time", got=[g[0] for g in got], want=[w["time"] for w in want])
    for (t, v, crit), w in zip(got, want):
        if not w["ok"]:
            continue
        if not close(v, value(w), 1e-9):
            return dict(clause="supremum of the standardised departure", t=t, got=v, want=value(w))
        if not any(close(crit, math.sqrt(4.6 + math.log(l)), 1e-9) for l in w["lags"]):
            return dict(clause="critical value of the maximising n", t=t, got=crit, want=[math.sqrt(4.6 + math.log(l)) for l in w["lags"]])


def cmp_chow(got, want):
    if [g[0] for g in got] != [w["at"] for w in want]:
        return dict(clause="one statistic per break, at its own time", got=[g[0] for g in got], want=[w["at"] for w in want])
    for (b, v), w in zip(got, want):
        if w["ok"] and not close(v, value(w), 1e-7):
            return dict(clause="t-statistic of the lagged level after the break", at=b, got=v, want=value(w))


def replay_csw(case):
    return cmp_csw(csw(case), case["csw"]) or cmp_chow(chow(case), case["chow"])


def replay_sadf(case):
    got, want = sadf(case), case["out"]
    if [g[0] for g in got] != [w["time"] for w in want]:
        return dict(clause="each statistic is indexed by its own time", got=[g[0] for g in got], want=[w["time"] for w in want])
    for (t, v), w in zip(got, want):
        if w["ok"] and not close(v, value(w), 1e-7):
            return dict(clause="supremum of the window statistics", t=t, got=v, want=value(w))


# ------------------------------------------------------------------ windows from the specification, regressions in floating point
def ols_t(X, y):
    n, k = X.shape
    q, r = np.linalg.qr(X)
    b = np.linalg.solve(r, q.T @ y)
    e = y - X @ b
    ri = np.linalg.inv(r)
    rss = e @ e
    return b[0] / math.sqrt(rss / (n - k) * (ri[0] @ ri[0])), rss / max(1e-300, ((y - y.mean()) ** 2).sum() + 1e-12), np.linalg.cond(X / np.linalg.norm(X, axis=0))


def judge_sadf(case):
    a, phi = case["answer"], case["phi"]
    X = np.array(a["X"], dtype=float)
    Y = np.array(a["Y"], dtype=float)
    if a["logx"]:
        X[:, 0] = np.log(X[:, 0])
    if a["logy"]:
        Y = np.log(Y * case.get("scale", 1))
    want = {}
    for o in a["out"]:
        best, ok = -math.inf, True
        for w in o["wins"]:
            s = w["start"] - 1
            t, rel, cond = ols_t(X[s:o["row"]], Y[s:o["row"]])
            if not rel > 1e-9 or cond > 1e5:
                ok = False
            best = max(best, abs(t) / w["pen"] ** phi if a["absolute"] else t)
        want[o["time"]] = best if ok else None
    for cut in sorted({c for c in case["cuts"]} | {len(case["ys"])}):
        got = sadf(case, cut)
        if [g[0] for g in got] != [t for t in sorted(want) if t <= cut]:
            return dict(clause="each statistic is indexed by its own time", got=[g[0] for g in got][:5], want=sorted(want)[:5], cut=cut)
        for t, v in got:
            if want[t] is not None and not close(v, want[t], 1e-6, 1e-4):
                return dict(clause="supremum of the window statistics", t=t, cut=cut, got=v, want=want[t])


def judge_csw(case):
    a = case["answer"]
    for cut in sorted({c for c in case["cuts"]} | {len(case["ys"])}):
        bad = cmp_csw(csw(case, cut), [w for w in a["csw"] if w["time"] <= cut])
        if bad:
            return dict(bad, cut=cut)
    return cmp_chow(chow(case), a["chow"])


def trace(ctx, module, fn, cases, kind):
    evs = [[dict(e="start", cfg=c["cfg"], c=i)] + [dict(e="bar", y=y, c=i) for y in c["ys"]] + [dict(e="query", c=i)] for i, c in enumerate(cases)]
    ans = ctx.oracle(module, cases, evs)
    for i, c in enumerate(cases):
        c["answer"] = ans[i][0]
    ctx.replay(fn, cases, kind=kind)


REPLAY = {"replay": replay_csw, "replay_sadf": replay_sadf, "replay_tsadf": judge_sadf, "replay_tcsw": judge_csw}

MODELS = ("no_trend", "linear", "quadratic", "sm_poly_1", "sm_poly_2", "sm_exp", "sm_power")


def path(r, n, lo, hi):
    x, ys, up = r.randint(lo + 2, hi - 2), [], 1
    for j in range(n):
        if r.random() < .08:
            up = -up
        x += r.choice([-2, -1, 1, 2, up, 2 * up])
        x = max(lo, min(hi, x))
        ys.append(x)
    return ys


def run(ctx):
    r = ctx.rng
    ctx.rules.append("spec->code: every integer series of 5-7 values (TLC): exact SADF statistics by Gram determinants for five specifications, CSW for three sides, Chow for two minimum sizes. "
                     "code->spec: seeded series up to 50 values and prefixes, all seven models, lag counts and lists, thread counts; TLC enumerates rows, regressors, windows and penalties, the harness evaluates the regressions. Non-trivial: distinct case.")
    ctx.assumptions += ["every competing window has a regular regression with residual variance (others have no t-statistic); CSW is judged from the first change on"]
    w = dict(ys=[3, 5, 4, 6, 8, 7, 9, 8, 11, 10, 12, 14, 13, 15], cfg=dict(model="linear", lags=[1], min=6, const=True, side=0, m=2))
    ready = ctx.warm(lambda: (csw(w), chow(w), sadf(w), sadf(dict(w, cfg=dict(w["cfg"], model="no_trend", lags=[], const=False)))))
    cases = ctx.mc("MC_Sadf", ctx.pick("MC_Sadf", "MC_Sadf_thorough"))
    ready()
    for i, c in enumerate(cases):
        c.update(scale=[1, .5, 3, .1][i % 4], ikind=["hourly", "tz", "irregular"][i % 3], threads=1 + i % 4, count=i % 2, phi=[0.0, .5, 1.0][i % 3])
    ctx.sample(cases[len(cases) // 2])
    ctx.replay(replay_sadf, cases, kind="replay_sadf", limit=ctx.pick(1200, 12000))
    cases = ctx.mc("MC_Csw", ctx.pick("MC_Csw", "MC_Csw_thorough"))
    for i, c in enumerate(cases):
        c.update(scale=[1, .5, 3, .1][i % 4], ikind=["hourly", "tz", "irregular"][i % 3], threads=1 + i % 4)
    ctx.sample(cases[len(cases) // 2])
    ctx.replay(replay_csw, cases, limit=ctx.pick(1500, 15000))
    g = []
    for i in range(ctx.pick(84, 1000)):
        m = MODELS[i % 7]
        lags = r.choice([[], [1], [1, 2], [2], [3, 1], [4]])
        const = r.random() < .6
        k = dict(no_trend=1, linear=2, quadratic=3).get(m, 3) + (len(lags) + const if m in MODELS[:3] else 0)
        mn = max(k + r.choice([2, 3, 6, 10]), max(lags + [0]) + 1)
        n = mn + max(lags + [0]) + 2 + r.choice([1, 2, 10, 25]) + (50 if i % 42 == 7 else 0)
        g.append(dict(cfg=dict(model=m, lags=lags, min=mn, const=const), ys=path(r, n, 20, 60), phi=r.choice([0.0, .3, .5, 1.0]), threads=r.choice([1, 2, 4]), count=r.random() < .6,
                      scale=r.choice([1, 1, .125]), ikind=r.choice(["hourly", "irregular", "tz"]), iseed=r.randint(0, 99), cuts=[r.randint(mn + max(lags + [0]) + 2, n)]))
    trace(ctx, "Trace_Sadf", judge_sadf, g, "replay_tsadf")
    g = []
    for i in range(ctx.pick(150, 1500)):
        n = r.choice([3, 8, 20, 50]) if i % 75 != 7 else 130
        m = r.randint(1, max(1, n // 2 - 1))
        ys = path(r, n, 1, 30)
        g.append(dict(cfg=dict(side=r.choice([-1, 0, 1]), m=m), ys=ys, threads=r.choice([1, 2, 4]), scale=r.choice([1, 1, .125]),
                      ikind=r.choice(["hourly", "irregular", "tz"]), iseed=r.randint(0, 99), cuts=[r.randint(2, n)]))
    trace(ctx, "Trace_Csw", judge_csw, g, "replay_tcsw")
