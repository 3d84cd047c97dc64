"""C17: moving-average crossover."""
import numpy as np
import pandas as pd

from .inputs import make_index

HOLE = 99999


def signals(case, upto=None):
    from mizarlabs.transformers.technical.moving_average import MovingAverageCrossOver, MovingAverageCrossOverPredictor
    hole = case.get("hole", HOLE)
    xs = case["xs"][:upto]
    v = [float("nan") if x == hole else x * case.get("scale", 1) for x in xs]
    if case.get("ints") and not any(x != x for x in v):
        v = [int(x) for x in xs]
    col = case.get("col", "close")
    X = pd.DataFrame({col: v, "noise": np.arange(len(v))[::-1] * 3.0}, index=make_index(len(v), case.get("iseed", 0), case.get("ikind", "hourly")))
    if col != "close":
        X["close"] = 5.0
    before = X.copy(deep=True)
    res = []
    for fill in (False, True):
        kw = dict(fill_between_crossovers=True) if fill else {}
        tr = MovingAverageCrossOver(case["cfg"]["fast"], case["cfg"]["slow"], col, **kw)
        a = tr.transform(X)
        if case.get("again"):
            a = tr.fit(X).transform(X)
        p = MovingAverageCrossOverPredictor(case["cfg"]["fast"], case["cfg"]["slow"], col, **kw)
        if case.get("other"):      # the predictor has seen other bars of the same times
            p.predict(X.iloc[::-1].set_index(X.index))
            q, b = p.predict_proba(X), p.predict(X)
        else:
            b, q = p.predict(X), p.predict_proba(X)
        i = lambda x: [int(k) if k == k and k == int(k) else 7 for k in np.asarray(x, dtype=float).ravel()]
        ok = np.asarray(a).shape == (len(X), 1) and np.asarray(q).shape == (len(X), 3)
        res.append(dict(fill=fill, sig=i(a), pred=i(b), proba=[i(r) for r in np.asarray(q)],
                        pure=bool(X.equals(before) and ok)))
    return res


def replay(case):
    for r in signals(case):
        want = [o["fill" if r["fill"] else "cross"] for o in case["out"]]
        if r["sig"] != want or r["pred"] != want:
            return dict(clause="crossing signal", fill=r["fill"], got=[r["sig"], r["pred"]], want=want)
        if r["proba"] != [[int(w == c) for c in (-1, 0, 1)] for w in want]:
            return dict(clause="probabilities are one-hot on the predicted class", got=r["proba"], want=want)
        if not r["pure"]:
            return dict(clause="the input is not modified / shape")


def events(case):
    n = len(case["xs"])
    ev = [dict(e="start", cfg=case["cfg"])]
    k = 0
    for cut in sorted({c for c in case.get("cuts", []) if 0 < c <= n} | {n}):
        ev += [dict(e="bar", x=x) for x in case["xs"][k:cut]]
        k = cut
        ev += [dict(e="query", **r) for r in signals(case, cut)]
    return ev


def judge(ctx, cases):
    ctx.judge("Trace_MaCross", cases, ctx.record(events, cases))


def reject(case):
    from mizarlabs.transformers.technical.moving_average import MovingAverageCrossOver, MovingAverageCrossOverPredictor
    for cls in (MovingAverageCrossOver, MovingAverageCrossOverPredictor):
        try:
            cls(case["fast"], case["slow"], "close")
            ok = True
        except ValueError:
            ok = False
        if ok != (case["fast"] <= case["slow"]):
            return dict(clause="a fast window longer than the slow one is refused", cls=cls.__name__)


REPLAY = {"replay": replay, "trace": judge, "replay_reject": reject}


def run(ctx):
    r = ctx.rng
    ctx.rules.append("spec->code: every series of 6-7 values over three levels and a gap, for four to six window pairs (TLC), both with and without filling, transformer and predictor. "
                     "code->spec: seeded series up to 250 bars and prefixes of them judged by TLC. Non-trivial: distinct case.")
    ctx.assumptions += ["integer or dyadic values, so that equal averages are equal in floating point"]
    cases = ctx.mc("MC_MaCross", ctx.pick("MC_MaCross", "MC_MaCross_thorough"))
    for i, c in enumerate(cases):
        c.update(hole=99, other=i % 3 == 0, ikind=["hourly", "irregular", "tz", "daily"][i % 4], ints=i % 2)
    ctx.sample(cases[5000])
    ctx.replay(replay, cases, limit=ctx.pick(2500, 25000))
    ctx.replay(reject, [dict(fast=f, slow=s) for f in (1, 2, 3, 7, 20) for s in (1, 2, 3, 6, 7, 8, 21)], kind="replay_reject")
    g = []
    for i in range(ctx.pick(300, 3000)):
        n = r.choice([1, 2, 3, 5, 10, 40, 120, 250]) if i % 50 != 7 else 500
        x, xs, kind = 50, [], r.choice(["walk", "flat", "jump"])
        for _ in range(n):
            x += r.randint(-3, 3) if kind == "walk" else r.choice([0, 0, 0, 1, -1]) if kind == "flat" else r.choice([0, 0, 8, -8])
            xs.append(HOLE if r.random() < (.03 if i % 4 == 0 else 0) else x)
        f = r.choice([1, 1, 2, 3, 5, 12])
        if i % 50 == 7:
            f = r.choice([20, 60])
        g.append(dict(cfg=dict(fast=f, slow=f + r.choice([0, 1, 1, 2, 5, 14, 100])), xs=xs, scale=r.choice([1, .5, .25, 16, 2.0 ** -24, 2.0 ** 24]), again=r.random() < .3, other=r.random() < .3,
                      ikind=r.choice(["hourly", "irregular", "tz", "rev"]), iseed=r.randint(0, 99), col=r.choice(["close", "price"]),
                      cuts=[r.randint(1, n), r.randint(1, n)]))
    ctx.sample(dict(g[3], xs=g[3]["xs"][:20]))
    judge(ctx, g)
