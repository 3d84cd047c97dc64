"""C26: log-uniform search distributions."""
import copy
import math

import numpy as np
import pandas as pd

from .core import rat

GRAIN, SHARES = 4, 8


def num(case, k):
    return case.get("unit", 1) * case.get("base", 2.0) ** (k / GRAIN)


def exponent(case, x):
    return math.log(x / case.get("unit", 1)) / math.log(case.get("base", 2.0)) * GRAIN


def make(case, o):
    from mizarlabs.model.model_selection import log_uniform
    a, b = num(case, o["lo"]), num(case, o["hi"])
    if case.get("default"):        # a range from 1 to e unless told otherwise
        kw = dict(a=a) if o["lo"] else {}
        return log_uniform(**kw) if o["hi"] == GRAIN else log_uniform(b=b, **kw)
    if case.get("whole") and a == int(a) and b == int(b):
        a, b = int(a), int(b)
    return [log_uniform(a, b), log_uniform(a=a, b=b)][o["hi"] % 2]


def forms(case, x, how):
    """The same question put about one number, about numbers in an array or a series."""
    return {0: lambda: x, 1: lambda: np.array([x, x]), 2: lambda: [x], 3: lambda: pd.Series([x, x])}[how % 4]()


def first(v):
    v = np.atleast_1d(np.asarray(v, dtype=float))
    if not (v == v[0]).all():
        raise AssertionError("the answer depends on the position /repo/")
    return float(v[0])


def answer(case, d, q, how=0):
    if q["m"] == "mass":
        return rat(first(d.cdf(forms(case, num(case, q["k"]), how))) - first(d.cdf(forms(case, num(case, q["j"]), how))))
    if q["m"] == "ppf":
        x = first(d.ppf(forms(case, q["u"][0] / q["u"][1], how)))
        return round(exponent(case, x) * 10 ** 6)
    return rat(first(getattr(d, q["m"])(forms(case, num(case, q["k"]), how))))


def replay(case):
    ds = [make(case, o) for o in case["objs"]]
    for n, e in enumerate(case["log"]):
        got, want = answer(case, ds[e["i"] - 1], e["q"], n + case.get("how", 0)), e["ans"]
        ok = abs(got * want[1] - want[0] * 10 ** 6) <= 100 * want[1] if e["q"]["m"] == "ppf" else got == want
        if not ok:
            return dict(clause="probability in proportion to the share of the log range", ask=e["q"], of=case["objs"][e["i"] - 1], got=got, want=want)


def draws(case, d, s):
    """What the given random state makes the distribution draw."""
    state = {"seed": lambda: s["seed"], "state": lambda: np.random.RandomState(s["seed"]), "sampler": lambda: s["seed"]}[s["kind"]]()
    if s["kind"] == "sampler":
        from sklearn.model_selection import ParameterSampler
        return np.array([p["C"] for p in ParameterSampler({"C": d}, s["size"], random_state=state)])
    return np.asarray(d.rvs(size=s["size"], random_state=state))


def record(case):
    ev, ds, objs = [dict(e="start")], [], []
    for n, s in enumerate(case["steps"]):
        if s["e"] == "make":
            ds.append(make(case, s))
            objs.append(s)
            ev.append(dict(e="make", lo=s["lo"], hi=s["hi"]))
        elif s["e"] == "ask":
            ev.append(dict(e="ask", i=s["i"], q=s["q"], got=answer(case, ds[s["i"] - 1], s["q"], n)))
        else:
            o, d = objs[s["i"] - 1], ds[s["i"] - 1]
            x = draws(case, d, s)
            other = {0: d, 1: copy.deepcopy(d), 2: make(case, o)}[n % 3]
            np.random.seed(n)
            again = draws(case, other, s)
            a, b = num(case, o["lo"]), num(case, o["hi"])
            share = [(exponent(case, v) - o["lo"]) / (o["hi"] - o["lo"]) for v in x if v > 0]
            counts = [0] * SHARES
            for v in share:
                counts[min(SHARES - 1, max(0, int(v * SHARES)))] += 1
            ev.append(dict(e="draw", i=s["i"], n=int(x.size), size=s["size"], counts=counts, again=bool(np.array_equal(x, again)),
                           inside=bool((x >= a * (1 - 1e-12)).all() and (x <= b * (1 + 1e-12)).all())))
    return ev


def judge(ctx, cases):
    ctx.judge("Trace_LogUniform", cases, ctx.record(record, cases))


REPLAY = {"replay": replay, "trace": judge}
DRESS = [dict(), dict(base=math.e, default=True), dict(base=10.0, unit=.001), dict(base=1.5, unit=7.5), dict(base=2.0 ** 4, whole=True), dict(unit=2.0 ** -12)]


def run(ctx):
    r = ctx.rng
    ctx.rules.append("spec->code: every pair of ranges and every question about a place on, inside or outside them (TLC: exact shares), under six units and bases, asked of numbers, lists, arrays and series. "
                     "code->spec: seeded histories of distributions, questions and draws (counts per share of the log range, repeated draws, copies, scikit-learn's sampler) judged by TLC. Non-trivial: distinct case.")
    ctx.assumptions += ["0 < a < b", "counts of draws within six standard deviations"]
    cases = ctx.mc("MC_LogUniform", ctx.pick("MC_LogUniform", "MC_LogUniform_thorough"))
    for i, c in enumerate(cases):
        c.update(DRESS[i % len(DRESS)], how=i % 5)
    ctx.sample(cases[len(cases) // 2])
    ctx.replay(replay, cases, limit=ctx.pick(6000, 60000))
    g = []
    for i in range(ctx.pick(120, 1200)):
        d = DRESS[i % len(DRESS)]
        steps, objs = [], []
        for _ in range(r.choice([4, 8, 14])):
            k = r.random()
            if not objs or (k < .2 and len(objs) < 4):
                lo = r.choice([0, 0, r.randint(-12, 12)])
                hi = lo + r.choice([1, 4, 4, 8, 30, r.randint(1, 60 if d.get("base", 2) < 10 else 20)])
                objs.append((lo, hi))
                steps.append(dict(e="make", lo=lo, hi=hi))
                continue
            j = r.randrange(len(objs))
            lo, hi = objs[j]
            if k < .8:
                m = r.choice(["cdf", "cdf", "sf", "mass", "ppf"])
                q = dict(m=m)
                if m == "ppf":
                    q["u"] = r.choice([[0, 1], [1, 1], [1, 2], [r.randint(1, 63), 64], [r.randint(1, 9), 10]])
                else:
                    q["k"] = r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi), lo - r.randint(1, 9), hi + r.randint(1, 9)])
                if m == "mass":
                    q["j"], q["k"] = sorted([r.randint(lo, hi), r.randint(lo, hi)])
                steps.append(dict(e="ask", i=j + 1, q=q))
            else:
                kind = r.choice(["seed", "state", "state", "sampler"])
                steps.append(dict(e="draw", i=j + 1, kind=kind, seed=r.randint(0, 10 ** 6), size=r.choice([1, 3, 20]) if kind == "sampler" else r.choice([1, 5, 150, 400])))
        g.append(dict(d, steps=steps))
    ctx.sample(g[3])
    judge(ctx, g)
