"""C15: bet sizes from probabilities, and their discretisation."""
import numpy as np
import pandas as pd

from . import bets as B
from .core import close
from .inputs import make_index


def index(case):
    kind = case.get("ikind", "hourly")
    if kind == "dup":
        i = make_index(len(case["rows"]), 1, "hourly")
        return pd.DatetimeIndex([i[k // 2] for k in range(len(i))])
    return make_index(len(case["rows"]), case.get("iseed", 0), kind)


def check(case):
    """Sizes against the specification's (c, z2) terms."""
    X = B.frame(case, index(case))
    before = X.copy(deep=True)
    b = B.sizer(case)
    got = b.transform(X)
    if case.get("again"):
        got = b.transform(X)
    if not X.equals(before) or list(X.columns) != list(before.columns):
        return dict(clause="the input is not modified")
    if not B.same_index(got.index, X.index):
        return dict(clause="rows keep their times", got=[str(t) for t in got.index][:5])
    for i, (g, o) in enumerate(zip(got, case["out"])):
        if not close(g, B.leaf(o), 1e-10) or not 0 <= g <= 1:
            return dict(clause="bet size", row=case["rows"][i], got=float(g), want=B.leaf(o))


def grid_events(case):
    """Discretised sizes (through the transformer or directly) as integers; TLC decides."""
    from mizarlabs.transformers.trading.bet_sizing import discretise_signal
    step = case["step"] / 10 ** 6
    if "x" in case:
        s = pd.Series([v / 10 ** 6 for v in case["x"]], index=make_index(len(case["x"]), 0, case.get("ikind", "hourly")))
        s0 = s.copy()
        g = discretise_signal(s, step)
        ok = s.equals(s0) and B.same_index(g.index, s.index)
        x, got, eps = case["x"], [B.milli(v) for v in g], 0
    else:
        X = B.frame(case, index(case))
        x0 = X.copy(deep=True)
        g = B.sizer(case, discretise=True, step_size=step).transform(X)
        ok = X.equals(x0) and B.same_index(g.index, X.index)
        x, got, eps = [B.micro(B.leaf(o)) for o in case["out"]], [B.milli(v) for v in g], 4
        ok = ok and all(v >= 0 for v in got)
    return [dict(e="grid", x=x, step=case["step"], got=got if ok else [99997] * len(got), eps=eps)]


def replay_grid(case):
    """Every x and step of MC_Grid on its own."""
    from mizarlabs.transformers.trading.bet_sizing import discretise_signal
    for x, ans in zip(case["xs"], case["ans"]):
        g = discretise_signal(pd.Series([x / 10 ** 6]), case["step"] / 10 ** 6)
        if B.milli(g.iloc[0]) not in ans:
            return dict(clause="nearest multiple of the step, three decimals, at most one", x=x, step=case["step"],
                        got=float(g.iloc[0]), want=ans)


def reject(case):
    from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities, discretise_signal
    for f in (lambda: BetSizingFromProbabilities(num_classes=2, discretise=True, step_size=case["step"]),
              lambda: discretise_signal(pd.Series([.5]), case["step"])):
        try:
            f()
        except Exception:
            continue
        return dict(clause="a step outside (0, 1) is refused", step=case["step"])


NAMES = [None, None, dict(prob="p", pred="label_hat", side="direction"), dict(prob="x", pred="pred", side="s")]
STEPS = [1000, 5000, 12500, 50000, 100000, 150000, 200000, 250000, 300000, 333333, 400000, 450000, 500000, 700000, 999000]


def gen(r, n):
    out = []
    for i in range(n):
        K = r.choice([2, 2, 3, 4, 5, 10])
        d = r.choice([10, 12, 60, 100, 1000])
        m = r.choice([1, 2, 5, 20, 60]) if i % 100 != 7 else 1200
        hot = r.random() < .2
        rows = [dict(n=r.choice([0, 1, d, d - 1]) if hot else r.randint(0, d), d=d, pred=r.choice([-1, 0, 1, 1]), side=r.choice([-1, 0, 1]))
                for _ in range(m)]
        out.append(dict(cfg=dict(K=K, meta=r.random() < .5), rows=rows, names=r.choice(NAMES), sidecol=r.random() < .5, floats=r.random() < .5,
                        rev=r.random() < .3, again=r.random() < .2, iseed=r.randint(0, 99),
                        ikind=r.choice(["hourly", "irregular", "tz", "rev", "dup"]), step=r.choice(STEPS)))
    return out


def judge(ctx, cases):
    with_rows = [c for c in cases if "rows" in c]
    ask = [[dict(e="start", cfg=c["cfg"], c=i)] + [dict(e="row", r=x, c=i) for x in c["rows"]] + [dict(e="query", c=i)]
           for i, c in enumerate(with_rows)]
    ans = ctx.oracle("Trace_BetSize", with_rows, ask)
    for i, c in enumerate(with_rows):
        c["out"] = ans[i][0]["out"]
    ctx.replay(check, with_rows, kind="trace")
    ctx.judge("Trace_BetSize", cases, ctx.record(grid_events, cases))


REPLAY = {"replay": check, "replay_grid": replay_grid, "replay_reject": reject, "trace": judge}


def run(ctx):
    r = ctx.rng
    ctx.rules.append("spec->code: every pair of rows (13 probabilities incl. 0, chance and 1; predictions and sides -1, 0, 1) for 2-4 classes and every x/step of the grid relation from TLC. "
                     "code->spec: seeded frames with renamed columns and decoys, sizes from TLC's exact squared statistics, discretised answers judged by TLC. Non-trivial: distinct case.")
    ctx.assumptions += ["the normal distribution function is evaluated by the harness (erf)", "predictions in {-1, 0, 1}", "a size within 2e-6 of a grid tie may go either way"]
    cases = ctx.mc("MC_BetSize", ctx.pick("MC_BetSize", "MC_BetSize_thorough"))
    ctx.sample(cases[77])
    ctx.replay(check, cases, limit=ctx.pick(4000, 40000))
    grid = ctx.mc("MC_Grid")
    by = {}
    for g in grid:
        by.setdefault(g["step"], []).append(g)
    ctx.replay(replay_grid, [dict(step=s, xs=[g["x"] for g in gs], ans=[g["ans"] for g in gs]) for s, gs in by.items()], kind="replay_grid")
    ctx.replay(reject, [dict(step=s) for s in (0, 1, 1.5, -.1, 2)], kind="replay_reject")
    g = gen(r, ctx.pick(400, 4000))
    for i in range(ctx.pick(100, 1000)):
        step = r.choice(STEPS)
        g.append(dict(step=step, ikind=r.choice(["hourly", "irregular", "tz"]),
                      x=[r.choice([r.randint(-10 ** 6, 10 ** 6), 1000 * r.randint(-1000, 1000), max(-10**6, min(10**6, step * r.randint(-9, 9) + r.choice([-10, 0, 10])))])
                         for _ in range(r.choice([1, 5, 30]))]))
    ctx.sample(g[3])
    judge(ctx, g)
