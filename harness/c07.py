"""C07: sample weights by return and by time decay."""
import math

from . import uniq as U
from .core import close, unrat

LN2 = math.log(2)


def replay(case):
    c = dict(case, bars=[], unit="h", close=[2.0 ** x for x in case["xs"]])
    w, pure = U.ret_weights(c)
    want = [unrat(x) * LN2 for x in case["w"]]
    if len(w) != len(want) or not all(close(a, b) for a, b in zip(w, want)):
        return dict(clause="return weights", got=[x / LN2 for x in w], want=case["w"])
    if not pure:
        return dict(clause="return weights: rows and input untouched")
    for d, dw in zip(case["ds"], case["decay"]):
        g, pure = U.decay(c, unrat(d))
        if not all(close(a, unrat(b)) for a, b in zip(g, dw)):
            return dict(clause="time decay", d=d, got=g, want=dw)
        if not pure:
            return dict(clause="time decay: rows and input untouched")


def check_ret(case):
    w, pure = U.ret_weights(case)
    c = case["close"]
    rets = [math.nan] + [math.log(b / a) if a == a and b == b else math.nan for a, b in zip(c, c[1:])]
    for i, terms in enumerate(case["terms"]):
        want = abs(math.fsum(rets[k - 1] / n for k, n in terms if rets[k - 1] == rets[k - 1]))
        if not close(w[i], want):
            return dict(clause="return weights", event=i + 1, got=w[i], want=want, terms=terms)
    if not pure or len(w) != len(case["terms"]):
        return dict(clause="return weights: rows and input untouched")


def check_decay(case):
    order = sorted(range(len(case["evs"])), key=lambda i: case["evs"][i]["s"])
    u = [sum(1.0 / k for k in case["conc"][i]) / len(case["conc"][i]) for i in order]
    tot, cum, d = math.fsum(u), 0.0, case["d"]
    got, pure = U.decay(case, d)
    for k, x in enumerate(u):
        cum += x
        f = cum / tot
        want = max(0.0, d + (1 - d) * f if d >= 0 else (d + f) / (1 + d))
        if not close(got[k], want, 1e-8):
            return dict(clause="time decay", d=d, event=k + 1, got=got[k], want=want)
        if got[k] < 0:
            return dict(clause="time decay never negative", d=d, event=k + 1, got=got[k])
    if not pure or len(got) != len(u):
        return dict(clause="time decay: rows and input untouched")


def judge(ctx, cases):
    ev = [[dict(e, c=i) for e in U.build_events(c, False) + [dict(e="weights")]] for i, c in enumerate(cases)]
    ans = ctx.oracle("Trace_Concurrency", cases, ev)
    for i, c in enumerate(cases):
        c["conc"], c["terms"] = ans[i][0]["conc"], ans[i][0]["terms"]
    ctx.replay(check_ret, [c for c in cases if "close" in c], kind="trace")
    ctx.replay(check_decay, [c for c in cases if "d" in c], kind="trace")


REPLAY = {"replay": replay, "trace": judge}


def run(ctx):
    ctx.rules.append("spec->code: every choice of end times (on and off bars) and base-2 log prices of 4 rows from TLC, weights as exact fractions of ln 2, and seven decay parameters. "
                     "code->spec: seeded event sets up to 25 rows; TLC answers the concurrency terms of every weight, the harness only sums them. Non-trivial: distinct case.")
    ctx.assumptions += ["logarithms and the final sums are evaluated by the harness", "rows in time order for return weights"]
    cases = ctx.mc("MC_Weights", ctx.pick("MC_Weights", "MC_Weights_thorough"))
    ctx.sample(cases[0])
    ctx.replay(replay, [c for c in cases if c["decay"]])
    ctx.replay(replay, cases, limit=ctx.pick(3000, 30000))
    r = ctx.rng
    g = U.gen(ctx, ctx.pick(400, 5000), sort=True)
    for c in g:
        x, cl = 100.0, []
        for _ in c["evs"]:
            x *= math.exp(r.gauss(0, .05))
            cl.append(x if r.random() > .05 else math.nan)
        c["close"] = cl
        if r.random() < .3:
            c["cname"] = "price"
    h = U.gen(ctx, ctx.pick(400, 5000))
    for c in h:
        c["d"] = r.choice([1, 1.0, .5, .25, .1, 0, 0.0, -.1, -.25, -.5, -.9, -.96, -.999, .999, r.uniform(-.99, 1)])
    ctx.sample(h[2])
    judge(ctx, g + h)
