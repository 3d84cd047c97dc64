"""C05: CUSUM filter."""
import numpy as np
import pandas as pd

from .inputs import make_index


def code_select(case):
    """Run the real filter on case: h, xs (integers), scale (dyadic), index kind."""
    from mizarlabs.transformers.sampling.down_sampling import CUSUMFilter
    sc = case.get("scale", 1)
    idx = make_index(len(case["xs"]), case.get("iseed", 0), case.get("ikind", "hourly"))
    dt = case.get("dtype", "float64")
    s = pd.Series((np.array(case["xs"], dtype=float) * sc + case.get("base", 0)).astype(dt), index=idx, name=case.get("name"))
    before = s.copy()
    f = CUSUMFilter(threshold=case["h"] * sc)
    out = f.transform(s)
    assert isinstance(out, pd.DatetimeIndex), type(out)
    pos = idx.get_indexer(out)
    if not before.equals(s):
        return None, "input modified"
    if case.get("again"):
        out2 = f.transform(s)
        if not out.equals(out2):
            return None, "second call differs"
    return [int(p) + 1 for p in pos], None


def replay(case):
    got, err = code_select(case)
    if err:
        return err
    if got != case["sel"]:
        return dict(clause="selected times", got=got, want=case["sel"])


def record(case):
    """Events of one case; prefix queries come from separate runs on the prefix."""
    n = len(case["xs"])
    cuts = sorted({k for k in case.get("cuts", []) if k <= n} | {n})
    ev = [dict(e="start", h=case["h"])]
    k = 0
    for cut in cuts:
        while k < cut:
            ev.append(dict(e="bar", x=case["xs"][k]))
            k += 1
        sub = dict(case, xs=case["xs"][:cut])
        got, err = code_select(sub)
        ev.append(dict(e="query", sel=got if err is None else [-1]))
    return ev


def gen(ctx, n):
    r = ctx.rng
    out = []
    for i in range(n):
        m = r.choice([0, 1, 2, 3, 5, 10, 30, 60, 120, 300, 1500])
        kind = r.choice(["walk", "jump", "flat", "big"])
        x, xs = r.randint(-50, 50), []
        for _ in range(m):
            if kind == "walk":
                x += r.randint(-3, 3)
            elif kind == "jump":
                x += r.choice([0, 0, 1, -1, 20, -20, 7, -7])
            elif kind == "flat":
                x += r.choice([0, 0, 0, 0, 1, -1])
            else:
                x = r.randint(-10**6, 10**6)
            xs.append(x)
        h = r.choice([0, 1, 2, 3, 5, 7, 10, 20]) if kind != "big" else r.choice([0, 10**5, 10**6])
        out.append(dict(h=h, xs=xs, scale=r.choice([1, 0.5, 0.25, 1 / 1024, 8]), ikind=r.choice(["hourly", "irregular", "daily", "tz", "rev"]),
                        iseed=r.randint(0, 10**6), cuts=[r.randint(0, m), r.randint(0, m)], again=r.random() < .3,
                        name=r.choice([None, "close"])))
        # the filter works on changes: a level far above them (exact in double precision) is no different
        if r.random() < .4:
            out[-1]["base"] = r.choice([1, -1]) * 2 ** r.choice([20, 30, 36])
        elif r.random() < .2:
            out[-1]["scale"] = r.choice([2.0 ** -40, 2.0 ** 30])
        if out[-1]["scale"] in (1, 8) and r.random() < .3:
            out[-1]["dtype"] = "int64"
    return out


def judge(ctx, cases):
    ctx.judge("Trace_Cusum", cases, ctx.record(record, cases))


REPLAY = {"replay": replay, "trace": judge}


def run(ctx):
    ctx.rules.append("spec->code: every integer series of length MaxLen over 0..MaxVal and every threshold (TLC, complete), compared with the real filter. "
                     "code->spec: seeded series up to 300 bars (dyadic scales, irregular/tz/int inputs, repeated calls, prefixes) judged step by step by TLC. Non-trivial: distinct case.")
    ctx.assumptions += ["values are dyadic so the float sums are exact", "unique index"]
    cases = ctx.mc("MC_Cusum", ctx.pick("MC_Cusum", "MC_Cusum_thorough"))
    ctx.sample(cases[len(cases) // 2])
    ctx.count("selected", sum(len(c["sel"]) for c in cases))
    ctx.replay(replay, cases, limit=ctx.pick(6000, 60000))
    g = gen(ctx, ctx.pick(400, 4000))
    ctx.sample(dict(g[7], xs=g[7]["xs"][:20]))
    judge(ctx, g)
