"""C16: averaging the bets that are open."""
import numpy as np
import pandas as pd

from . import bets as B
from .core import close, rat
from .pipes import UNIT, stamps

T0 = pd.Timestamp("2021-03-01").value


def ends(es, unit, tz=None):
    u = UNIT[unit]
    return pd.DatetimeIndex(pd.to_datetime([pd.NaT if e == 0 else pd.Timestamp(T0 + e * u) for e in es])).tz_localize(tz)


def table(case, order=None):
    bs = case["bets"]
    order = order or list(range(len(bs)))
    bs = [bs[i] for i in order]
    unit = case.get("unit", "h")
    col, zc = case.get("ecol", "event_end_time"), case.get("zcol", "bet_size")
    df = pd.DataFrame({zc: [b["z"][0] / b["z"][1] for b in bs], col: ends([b["e"] for b in bs], unit, case.get("tz"))},
                      index=stamps([b["s"] for b in bs], unit, case.get("tz")))
    if case.get("extra"):
        df["other"] = 7.0
        if zc != "bet_size":
            df["bet_size"] = 99.0
        if col != "event_end_time":
            df["event_end_time"] = df.index
    return df, col, zc


def back(index, unit):
    u = UNIT[unit]
    return [int((pd.Timestamp(t).value - T0) // u) if (pd.Timestamp(t).value - T0) % u == 0 else -7 for t in index]


def average(case, order=None):
    """[{t, v}] of one direct call; None if the frame was modified or calls / thread counts differ."""
    import numba
    from mizarlabs.transformers.trading.bet_sizing import avg_active_signals
    df, col, zc = table(case, order)
    before = df.copy(deep=True)
    kw = {}
    if col != "event_end_time":
        kw["event_end_time_column_name"] = col
    if zc != "bet_size":
        kw["bet_size_column_name"] = zc
    outs = []
    for th in case.get("threads", [2]):
        numba.set_num_threads(min(th, numba.config.NUMBA_NUM_THREADS))
        outs.append(avg_active_signals(df, **kw))
    ok = df.equals(before) and str(outs[0].index.tz) == str(case.get("tz")) and all(o.equals(outs[0]) for o in outs)
    o = outs[0]
    return [dict(t=t, v=rat(v)) for t, v in zip(back(o.index, case.get("unit", "h")), o.values)], ok


def shuffled(case):
    import random
    order = list(range(len(case["bets"])))
    random.Random(case.get("oseed", 0)).shuffle(order)
    return order


def replay(case):
    want = [dict(t=o["t"], v=o["mean"]) for o in case["out"]]
    for order in (None, shuffled(case)):
        got, ok = average(case, order)
        if got != want:
            return dict(clause="average of the open bets", order=order, got=got, want=want)
        if not ok:
            return dict(clause="the input is not modified, the times keep their zone")


def events(case):
    ev = []
    for order in (None, shuffled(case)):
        got, ok = average(case, order)
        n = len({b["s"] for b in case["bets"]} | {b["e"] for b in case["bets"]} - {0})
        ev += [dict(e="start", bets=case["bets"])] + [dict(e="tick")] * n + [dict(e="query", rows=got, pure=ok)]
    return ev


# ---- through the transformer
def run_sizer(case, **extra):
    unit = case.get("unit", "h")
    ix = stamps([b["s"] for b in case["bets"]], unit, case.get("tz"))
    X = B.frame(case, ix, ends([b["e"] for b in case["bets"]], unit, case.get("tz")))
    before = X.copy(deep=True)
    kw = dict(extra)
    if case.get("zcol"):
        kw["bet_size_column_name"] = case["zcol"]
    s = B.sizer(case, average_active=True, **kw)
    got = s.transform(X)
    if case.get("again"):
        assert s.transform(X).equals(got)
    return got, X.equals(before) and str(got.index.tz) == str(case.get("tz"))


def signed(case):
    return [B.leaf(o) * o["s"] for o in case["out"]]


def means(case):
    z = signed(case)
    return [sum(z[i - 1] for i in a["on"]) / len(a["on"]) if a["on"] else 0.0 for a in case["active"]]


def check_sizer(case):
    got, pure = run_sizer(case)
    if back(got.index, case.get("unit", "h")) != [a["t"] for a in case["active"]]:
        return dict(clause="one row per distinct time, in order", got=back(got.index, case.get("unit", "h")))
    for a, g, w in zip(case["active"], got, means(case)):
        if not close(g, abs(w), 1e-9):
            return dict(clause="average of the open bets", t=a["t"], open=a["on"], got=float(g), want=abs(w))
    if not pure:
        return dict(clause="the input is not modified")


def grid_events(case):
    if not case.get("step"):
        return []
    got, pure = run_sizer(case, discretise=True, step_size=case["step"] / 10 ** 6)
    return [dict(e="grid", x=[B.micro(abs(w)) for w in means(case)], step=case["step"], eps=4,
                 got=[B.milli(v) for v in got] if pure and (got >= 0).all() else [99997] * len(got))]


def judge(ctx, cases):
    direct = [c for c in cases if "rows" not in c]
    ctx.judge("Trace_ActiveBets", direct, ctx.record(events, direct))
    sz = [c for c in cases if "rows" in c]
    if sz:
        a = ctx.oracle("Trace_BetSize", sz, [[dict(e="start", cfg=c["cfg"], c=i)] + [dict(e="row", r=x, c=i) for x in c["rows"]] +
                                             [dict(e="query", c=i)] for i, c in enumerate(sz)])
        b = ctx.oracle("Trace_ActiveBets", sz, [[dict(e="start", c=i, bets=[dict(x, z=[0, 1]) for x in c["bets"]])] +
                       [dict(e="tick", c=i)] * len({x["s"] for x in c["bets"]} | {x["e"] for x in c["bets"]} - {0}) +
                       [dict(e="ask", c=i)] for i, c in enumerate(sz)])
        for i, c in enumerate(sz):
            c["out"], c["active"] = a[i][0]["out"], b[i][0]["out"]
        ctx.replay(check_sizer, sz, kind="trace")
        ctx.judge("Trace_BetSize", sz, ctx.record(grid_events, sz))


def gen_bets(r, big=False, long=False):
    if long:      # a long history of short bets
        t, bs = 0, []
        for _ in range(700):
            t += r.choice([2, 3, 5])
            bs.append(dict(s=t, e=t + r.choice([1, 2, 6, 13]), z=r.choice([[-1, 1], [1, 1], [1, 2], [0, 1]])))
        return bs
    n = 300 if big else r.choice([1, 2, 3, 6, 12, 25])
    H = r.choice([3, 8, 30])
    bs = []
    for _ in range(n):
        s = r.randint(1, H)
        kind = r.random()
        e = 0 if kind < .2 else s if kind < .25 else max(1, s - 1) if kind < .3 else s + r.randint(1, r.choice([1, 3, H]))
        bs.append(dict(s=s, e=e, z=r.choice([[-1, 1], [1, 1], [1, 2], [-1, 4], [3, 8], [0, 1]])))
    if r.random() < .15:
        for b in bs:
            b["e"] = 0
    if r.random() < .5:
        bs.sort(key=lambda b: b["s"])
    return bs


def gen(r, n):
    out = []
    for i in range(n):
        bs = gen_bets(r, i % 100 in (7, 8), i % 400 in (20, 21))
        case = dict(bets=bs, unit=r.choice(["h", "ms", "min", "d", "us", "ns"]), tz=r.choice([None, None, "UTC"]), oseed=r.randint(0, 999))
        if i % 2:
            K, d = r.choice([2, 3]), r.choice([12, 60])
            nm = r.choice([None, dict(prob="p", pred="q", side="s", event_end_time="exit")])
            case.update(cfg=dict(K=K, meta=r.random() < .5), names=nm, sidecol=r.random() < .5,
                        rows=[dict(n=r.randint(0, d), d=d, pred=r.choice([-1, 0, 1]), side=r.choice([-1, 0, 1])) for _ in bs],
                        step=r.choice([None, 100000, 50000, 300000, 12500]), zcol=r.choice([None, "bet_size2"]), again=r.random() < .2)
        else:
            case.update(ecol=r.choice(["event_end_time", "exit"]), zcol=r.choice(["bet_size", "w"]), extra=r.random() < .5,
                        threads=r.choice([[2], [1], [1, 8], [3, 1, 8]]))
        out.append(case)
    return out


REPLAY = {"replay": replay, "trace": judge}


def run(ctx):
    r = ctx.rng
    ctx.rules.append("spec->code: every set of three (four) bets over a short time line with missing, empty and reversed durations from TLC, listed in two orders. "
                     "code->spec: seeded sets of up to 25 bets, directly (exact means, several thread counts) and through the sizer with renamed columns and discretisation, judged by TLC. Non-trivial: distinct case.")
    ctx.assumptions += ["timestamps after 1970", "the normal distribution function is evaluated by the harness"]
    cases = ctx.mc("MC_ActiveBets", ctx.pick("MC_ActiveBets", "MC_ActiveBets_thorough"))
    for i, c in enumerate(cases):
        c["oseed"] = i
    ctx.sample(cases[999])
    ctx.replay(replay, cases, limit=ctx.pick(2500, 20000))
    g = gen(r, ctx.pick(500, 5000))
    ctx.sample(g[0])
    judge(ctx, g)
