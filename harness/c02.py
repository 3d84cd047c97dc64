"""C02: volatility and labels look only back, and never change when bars arrive."""
import pandas as pd

from . import labeling as L

DO = dict(end=True, lab=True)


def _vol(times, closes, span, scale=1, case={}):
    from mizarlabs.transformers.targets.labeling import get_daily_vol
    s = pd.Series([c * scale for c in closes], index=L.stamps(times, case), dtype=float)
    before = s.copy()
    kw = {} if span is None else dict(ewm_span=span)
    v = get_daily_vol(s, **kw)
    assert s.equals(before)
    return v.reindex(s.index), set(v.index) <= set(s.index)


def replay_vol(case):
    """A behaviour of TLC for the reference lookup; volatilities recomputed from those references."""
    unit = L.DAY // 4          # Day = 4 in MC_DailyVol.cfg
    t = [x * unit + 1614556800000 for x in case["ts"]]
    span = case.get("span", 2)
    closes = [100, 130, 91, 120, 77, 140, 60, 111, 85][:len(t)]
    got, sub = _vol(t, closes, span)
    want = L.vols(closes, case["refs"], span)
    for i, (a, b) in enumerate(zip(got, want)):
        if not L.same_vol(a, b):
            return dict(clause="daily volatility", bar=i + 1, got=float(a), want=b, refs=case["refs"])
    if not sub:
        return dict(clause="volatility rows are bars")


def check_vols(case):
    """Volatility reported on the whole history and on every cut, against the specification's references."""
    n = len(case["c"])
    want = L.vols(case["c"], case["refs"], case["vol"])
    for cut in sorted(set(case["cuts"]) | {n}):
        got, _ = _vol(L.times(case)[:cut], case["c"][:cut], case["vol"], case.get("scale", 1), case)
        lab = L.label(case, False, False, cut)["vol"] if case["n"] else None
        for i in range(cut):
            for nm, g in (("get_daily_vol", got.iloc[i]), ("daily_vol column", lab[i])):
                if not L.same_vol(g, want[i]):
                    return dict(clause="daily volatility", where=nm, prefix=cut, bar=i + 1, got=float(g), want=want[i])


def record(case):
    return L.events(case)


def judge(ctx, cases):
    L.with_vol(ctx, cases)
    ctx.replay(check_vols, [c for c in cases if c.get("vol") is not None], kind="trace")
    ctx.judge("Trace_TripleBarrier", cases, ctx.record(record, cases))


REPLAY = {"replay_vol": replay_vol, "trace": judge}


def run(ctx):
    ctx.rules.append("spec->code: every sequence of bar gaps (fractions of a day, exactly a day, more) of MaxLen bars from TLC; the code's volatility compared with the one over the specification's reference bars. "
                     "code->spec: seeded histories; the code is run afresh on several prefixes and on the whole, and TLC judges every answer against one growing run of the machine, so any revision or look-ahead is a mismatch. Non-trivial: distinct case.")
    ctx.assumptions += ["ewm standard deviation (bias corrected) is evaluated by the harness over the returns the specification selects",
                        "with volatility on, an event within 1e-5 of a barrier is not judged", "unique increasing timestamps"]
    cases = ctx.mc("MC_DailyVol", ctx.pick("MC_DailyVol", "MC_DailyVol_thorough"))
    for i, c in enumerate(cases):
        c["span"] = [1, 2, 5, 100][i % 4]
    ctx.sample(cases[len(cases) // 2])
    ctx.replay(replay_vol, cases, kind="replay_vol", limit=ctx.pick(3000, 40000))
    ctx.mc("MC_TripleBarrier", "MC_TripleBarrier_sides")
    g = []
    for i in range(ctx.pick(300, 4000)):
        c = L.gen_case(ctx.rng, 60, vol=i % 4 != 0, cuts=ctx.pick(3, 8), big=i % 100 == 7)
        c["do"] = DO
        c["combos"] = [ctx.rng.randint(0, 3)]
        g.append(c)
    ctx.sample(g[5])
    judge(ctx, g)
