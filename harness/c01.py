"""C01: end time of a triple-barrier event."""
from . import labeling as L

DO = dict(end=True, lab=False)


def replay(case):
    """A behaviour of TLC: every bar, every factor; the code must report the same end bars."""
    p = case["p"]
    c = dict(c=case["c"], gaps=L_gaps(case), n=p["n"], pt=[p["ptn"], p["ptd"]], sl=[p["sln"], p["sld"]],
             sd=None if all(s == 1 for s in case["sd"]) else case["sd"])
    r = L.label(c, False, False)
    if r["end"] != case["end"]:
        return dict(clause="event end time", got=r["end"], want=case["end"], status=case["st"])
    if not r["pure"]:
        return dict(clause="rows in input order, input unmodified")


def L_gaps(case):
    # spacing is irrelevant to the machine; vary it with the case
    k = sum(case["c"]) + case["p"]["n"]
    return [[3600000], [1, 86400000], [777, 1, 90000001]][k % 3] * len(case["c"])


def record(case):
    return L.events(case)


def judge(ctx, cases):
    ctx.judge("Trace_TripleBarrier", cases, ctx.record(record, L.with_vol(ctx, cases)))


REPLAY = {"replay": replay, "trace": judge}


def run(ctx):
    ctx.rules.append("spec->code: every close path of MaxLen bars x factors x expiration lengths (and sides) from TLC, end bars compared with transform(). "
                     "code->spec: seeded histories up to 80 bars (irregular timestamps down to nanoseconds, with and without time zones, custom columns, volatility on and off) judged bar by bar by TLC. Non-trivial: distinct case.")
    ctx.assumptions += ["timestamps are unique, increasing and after 1970",
                        "with volatility on, an event whose return is within 1e-5 of a barrier is not judged (counter 'ambiguous')",
                        "without volatility the factors are dyadic so ties are exact"]
    cases = ctx.mc("MC_TripleBarrier", ctx.pick("MC_TripleBarrier", "MC_TripleBarrier_thorough"))
    sides = ctx.mc("MC_TripleBarrier", "MC_TripleBarrier_sides")
    ctx.sample(cases[len(cases) // 2])
    ctx.replay(replay, cases, limit=ctx.pick(3000, 40000))
    ctx.replay(replay, sides, limit=ctx.pick(3000, 40000))
    g = []
    for i in range(ctx.pick(700, 8000)):
        c = L.gen_case(ctx.rng, 80, vol=i % 3 == 0, big=i % 100 in (5, 6))
        c["do"] = DO
        c["combos"] = [ctx.rng.choice([0, 2])]
        g.append(c)
    ctx.sample(g[4])
    judge(ctx, g)
