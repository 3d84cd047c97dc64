"""C03: returns, labels and meta-labels."""
from . import labeling as L
from .c01 import L_gaps

DO = dict(end=False, lab=True)


def replay(case):
    p = case["p"]
    c = dict(c=case["c"], gaps=L_gaps(case), n=p["n"], pt=[p["ptn"], p["ptd"]], sl=[p["sln"], p["sld"]], sd=case["sd"])
    for k, (meta, explab) in enumerate(L.COMBOS):
        r = L.label(c, meta, explab)
        if r["ret"] != case["ret"][1 if meta else 0]:
            return dict(clause="return", meta=meta, explab=explab, got=r["ret"], want=case["ret"][1 if meta else 0])
        if r["lab"] != case["lab"][k]:
            return dict(clause="label", meta=meta, explab=explab, got=r["lab"], want=case["lab"][k], status=case["st"])
        if not r["pure"]:
            return dict(clause="rows in input order, input unmodified")


def record(case):
    return L.events(case)


def judge(ctx, cases):
    ctx.judge("Trace_TripleBarrier", cases, ctx.record(record, L.with_vol(ctx, cases)))


REPLAY = {"replay": replay, "trace": judge}


def run(ctx):
    ctx.rules.append("spec->code: TLC's complete path sets (closes, sides in {-1,0,1} or missing, factors, expirations); returns and labels of the code compared under all four meta/expiration combinations. "
                     "code->spec: seeded histories up to 80 bars, volatility on and off, judged by TLC. Non-trivial: distinct case.")
    ctx.assumptions += ["with volatility on, an event within 1e-5 of a barrier is not judged", "unique increasing timestamps"]
    sides = ctx.mc("MC_TripleBarrier", "MC_TripleBarrier_sides")
    paths = ctx.mc("MC_TripleBarrier", ctx.pick("MC_TripleBarrier", "MC_TripleBarrier_thorough"))
    ctx.sample(sides[len(sides) // 3])
    ctx.replay(replay, sides, limit=ctx.pick(1500, 40000))
    ctx.replay(replay, paths, limit=ctx.pick(600, 20000))
    g = []
    for i in range(ctx.pick(400, 6000)):
        c = L.gen_case(ctx.rng, 80, vol=i % 3 == 0, big=i % 100 in (5, 6))
        c["do"] = DO
        c["combos"] = [0, 1, 2, 3]
        g.append(c)
    ctx.sample(g[5])
    judge(ctx, g)
