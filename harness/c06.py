"""C06: indicator matrix and average uniqueness."""
from . import uniq as U
from .core import close, unrat


def replay(case):
    c = dict(case, unit="h", name="t1")
    r = U.matrix(c)
    if r["grid"] != case["grid"] or r["cols"] != case["cols"] or r["rows"] != len(case["grid"]):
        return dict(clause="indicator matrix", got=r, want=dict(grid=case["grid"], cols=case["cols"]))
    if not r["pure"]:
        return dict(clause="input unmodified, same matrix again")
    if not case["bars"] and len({e["s"] for e in case["evs"]}) == len(case["evs"]):
        u, pure = U.uniqueness(c)
        if not all(close(a, unrat(b)) for a, b in zip(u, case["uniq"])) or len(u) != len(case["uniq"]):
            return dict(clause="average uniqueness", got=u, want=case["uniq"])
        if not pure:
            return dict(clause="uniqueness: rows and input untouched")


def record(case):
    return U.build_events(case) + [dict(e="matrix", **U.matrix(case))]


def check_uniq(case):
    u, pure = U.uniqueness(case)
    want = [sum(1.0 / k for k in c) / len(c) for c in case["conc"]]
    if len(u) != len(want) or not all(close(a, b) for a, b in zip(u, want)):
        return dict(clause="average uniqueness", got=u, want=want)
    if not pure:
        return dict(clause="uniqueness: rows and input untouched")


def judge(ctx, cases):
    ctx.judge("Trace_Concurrency", cases, ctx.record(record, cases))


def judge_uniq(ctx, cases):
    ev = [[dict(e, c=i) for e in U.build_events(c, False) + [dict(e="uniq")]] for i, c in enumerate(cases)]
    ans = ctx.oracle("Trace_Concurrency", cases, ev)
    for i, c in enumerate(cases):
        c["conc"] = ans[i][0]["conc"]
    ctx.replay(check_uniq, cases, kind="uniq")


REPLAY = {"replay": replay, "trace": judge, "uniq": judge_uniq}


def run(ctx):
    ctx.rules.append("spec->code: every set of NEv events over a short time line x price bar sets from TLC (matrix, grid, exact uniqueness). "
                     "code->spec: seeded sets of up to 25 events (any order, equal starts, points, fully overlapping, off-bar ends) judged by TLC. Non-trivial: distinct case.")
    ctx.assumptions += ["ends not before starts"]
    cases = ctx.mc("MC_Concurrency", ctx.pick("MC_Concurrency", "MC_Concurrency_thorough"))
    ctx.sample(cases[len(cases) // 2])
    nob = [c for c in cases if not c["bars"]]
    ctx.replay(replay, nob, limit=ctx.pick(2000, 20000))
    ctx.replay(replay, cases, limit=ctx.pick(3000, 30000))
    g = U.gen(ctx, ctx.pick(400, 5000), unique=False)
    ctx.sample(g[3])
    judge(ctx, g)
    judge_uniq(ctx, U.gen(ctx, ctx.pick(400, 5000)))
