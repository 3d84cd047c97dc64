"""C11: fold combinations, minimal dropping, backtest paths."""
from . import cpcv


def replay(case):
    """Nothing dropped that the specification keeps; the test sets are the specification's combinations."""
    cv, X = cpcv.build(case)
    got = cpcv.do_split(cv, X)
    if len(got) != len(case["splits"]):
        return dict(clause="number of splits", got=len(got), want=len(case["splits"]))
    if len(set(tuple(s["test"]) for s in got)) != len(got):
        return dict(clause="a combination repeats")
    n = len(case["p"])
    if sorted(got[0]["test"]) != list(range(n - len(got[0]["test"]) + 1, n + 1)):
        return dict(clause="first split's test folds are the last ones", got=got[0]["test"])
    want = {tuple(s["test"]): set(s["train"]) for s in case["splits"]}
    for s in got:
        w = want.get(tuple(sorted(s["test"])))
        if w is not None and not w <= set(s["train"]):
            return dict(clause="only conflicting samples are dropped", test=s["test"], got=s["train"], kept=sorted(w))


def replay_count(case):
    from mizarlabs.model.model_selection import compute_back_test_paths
    got = compute_back_test_paths(case["G"], case["k"])
    if got != case["npaths"]:
        return dict(clause="number of backtest paths", got=got, want=case["npaths"])


def record(case):
    return cpcv.events(case)


def judge(ctx, cases):
    ctx.judge("Trace_Cpcv", cases, ctx.record(record, cases))


REPLAY = {"replay": replay, "replay_count": replay_count, "trace": judge}


def run(ctx):
    ctx.rules.append("spec->code: TLC's sample sequences x configurations (kept samples, combinations, order of the first split) and path counts. "
                     "code->spec: seeded data up to 40 samples; splits and, with a recording model, fits and backtest paths judged by TLC. Non-trivial: distinct case.")
    ctx.assumptions += ["unique row index, at least one sample per fold", "order of rows inside a path is not judged"]
    cases = ctx.mc("MC_Cpcv", ctx.pick("MC_Cpcv", "MC_Cpcv_thorough"))
    ctx.sample(cases[len(cases) // 3])
    ctx.replay(replay, cases, limit=ctx.pick(3000, 40000))
    ctx.replay(replay_count, ctx.mc("MC_CpcvPaths"), kind="replay_count")
    g = cpcv.gen(ctx, ctx.pick(300, 4000), "C11", 30)
    ctx.sample(g[1])
    judge(ctx, g)
