"""C10: no leakage between train and test."""
from . import cpcv


def replay(case):
    return cpcv.replay_splits(case)


def replay_nodrop(case):
    """Only the leakage direction: nothing trained on that the specification had to drop."""
    cv, X = cpcv.build(case)
    want = {tuple(s["test"]): set(s["train"]) for s in case["splits"]}
    for s in cpcv.do_split(cv, X):
        w = want.get(tuple(sorted(s["test"])))
        if w is not None and not set(s["train"]) <= w:
            return dict(clause="training sample in conflict with the test set", test=s["test"], got=s["train"], allowed=sorted(w))


def record(case):
    return cpcv.events(case)


def judge(ctx, cases):
    ctx.judge("Trace_Cpcv", cases, ctx.record(record, cases))


REPLAY = {"replay": replay_nodrop, "trace": judge}


def run(ctx):
    ctx.rules.append("spec->code: every sequence of prediction gaps and horizons (incl. ties, non-monotone evaluation times) x fold configuration x embargo from TLC; the code may train on nothing the purged and embargoed machine drops. "
                     "code->spec: seeded data of up to 40 samples, every split judged by TLC on intervals only. Non-trivial: distinct case.")
    ctx.assumptions += ["prediction times non-decreasing, evaluation not before prediction, at least one sample per fold"]
    cases = ctx.mc("MC_Cpcv", ctx.pick("MC_Cpcv", "MC_Cpcv_thorough"))
    ctx.sample(cases[len(cases) // 2])
    ctx.replay(replay_nodrop, cases, limit=ctx.pick(4000, 40000))
    g = cpcv.gen(ctx, ctx.pick(300, 4000), "C10")
    ctx.sample({k: v for k, v in g[0].items()})
    judge(ctx, g)
