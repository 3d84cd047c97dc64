"""C25: the research flow end to end."""
import math
import random

import numpy as np
import pandas as pd

from .core import close, unrat
from .inputs import make_index

KINDS = ("hourly", "daily", "tz", "random")


def bars_of(case):
    par, sc = case["par"], case.get("scale", 1)
    idx = make_index(len(case["xs"]), case.get("iseed", 0), case.get("ikind", "hourly"))
    if case.get("tz") and idx.tz is None:
        idx = idx.tz_localize(case["tz"]) if case["tz"] == "UTC" else idx.tz_localize("UTC").tz_convert(case["tz"])
    names = case.get("names") or {}
    df = pd.DataFrame({names.get("close", "close"): [float(x) * sc for x in case["xs"]]}, index=idx)
    if names:          # a column the flow must not read
        df["close"] = np.arange(len(df))[::-1] + 3.0
    return df, names.get("close", "close"), names.get("side", "side"), names.get("end", "event_end_time")


def stages(case):
    """What every stage of the real flow hands on; times as 1-based bar positions."""
    from mizarlabs.model.bootstrapping import calc_average_uniqueness, get_ind_matrix
    from mizarlabs.model.model_selection import CombPurgedKFoldCV
    from mizarlabs.model.pipeline import StrategySignalPipeline
    from mizarlabs.model.sequentially_bootstrapped_bagging_classifier import SequentiallyBootstrappedBaggingClassifier
    from mizarlabs.transformers.sample_weights import SampleWeightsByReturns, SampleWeightsByTimeDecay
    from mizarlabs.transformers.sampling.average_uniqueness import AverageUniqueness
    from mizarlabs.transformers.sampling.down_sampling import CUSUMFilter
    from mizarlabs.transformers.targets.labeling import TripleBarrierMethodLabeling
    from mizarlabs.transformers.technical.moving_average import MovingAverageCrossOver, MovingAverageCrossOverPredictor
    from mizarlabs.transformers.trading.bet_sizing import avg_active_signals
    par = case["par"]
    df, cl, sd, en = bars_of(case)
    before = df.copy()
    pos = {t: i + 1 for i, t in enumerate(df.index)}
    at = lambda ts: [pos.get(t, -1) for t in ts]
    g = {}
    part = df.iloc[:max(1, len(df) // 2)] if case.get("again") else None      # the same objects have seen the beginning
    flt = CUSUMFilter(threshold=par["h"] * case.get("scale", 1))
    if part is not None:
        flt.transform(part[cl])
    picked = flt.transform(df[cl])
    g["sel"] = at(picked)
    if case.get("strategy"):
        pipe = StrategySignalPipeline({"bars": None}, align_on="bars", align_how={})
        pipe.set_primary_model(MovingAverageCrossOverPredictor(par["fast"], par["slow"], cl, fill_between_crossovers=True))
        if part is not None:
            pipe.predict({"bars": part})
        side = pipe.predict({"bars": df})["primary_model_predictions"].reindex(df.index)
    else:
        ma = MovingAverageCrossOver(par["fast"], par["slow"], cl, fill_between_crossovers=True)
        if part is not None:
            ma.fit(part).transform(part)
        side = pd.Series(ma.transform(df).ravel(), index=df.index)
    g["side"] = [int(v) if v == v else 99 for v in side]
    if not df.equals(before):
        return dict(g, impure="sampling or sides")
    df = df.assign(**{sd: side})
    before = df.copy()
    tb = TripleBarrierMethodLabeling(num_expiration_bars=par["n"], profit_taking_factor=par["pt"][0] / par["pt"][1],
                                     stop_loss_factor=par["sl"][0] / par["sl"][1], metalabeling=True, close_column_name=cl, side_column_name=sd,
                                     volatility_adjusted_horizontal_barriers=False, expiration_label=par["explab"])
    if part is not None:
        tb.transform(df.iloc[:len(part)])
    out = tb.transform(df)
    g["end"] = [0 if pd.isna(t) else pos.get(t, -1) for t in out["event_end_time"]]
    g["lab"] = [None if v != v else float(v) for v in out["label"]]
    events = out.loc[picked].dropna(subset=["event_end_time", "label"])
    if en != "event_end_time":
        events = events.rename(columns={"event_end_time": en})
    events[cl] = df[cl].reindex(events.index)
    g["ev"] = [dict(s=a, e=b) for a, b in zip(at(events.index), at(events[en]))]
    if not len(events):
        return dict(g, impure=None if df.equals(before) else "labelling")
    order = list(range(len(events)))
    if case.get("shuffle"):
        random.Random(case["shuffle"]).shuffle(order)
    mixed = events.iloc[order]
    kw = {} if en == "event_end_time" else dict(event_end_time_column_name=en)
    if par["withbars"]:
        m, grid = get_ind_matrix(mixed[en], df, en, return_indices=True)
        g["grid"] = at(grid)
        back = lambda vs: [v for _, v in sorted(zip(order, vs))]
        g["cols"] = back([[int(r) + 1 for r in np.nonzero(m.toarray()[:, j])[0]] for j in range(m.shape[1])])
        g["uniq"] = back([float(v) for v in calc_average_uniqueness(m.tocsc())])
        clf = SequentiallyBootstrappedBaggingClassifier(mixed[en], df, n_estimators=2, random_state=case.get("seed", 0), **kw)
        if (clf.ind_mat.toarray() != m.toarray()).any():
            return dict(g, impure="the ensemble's indicator matrix")
        if case.get("fit"):
            X = pd.DataFrame({"f": np.arange(len(events)) * 1.0}, index=events.index)
            clf.fit(X, events["label"])
            bags = [len(b) for b in clf.estimators_samples_]
            if bags != [len(events)] * 2:
                return dict(g, impure="bootstrap sizes %s" % bags)
    else:
        g["uniq"] = [float(v) for v in AverageUniqueness(**kw).transform(mixed).reindex(events.index)]
        kc = dict(kw) if cl == "close" else dict(kw, close_column_name=cl)
        g["ret"] = [float(v) for v in SampleWeightsByReturns(**kc).transform(events)]
        g["decay"] = [float(v) for v in SampleWeightsByTimeDecay(0.5, **kw).transform(mixed).reindex(events.index)]
    g["splits"] = []
    if len(events) >= par["G"]:
        gap = pd.Timedelta(par["emb"] * step(df.index), unit="ns")
        start = pd.Series(events.index, index=events.index)
        cv = CombPurgedKFoldCV(n_groups=par["G"], n_test_splits=par["k"], pred_times=start, eval_times=events[en], embargo_td=gap)
        X = events[["label"]]
        g["splits"] = [dict(test=sorted(int(i) + 1 for i in te), train=sorted(int(i) + 1 for i in tr)) for tr, te in cv.split(X)]
    z = [case_size(g["side"], i) for i in at(events.index)]
    bets = pd.DataFrame({en: events[en], "bet_size": z}, index=events.index)
    avg = avg_active_signals(bets.iloc[order], **kw)
    g["avg"] = [(a, float(v)) for a, v in zip(at(avg.index), avg)]
    g["impure"] = None if df.equals(before) else "later stages"
    return g


def step(idx):
    return int(idx[1].value - idx[0].value) if len(idx) > 1 else 1


def case_size(side, i):
    return side[i - 1] * (i % 3 + 1) / 4


def compare(case):
    want, par, xs = case["out"], case["par"], case["xs"]
    g = stages(case)
    if g["impure"]:
        return dict(clause="no stage changes what it was handed", where=g["impure"])
    want_lab = [None if tuple(v) == (0, 0) else unrat(v) for v in want["lab"]]
    for k, name, w in (("sel", "sampled bars", want["sel"]), ("side", "side of every bar", want["side"]), ("end", "end of every event", want["end"]),
                       ("lab", "label of every event", want_lab), ("ev", "events handed on", want["ev"])):
        if g[k] != w:
            return dict(clause=name, got=g[k], want=w)
    if not want["ev"]:
        return
    if par["withbars"] and (g["grid"] != want["grid"] or g["cols"] != want["cols"]):
        return dict(clause="bars every event reads", got=[g["grid"], g["cols"]], want=[want["grid"], want["cols"]])
    uniq = [math.fsum(1 / c for c in cs) / len(cs) for cs in want["conc"]]
    if len(g["uniq"]) != len(uniq) or not all(close(a, b) for a, b in zip(g["uniq"], uniq)):
        return dict(clause="uniqueness of the events", got=g["uniq"], want=uniq)
    if not par["withbars"]:
        px = [xs[e["s"] - 1] for e in want["ev"]]
        ret = [abs(math.fsum(math.log(px[b - 1] / px[b - 2]) / c for b, c in t)) for t in want["terms"]]
        if len(g["ret"]) != len(ret) or not all(close(a, b) for a, b in zip(g["ret"], ret)):
            return dict(clause="return weights of the events", got=g["ret"], want=ret)
        tot, cum = math.fsum(uniq), 0.0
        for k, u in enumerate(uniq):
            cum += u
            if not close(g["decay"][k], 0.5 + 0.5 * cum / tot, 1e-8):
                return dict(clause="time decay of the events", event=k + 1, got=g["decay"][k], want=0.5 + 0.5 * cum / tot)
    key = lambda s: (s["test"], s["train"])
    if sorted(map(key, g["splits"])) != sorted(map(key, want["splits"])):
        return dict(clause="training and test events of every split", got=g["splits"], want=want["splits"])
    zs = [case_size(want["side"], e["s"]) for e in want["ev"]]
    mean = [(a["t"], sum(zs[j - 1] for j in a["on"]) / len(a["on"]) if a["on"] else 0.0) for a in want["active"]]
    if [a for a, _ in g["avg"]] != [a for a, _ in mean] or not all(close(a, b) for (_, a), (_, b) in zip(g["avg"], mean)):
        return dict(clause="average of the bets that are open", got=g["avg"], want=mean)


def events(case):
    par = case["par"]
    work = 2 * len(case["xs"]) + math.comb(par["G"], par["k"]) + 6
    return ([dict(e="start", cfg=par)] + [dict(e="bar", x=x) for x in case["xs"]] + [dict(e="collect")] +
            [dict(e="work")] * work + [dict(e="ask")])


def judge(ctx, cases):
    ans = ctx.oracle("Trace_Flow", cases, [[dict(e, c=i) for e in events(c)] for i, c in enumerate(cases)])
    for i, c in enumerate(cases):
        c["out"] = ans[i][0]["out"]
    ctx.replay(compare, cases, kind="trace")
    for i, c in enumerate(cases):
        for k in ("ev", "splits"):
            ctx.count("flow " + k, len(c["out"][k]))


REPLAY = {"replay": compare, "trace": judge}


def dress(r, c):
    c.update(ikind=r.choice(KINDS[:3] if c["par"]["emb"] else KINDS), iseed=r.randint(0, 9999), seed=r.randint(0, 99), tz=r.choice([None, None, "UTC", "Europe/Rome"]),
             scale=2.0 ** r.choice([-20, -3, 0, 0, 0, 5, 16]), strategy=r.random() < .4, fit=r.random() < .1, again=r.random() < .4, shuffle=r.choice([0, 0, 1, 2, 3]))
    if c["ikind"] == "tz" or not c["tz"]:
        del c["tz"]
    if r.random() < .4:
        c["names"] = dict(close="price", side="bet", end="t1")
    return c


def gen(ctx, n, top):
    r = ctx.rng
    out = []
    while len(out) < n:
        m = r.choice([1, 4, 10, 20, 40, top])
        lo, hi = r.choice([(3, 5), (0, 4), (2, 8), (1, 9)])
        e, xs = r.randint(lo, hi), []
        moody, pure = r.random(), r.random() < .5
        for _ in range(m):
            if r.random() > moody * .7:
                e = max(lo, min(hi, e + r.choice([-1, 1, 1, -1, 2, -2])))
            xs.append(2 ** e if pure else 2 ** e * r.choice([4, 5, 6, 7]))
        G = r.choice([2, 3, 4, 5])
        fast, slow = r.choice([(1, 2), (1, 4), (2, 4), (2, 8), (1, 8)])
        par = dict(h=r.choice([0, 1, 2 ** lo, 2 ** ((lo + hi) // 2), 3]), n=r.choice([1, 2, 3, 5, 9, 17]), pt=r.choice([[0, 1], [1, 2], [1, 1], [2, 1], [1, 4]]),
                   sl=r.choice([[0, 1], [1, 2], [1, 4], [3, 4], [7, 8]]), fast=fast, slow=slow, explab=r.random() < .5, withbars=r.random() < .5,
                   G=G, k=r.randint(1, min(2, G - 1)), emb=r.choice([0, 0, 1, 3]))
        c = dress(r, dict(par=par, xs=xs))
        out.append(c)
        if m > 10 and r.random() < .3:      # the same flow, stopped earlier
            out.append(dict(c, xs=xs[:r.randint(2, m)]))
    return out[:n]


def run(ctx):
    ctx.rules.append("spec->code: every short price path x parameters from TLC through the composed machine; the real filter, side rule, labeller, uniqueness, weights, cross-validation and bet averaging are chained on it and every hand-over is compared. "
                     "code->spec: seeded paths (and shorter pieces of them), other column names, time zones, index kinds and price units; TLC decides what every stage hands on. Non-trivial: distinct case.")
    ctx.assumptions += ["moving-average windows are powers of two or the averages exact, fixed barriers, metalabelling with the crossover side", "return weights and uniqueness in floating point from the specification's lists of concurrent events"]
    r = ctx.rng
    wait = ctx.warm(lambda: compare_quietly())
    cases = ctx.mc("MC_Flow", ctx.pick("MC_Flow", "MC_Flow_thorough"))
    cases = [dress(r, c) for c in (r.sample(cases, ctx.pick(1500, 12000)) if len(cases) > ctx.pick(1500, 12000) else cases)]
    ctx.sample({k: v for k, v in cases[len(cases) // 2].items()})
    wait()
    ctx.replay(compare, cases)
    g = gen(ctx, ctx.pick(500, 3000), ctx.pick(60, 90))
    judge(ctx, g)
    ctx.sample({k: v for k, v in g[0].items() if k != "out"})


def compare_quietly():
    stages(dict(par=dict(h=1, n=2, pt=[1, 2], sl=[1, 2], fast=1, slow=2, explab=True, withbars=True, G=2, k=1, emb=0), fit=True,
                xs=[8, 16, 8, 16, 8, 16, 8, 16, 8, 16, 8, 16]))
