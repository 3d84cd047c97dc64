"""C12: multi-frequency alignment."""
import math

import numpy as np
import pandas as pd

from .core import rat, unrat
from .pipes import Echo, Tr, frozen, same_frames, stamps

HOW = {"A": "mean", "B": "min", "C": "max", "D": "mean", "E": "max"}
MIRROR = {"mean": "mean", "min": "max", "max": "min"}


def num(v):
    return np.nan if v is None or tuple(v) == (0, 0) else v[0] / v[1]


def frames(case):
    unit, tz = case.get("unit", "h"), case.get("tz")
    X = {}
    li = stamps(case["leads"], unit, tz)
    X["L"] = pd.DataFrame({"l0": np.arange(len(li)) * 1.5, "l1": np.arange(len(li))[::-1] - 7.0}, index=li)
    for a, b in case.get("leadnan", []):          # leading rows that are still warming up
        X["L"].iloc[a, :b] = np.nan
    for k, rows in case["frames"].items():
        v = np.array([num(r["v"]) for r in rows], dtype=float)
        X[k] = pd.DataFrame({k + "0": v, k + "1": 10 - v}, index=stamps([r["t"] for r in rows], unit, tz))
    order = list(X)
    if case.get("order"):
        order = order[::-1]
    return {k: X[k] for k in order}


def observe(case):
    """(rows per frame, leading frame intact, caller's frames intact). rows: (bar, value col 0, value col 1)."""
    from mizarlabs.model.pipeline import StrategySignalPipeline
    X = frames(case)
    view, meta = case["view"], case["view"].startswith("meta")
    how = {k: HOW[k] for k in case["frames"]}
    add = case.get("add", 0)
    tr = {k: Tr(add) if add else None for k in X}
    if meta:
        prim = {"L": None}
        if case.get("both"):
            prim.update({k: Tr(1000) for k in case["frames"]})
        kw = dict(feature_transformers_primary_model=prim, feature_transformers_metalabeling_model=tr)
    else:
        kw = dict(feature_transformers_primary_model=tr)
    before = frozen(X)
    pipe = StrategySignalPipeline(align_on="L", align_how=how, metalabeling_use_proba_primary_model=False,
                                  metalabeling_use_predictions_primary_model=bool(case.get("usepred")), **kw)
    pipe.set_primary_model(Echo())
    y = pd.Series(1.0, index=X["L"].index)
    if case.get("again"):
        # other data of the same times
        pipe.create_dataset_primary({k: v * 3 + 5 for k, v in X.items()}, y, drop_na=False)
    if view == "primary":
        got, yy = pipe.create_dataset_primary(X, y, drop_na=False)
    elif view == "primary_train":
        got, yy = pipe.create_dataset_primary(X, y)
        assert yy.index.equals(got.index)
    elif view == "predict":
        pipe.predict(X)
        got = pipe.primary_model.seen[-1][1]
    elif view == "proba":
        pipe.predict_proba(X)
        got = pipe.primary_model.seen[-1][1]
    elif view == "meta":
        got, yy = pipe.create_dataset_metalabeling(X, y)
    elif view == "meta_predict":
        pipe.set_metalabeling_model(Echo())
        pipe.predict(X)
        got = pipe.metalabeling_model.seen[-1][1]
    else:
        pipe.set_metalabeling_model(Echo())
        pipe.get_side_and_size(X)
        got = pipe.metalabeling_model.seen[-1][1]
    pos = {t: i + 1 for i, t in enumerate(X["L"].index)}
    bars = [pos.get(t, 0) for t in got.index]
    lead = all(np.array_equal(got[c].to_numpy(float), np.array([X["L"][c].iloc[b - 1] + add for b in bars if b], dtype=float), equal_nan=True)
               for c in ("l0", "l1"))
    res = {}
    for k in case["frames"]:
        a = [float(v) - add for v in got[k + "0"]]
        b = [10 - (float(v) - add) for v in got[k + "1"]]
        res[k] = list(zip(bars, a, b))
    return res, bool(lead), same_frames(before, X)


def replay(case):
    c = dict(case, frames={"A": case["rows"], "B": case["rows"], "C": case["rows"]})
    alldef = [k + 1 for k, o in enumerate(case["out"]) if tuple(o["mean"]) != (0, 0)]
    if c["view"] != "primary" and (not alldef or case["rows"][-1]["t"] < case["leads"][0]):
        c["view"] = "primary"
    res, lead, pure = observe(c)
    want = alldef if c["view"] != "primary" else list(range(1, len(case["leads"]) + 1))
    for k, rows in res.items():
        h = HOW[k]
        if [r[0] for r in rows] != want:
            return dict(clause="rows", frame=k, view=c["view"], got=[r[0] for r in rows], want=want)
        for b, x, y in rows:
            w, w2 = num(case["out"][b - 1][h]), num(case["out"][b - 1][MIRROR[h]])
            if not (same(x, w) and same(y, w2)):
                return dict(clause="aligned value", how=h, view=c["view"], bar=b, got=[x, y], want=[w, w2])
    if not lead:
        return dict(clause="the leading frame passes through", view=c["view"])
    if not pure:
        return dict(clause="the caller's frames are not modified", view=c["view"])


def same(a, b):
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) < 1e-9


def events(case):
    res, lead, pure = observe(case)
    ev = []
    for k, rows in case["frames"].items():
        ev.append(dict(e="start"))
        line = sorted([(r["t"], 0, r["v"]) for r in rows] + [(t, 1, None) for t in case["leads"]], key=lambda x: x[:2])
        ev += [dict(e="row", t=t, v=v) if z == 0 else dict(e="lead", t=t) for t, z, v in line]
        h = HOW[k]
        for col, hh in ((1, h), (2, MIRROR[h])):
            ev.append(dict(e="query", view=case["view"], full=case["view"] == "primary",
                           exact=case["view"] != "primary" and len(case["frames"]) == 1,
                           undef=sorted({a + 1 for a, _ in case.get("leadnan", [])}),
                           rows=[dict(k=r[0], v={hh: rat(r[col])}) for r in res[k]], lead=lead, pure=pure))
    return ev


def gen(r, n):
    out = []
    for i in range(n):
        m = r.choice([1, 2, 3, 5, 10, 25, 40] if i % 50 != 7 else [300])
        T, leads = 0, []
        for _ in range(m):
            T += r.choice([1, 1, 2, 5, 12])
            leads.append(T)
        frs = {}
        for k in r.sample(list(HOW), r.choice([1, 1, 2, 3])):
            dense = r.choice([.1, .5, 1, 2])
            q = r.choice(["grid", "any"])
            cnt = max(1, int(len(leads) * dense * r.choice([.5, 1, 2])))
            if q == "grid":
                ts = sorted(r.choices(leads + [0, T + 3], k=cnt))
            else:
                ts = sorted(r.randint(0, T + 4) for _ in range(cnt))
            if r.random() < .6:
                ts = sorted(set(ts))
            if r.random() < .3:
                ts = [t for t in ts if t > leads[len(leads) // 2]] or ts
            warm = r.choice([0, 0, 0, 1, 2])
            frs[k] = [dict(t=t, v=[0, 0] if j < warm else [r.randint(-9, 20), 1]) for j, t in enumerate(ts)]
        if r.random() < .3:      # some features start long before the first leading bar
            off = r.choice([60, 400, 3000])
            leads = [t + off for t in leads]
            for rows in frs.values():
                j = r.randint(0, len(rows))
                for x in rows[j:]:
                    x["t"] += off
        if i % 40 == 11:         # many rows between two leading times
            for k in frs:
                t0 = leads[r.randrange(len(leads))]
                frs[k] = sorted(frs[k] + [dict(t=t0, v=[(40 if j < 3 else 0) + r.randint(0, 8), 1]) for j in range(r.choice([150, 400]))], key=lambda z: z["t"])
                frs[k] = [z for z in frs[k] if z["v"][1]]
        if i % 40 == 23:         # features that end long before the leading bars do
            for _ in range(r.choice([80, 200, 350])):
                leads.append(leads[-1] + r.choice([1, 1, 3]))
        case = dict(leads=leads, frames=frs, unit=r.choice(["ms", "s", "min", "h", "d", "us", "ns"]), tz=r.choice([None, None, "UTC", "Asia/Tokyo"]),
                    order=r.random() < .5, add=r.choice([0, 0, 3]), both=r.random() < .5, again=r.random() < .2,
                    usepred=r.random() < .5,
                    view=r.choice(["primary", "primary_train", "predict", "proba", "meta", "meta_predict", "meta_size"]))
        if r.random() < .3:
            case["leadnan"] = [[a, r.choice([1, 2, 2])] for a in range(len(leads)) if a < r.choice([1, 2, 6]) or r.random() < .05]
        if any(rows[-1]["t"] < leads[0] or not any(x["v"][1] and x["t"] <= leads[-1] for x in rows) for rows in frs.values()):
            case["view"] = "primary"
        elif case["view"] not in ("primary", "predict", "proba") and len(frs) > 1:
            # some row must be defined in every frame
            first = max(next(x["t"] for x in rows if x["v"][1]) for rows in frs.values())
            ok = first <= leads[-1]
            if not ok:
                case["view"] = "primary"
        # every view but "primary" needs at least one complete row
        if case["view"] != "primary" and not complete(case):
            case["view"] = "primary"
        out.append(case)
    return out


def complete(case):
    """Has some leading bar a value in every frame? (Training sets and predictions need one row.)"""
    ok = None
    for rows in case["frames"].values():
        out, k, prev = [], 0, False
        for t in case["leads"]:
            new = []
            while k < len(rows) and rows[k]["t"] <= t:
                new.append(rows[k]["v"][1] != 0)
                k += 1
            prev = all(new) if new else prev
            out.append(prev)
        ok = [a and b for a, b in zip(ok, out)] if ok else out
    for a, _ in case.get("leadnan", []):
        ok[a] = False
    return any(ok)


def judge(ctx, cases):
    ctx.judge("Trace_Align", cases, ctx.record(events, cases))


REPLAY = {"replay": replay, "trace": judge}


def run(ctx):
    r = ctx.rng
    ctx.rules.append("spec->code: every interleaving of feature rows (3 values or warm-up) and leading bars over 5 slots from TLC, aligned by the real pipeline with mean, min and max at once, seen through datasets and through what the models are shown. "
                     "code->spec: seeded clocks (repeated stamps, several frames, units from microseconds to days, time zones) judged by TLC. Non-trivial: distinct case.")
    ctx.assumptions += ["undefined feature values form a prefix of a frame", "sorted frames; stamps of the leading frame are distinct"]
    cases = ctx.mc("MC_Align", ctx.pick("MC_Align", "MC_Align_thorough"))
    views = ["primary", "primary_train", "predict", "meta", "meta_predict", "proba", "meta_size"]
    lim = ctx.pick(2500, 30000)
    cases = r.sample(cases, lim) if len(cases) > lim else cases
    for i, c in enumerate(cases):
        c.update(view=views[i % 7], order=i % 2, unit=["h", "ms", "d"][i % 3], add=[0, 2][i % 2], both=(i // 2) % 2, usepred=(i // 4) % 2)
    ctx.sample(cases[3])
    ctx.replay(replay, cases)
    g = gen(r, ctx.pick(400, 4000))
    ctx.sample(g[2])
    judge(ctx, g)
