"""Events, indicator matrices, uniqueness and weights (C06, C07)."""
import math

import numpy as np
import pandas as pd

T0 = pd.Timestamp("2021-06-01").value
UNIT = {"h": 3600 * 10 ** 9, "m": 60 * 10 ** 9, "d": 86400 * 10 ** 9, "ms": 10 ** 6, "us": 10 ** 3, "ns": 1}


def stamps(xs, unit, tz=None):
    i = pd.DatetimeIndex(pd.to_datetime([T0 + x * UNIT[unit] for x in xs]))
    return i.tz_localize(tz) if tz else i


def back(ts, unit):
    return [int((pd.Timestamp(t).value - T0) // UNIT[unit]) for t in ts]


def sets(case, nm):
    return pd.Series(stamps([e["e"] for e in case["evs"]], case["unit"], case.get("tz")),
                     index=stamps([e["s"] for e in case["evs"]], case["unit"], case.get("tz")), name=nm)


def matrix(case):
    """grid, columns (1-based rows with a 1), shape, purity of get_ind_matrix."""
    from mizarlabs.model.bootstrapping import get_ind_matrix
    nm = case.get("name", "event_end_time")
    s = sets(case, nm)
    bars = pd.DataFrame({"close": np.arange(len(case["bars"])) + 1.0}, index=stamps(case["bars"], case["unit"], case.get("tz")))
    s0, b0 = s.copy(), bars.copy()
    m, grid = get_ind_matrix(s, bars, nm, return_indices=True)
    m2 = get_ind_matrix(s, bars, nm)
    a, a2 = m.toarray(), m2.toarray()
    pure = s.equals(s0) and bars.equals(b0) and np.array_equal(a, a2) and set(np.unique(a)) <= {0.0, 1.0}
    return dict(grid=back(grid, case["unit"]), rows=int(a.shape[0]),
                cols=[[int(r) + 1 for r in np.nonzero(a[:, j])[0]] for j in range(a.shape[1])], pure=bool(pure))


def frame(case, nm="event_end_time", cname="close"):
    X = pd.DataFrame({nm: sets(case, nm)})
    X[cname] = np.array(case.get("close") or np.arange(len(X)) + 1.0, dtype=float)
    X["zz"] = np.arange(len(X))[::-1]
    return X


def uniqueness(case):
    from mizarlabs.transformers.sampling.average_uniqueness import AverageUniqueness
    nm = case.get("name", "event_end_time")
    X = frame(case, nm)
    X0 = X.copy()
    t = AverageUniqueness() if nm == "event_end_time" else AverageUniqueness(nm)
    out = t.transform(X)
    pure = X.equals(X0) and out.index.equals(X.index)
    return [float(v) for v in out], bool(pure)


def ret_weights(case):
    from mizarlabs.transformers.sample_weights import SampleWeightsByReturns
    nm, cn = case.get("name", "event_end_time"), case.get("cname", "close")
    X = frame(case, nm, cn)
    X0 = X.copy()
    kw = {}
    if nm != "event_end_time":
        kw["event_end_time_column_name"] = nm
    if cn != "close":
        kw["close_column_name"] = cn
    out = SampleWeightsByReturns(**kw).transform(X)
    return [float(v) for v in out], bool(X.equals(X0) and out.index.equals(X.index))


def decay(case, d):
    """Weights of the events in time order."""
    from mizarlabs.transformers.sample_weights import SampleWeightsByTimeDecay
    nm = case.get("name", "event_end_time")
    X = frame(case, nm)
    X0 = X.copy()
    t = SampleWeightsByTimeDecay(d) if nm == "event_end_time" else SampleWeightsByTimeDecay(d, event_end_time_column_name=nm)
    out = t.transform(X)
    return [float(v) for v in out.reindex(X.index.sort_values())], bool(X.equals(X0) and len(out) == len(X) and set(out.index) == set(X.index))


def build_events(case, bars=True):
    ev = [dict(e="start")] + [dict(e="ev", x=x) for x in case["evs"]]
    if bars:
        ev.append(dict(e="bars", ts=case["bars"]))
    return ev + [dict(e="seal"), dict(e="sweep")]


def gen(ctx, n, unique=True, maxn=25, sort=False):
    r = ctx.rng
    out = []
    for q in range(n):
        m = r.choice([1, 2, 3, 5, 8, 13, maxn])
        T = r.choice([m, 2 * m, 4 * m, 10 * m])
        big = q % 200 == 7
        if big:       # hundreds of events over one bar
            m = 300
            T = 330 if unique else 10
        starts = r.sample(range(T + 1), m) if unique else [r.randint(0, T) for _ in range(m)]
        if sort or r.random() < .6:
            starts.sort()
        style = "same" if big else r.choice(["short", "long", "mixed", "same", "point", "next"])
        top = T + r.randint(1, 10)
        evs = []
        for i, s in enumerate(starts):
            h = {"short": r.randint(0, 3), "long": r.randint(0, T), "mixed": r.choice([0, 1, 2, T // 2, T]),
                 "same": top - s, "point": 0, "next": 1}[style]
            evs.append(dict(s=s, e=s + h))
        kind = r.choice(["none", "all", "some", "outside"])
        bars = {"none": [], "all": list(range(0, T + 5)), "some": sorted(r.sample(range(0, T + 8), min(T, 12))),
                "outside": [t for t in range(-5, T + 15) if t % 3 == 0]}[kind]
        c = dict(evs=evs, bars=bars, unit=r.choice(list(UNIT)), tz=r.choice([None, None, None, "UTC"]))
        if r.random() < .4:
            c["name"] = r.choice(["t1", "end"])
        if not c["tz"]:
            del c["tz"]
        out.append(c)
    return out
