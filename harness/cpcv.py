"""Running combinatorial purged cross-validation (C10, C11)."""
import random

import numpy as np
import pandas as pd

UNITS = {"h": 3600 * 10 ** 9, "d": 86400 * 10 ** 9, "s": 10 ** 9, "ns": 1, "m7": 7 * 60 * 10 ** 9}


def build(case):
    from mizarlabs.model.model_selection import CombPurgedKFoldCV
    n = len(case["p"])
    u = UNITS[case.get("unit", "h")]
    t0 = pd.Timestamp("2020-01-01").value
    kind = case.get("index", "time")
    idx = (pd.date_range("2020-05-05", periods=n, freq="H") if kind == "time" else
           pd.Index(["r%03d" % ((k * 7) % 997) for k in range(n)]) if kind == "str" else
           pd.RangeIndex(n) if kind == "range" else pd.Index(list(range(n))[::-1]))
    tz = lambda s: s.dt.tz_localize("UTC").dt.tz_convert(case["tz"]) if case.get("tz") else s
    pred = tz(pd.Series(pd.to_datetime([t0 + x * u for x in case["p"]]), index=idx))
    ev = tz(pd.Series(pd.to_datetime([t0 + x * u for x in case["ev"]]), index=idx))
    X = pd.DataFrame({"f": np.arange(n) * 1.0, "g": np.arange(n)[::-1] * 2.0}, index=idx)
    kw = dict(n_groups=case["cfg"]["G"], n_test_splits=case["cfg"]["k"], pred_times=pred, eval_times=ev)
    if case["cfg"]["emb"] or not case.get("defemb"):
        kw["embargo_td"] = pd.Timedelta(case["cfg"]["emb"] * u, unit="ns")
    return CombPurgedKFoldCV(**kw), X


def do_split(cv, X):
    return [dict(train=[int(i) + 1 for i in tr], test=[int(i) + 1 for i in te]) for tr, te in cv.split(X)]


def replay_splits(case):
    """Compare the splits with TLC's, as sets; the first one must be the same."""
    cv, X = build(case)
    got = do_split(cv, X)
    key = lambda s: (sorted(s["test"]), sorted(s["train"]))
    if sorted(map(key, got)) != sorted(map(key, case["splits"])) or key(got[0]) != key(case["splits"][0]):
        return dict(clause="splits", got=got, want=case["splits"])


class Recorder:
    """Stands in for the signal pipeline; every prediction says which model and row it is."""

    def __init__(self, n, lab):
        self.fits, self.n, self.lab = [], n, lab

    def fit(self, X, y, **kw):
        assert kw == {"marker": 5}, kw
        rows = [int(v) for v in X[:, 0]]
        ok = len(y) == len(rows) and all(b == self.lab[a] for a, b in zip(rows, y))
        self.fits.append([r + 1 for r in rows] if ok else [0])
        return self

    def predict(self, X):
        m = len(self.fits)
        return np.array([m * 10000 + int(v) for v in X[:, 0]])

    def predict_proba(self, X):
        m = len(self.fits)
        q = np.array([0.5 + (m * 100 + int(v)) / 1e5 for v in X[:, 0]])
        return np.column_stack([1 - q, q]) if m % 2 else np.column_stack([q, 1 - q])


def events(case):
    cv, X = build(case)
    ev = [dict(e="start", cfg=case["cfg"])]
    ev += [dict(e="smp", p=p, ev=q) for p, q in zip(case["p"], case["ev"])]
    sp = do_split(cv, X)
    ev += [dict(e="split", prop=case["prop"], **s) for s in sp]
    if case["prop"] == "C10":
        # the same object is used again: nothing may depend on earlier use
        if case.get("again"):
            ev += [dict(e="start", cfg=case["cfg"])] + [dict(e="smp", p=p, ev=q) for p, q in zip(case["p"], case["ev"])]
            ev += [dict(e="split", prop=case["prop"], **s) for s in do_split(cv, X)]
        return ev
    ev.append(dict(e="splits"))
    if not case.get("paths"):
        return ev
    from mizarlabs.model import model_selection as ms
    n = len(case["p"])
    lab = [(k * 37) % 101 for k in range(n)]
    ln = case.get("label", "label")
    y = pd.DataFrame({ln: lab, "other": [v * 3 for v in lab]}, index=X.index)
    if case.get("xorder"):
        X = X[["f", "g"]]
    rec = Recorder(n, lab)
    random.seed(case["seed"])
    X0, y0 = X.copy(), y.copy()
    kw = {} if ln == "label" else dict(label_column_name=ln)
    out = ms.combinatorial_cross_validation_paths(X, y, cv, rec, dict(marker=5), **kw)
    if not isinstance(out, list):
        out = list(out)
        if len(out) == 1 and isinstance(out[0], list):
            out = out[0]
    assert X.equals(X0) and y.equals(y0), "inputs modified"
    ev.append(dict(e="fits", fits=rec.fits))
    pos = {t: k for k, t in enumerate(X.index)}
    for path in out:
        rows = []
        for t, pr, mp, la, ot in zip(path.index, path["predictions"], path["max_proba"], path[ln], path["other"]):
            k, m = pos[t], int(pr) // 10000
            x = int(pr) % 10000 == k and abs(mp - (0.5 + (m * 100 + k) / 1e5)) < 1e-12 and la == lab[k] and ot == 3 * lab[k]
            rows.append(dict(i=k + 1, m=m, x=bool(x)))
        ev.append(dict(e="path", rows=rows))
    ev.append(dict(e="paths", n=int(ms.compute_back_test_paths(case["cfg"]["G"], case["cfg"]["k"]))))
    return ev


def gen(ctx, n, prop, maxn=40):
    r = ctx.rng
    out = []
    for q in range(n):
        G = r.choice([2, 3, 4, 5, 6])
        k = r.randint(1, G - 1)
        m = r.randint(G, maxn)
        if q % 60 == 7:
            G, k, m = r.choice([7, 10]), r.choice([1, 2]), r.choice([120, 260])
        if q % 30 == 1:                     # long folds
            G, m = r.choice([2, 3, 4]), r.choice([180, 420, 650])
            k = r.randint(1, G - 1)
        t, p, e = r.randint(0, 3), [], []
        style = r.choice(["const", "mixed", "rare", "zero", "anti", "one"])
        far = r.sample(range(m), min(m, 1 + m // 90))
        if q % 60 == 1:
            style = "one"
        gaps = r.choice([[1], [0, 1], [0, 1, 5], [1, 2, 30]])
        for i in range(m):
            t += r.choice(gaps)
            h = {"const": 2, "mixed": r.randint(0, 8), "rare": r.choice([0, 0, 0, 1, 1, 40]), "zero": 0,
                 "anti": max(0, 3 * (m - i) // 2),
                 "one": m // 2 + 5 if i in far else r.randint(0, 1)}[style]
            p.append(t)
            e.append(t + h)
        out.append(dict(cfg=dict(G=G, k=k, emb=r.choice([0, 0, 1, 2, 3, 7, 25, 500])), p=p, ev=e, prop=prop,
                        unit=r.choice(list(UNITS)), tz=r.choice([None, None, "UTC", "Europe/Rome"]), index=r.choice(["time", "time", "str", "range", "rev"]),
                        again=r.random() < .3, defemb=r.random() < .5, seed=r.randint(0, 10 ** 6)))
        if prop == "C11" and r.random() < .5:
            out[-1]["paths"] = True
            out[-1]["label"] = r.choice(["label", "label", "target"])
            if q % 50 == 9 and m >= 8:      # more than twenty paths
                out[-1]["cfg"].update(G=8, k=r.choice([3, 6]))
    return out
