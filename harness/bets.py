"""Bet sizing (C15, C16): running the code, evaluating Phi, judging the grid."""
import math

import numpy as np
import pandas as pd

from .core import close

KW = dict(probability_column_name="prob", prediction_column_name="pred", side_column_name="side",
          event_end_time_column_name="event_end_time")


def leaf(o):
    """c * (2*Phi(sqrt(z2)) - 1)."""
    if not o["c"]:
        return 0.0
    n, d = o["z2"]
    return 1.0 if d == 0 else math.erf(math.sqrt(n / d / 2))


def sizer(case, **extra):
    from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities
    kw = dict(num_classes=case["cfg"]["K"], **extra)
    if case["cfg"]["meta"]:
        kw["meta_labeling"] = True
    names = case.get("names") or {}
    for k, v in KW.items():
        if names.get(v, v) != v:
            kw[k] = names[v]
    return BetSizingFromProbabilities(**kw)


def frame(case, index, ends=None):
    nm = case.get("names") or {}
    rows = case["rows"]
    d = {nm.get("prob", "prob"): [r["n"] / r["d"] for r in rows], nm.get("pred", "pred"): [r["pred"] for r in rows]}
    if case["cfg"]["meta"] or case.get("sidecol"):
        d[nm.get("side", "side")] = [r["side"] for r in rows]
    if ends is not None:
        d[nm.get("event_end_time", "event_end_time")] = ends
    X = pd.DataFrame(d, index=index)
    if case.get("floats"):
        X[nm.get("pred", "pred")] = X[nm.get("pred", "pred")].astype(float)
    for k in nm:              # decoys under the default names
        if nm[k] != k and k not in X:
            X[k] = np.linspace(0.91, 0.17, len(X)) if k != "event_end_time" else index
    if case.get("rev"):
        X = X[X.columns[::-1]]
    return X


def micro(v):
    return int(round(float(v) * 10 ** 6))


def milli(v):
    """A float that is a whole number of thousandths, else an impossible value."""
    v = float(v)
    if math.isnan(v) or abs(v) > 100:
        return 99999
    k = int(round(v * 1000))
    return k if abs(v * 1000 - k) < 1e-6 else 99998


def same_index(a, b):
    return len(a) == len(b) and list(a) == list(b)
