"""Input builders shared by the property harnesses."""
import random

import numpy as np
import pandas as pd


def make_index(n, seed=0, kind="hourly", start="2021-03-01"):
    """Strictly increasing unique DatetimeIndex (ms resolution) of length n; 'rev' is decreasing."""
    r = random.Random(seed)
    t0 = pd.Timestamp(start)
    if kind == "hourly":
        return pd.date_range(t0, periods=n, freq="H")
    if kind == "daily":
        return pd.date_range(t0, periods=n, freq="D")
    if kind == "tz":
        return pd.date_range(t0, periods=n, freq="H", tz="UTC")
    steps = [r.choice([1, 7, 1000, 60000, 3599999, 3600000, 86399999, 86400000, 86400001, 259200000]) for _ in range(n)]
    ms = np.cumsum([0] + steps)[:n]
    idx = pd.DatetimeIndex(t0 + pd.to_timedelta(ms, unit="ms"))
    return idx[::-1] if kind == "rev" else idx
