"""Running triple-barrier labelling and reading what it reports (C01, C02, C03)."""
import math

import numpy as np
import pandas as pd

from .core import rat, close

DAY = 86400000
NOSIDE = 99          # TripleBarrier!NoSide
COMBOS = [(False, False), (False, True), (True, False), (True, True)]


def times(case):
    """Strictly increasing ms timestamps of the bars."""
    t = pd.Timestamp("2021-03-01").value // 10 ** 6
    out = []
    for g in case["gaps"]:
        t += g
        out.append(t)
    return out


def stamps(ts, case):
    """The bars' timestamps; the machine's time unit may be another than the millisecond."""
    t0 = pd.Timestamp("2021-03-01").value
    unit = case.get("sub") or 10 ** 6
    idx = pd.DatetimeIndex(pd.to_datetime([t0 + (t - t0 // 10 ** 6) * unit for t in ts], unit="ns"))
    return idx.tz_localize("UTC").tz_convert(case["tz"]) if case.get("tz") else idx


def frame(case, upto=None):
    n = len(case["c"]) if upto is None else upto
    idx = stamps(times(case)[:n], case)
    cname, sname = case.get("cname", "close"), case.get("sname", "side")
    c = np.array(case["c"][:n], dtype=float) * case.get("scale", 1)
    if case.get("intclose"):
        c = c.astype("int64")
    df = pd.DataFrame({cname: c}, index=idx)
    if case.get("sd") is not None:
        s = np.array(case["sd"][:n])
        if NOSIDE in case["sd"]:
            s = np.where(s == NOSIDE, np.nan, s.astype(float))
        if case.get("u", 1) != 1:
            s = s / case["u"]
        df[sname] = s.astype(float) if case.get("floatside") else s
    if case.get("extra"):
        # columns the labeller must not read
        for k, nm in enumerate(["close", "side", "open", "volume"]):
            if nm not in df.columns and nm != sname:
                df[nm] = np.arange(n)[::-1] * (k + 1) + 1.0
        if case["extra"] > 1:
            df = df[df.columns[::-1]]
    return df, cname, sname


def labeller(case, meta, explab):
    from mizarlabs.transformers.targets.labeling import TripleBarrierMethodLabeling
    kw = dict(num_expiration_bars=case["n"], profit_taking_factor=case["pt"][0] / case["pt"][1],
              stop_loss_factor=case["sl"][0] / case["sl"][1], metalabeling=meta,
              close_column_name=case.get("cname", "close"), side_column_name=case.get("sname", "side"),
              volatility_adjusted_horizontal_barriers=case.get("vol") is not None, expiration_label=explab)
    if case.get("vol") is not None:
        kw["volatility_window"] = case["vol"]
    return TripleBarrierMethodLabeling(**kw)


def label(case, meta, explab, upto=None):
    """dict(end, ret, lab, vol, pure) of one run on the first `upto` bars."""
    df, cname, sname = frame(case, upto)
    before = df.copy(deep=True)
    tb = labeller(case, meta, explab)
    out = tb.transform(df)
    pure = df.equals(before) and list(df.columns) == list(before.columns) and out.index.equals(df.index)
    if case.get("again"):
        pure = pure and tb.transform(df).equals(out)
    pos = {t: k + 1 for k, t in enumerate(df.index)}
    end = [0 if pd.isna(t) else pos.get(t, -1) for t in out["event_end_time"]]
    return dict(end=end, ret=[rat(x, case.get("maxden", 5000)) for x in out["return"]], lab=[rat(x) for x in out["label"]],
                vol=[float(x) for x in out["daily_vol"]], pure=bool(pure))


# ------------------------------------------------------------ irrational leaf of DailyVol
def ewm_std(x, span):
    """Exponentially weighted, bias-corrected standard deviation of the whole list x at its last element."""
    if len(x) < 2:
        return math.nan
    a = 2.0 / (span + 1.0)
    w = [(1 - a) ** (len(x) - 1 - k) for k in range(len(x))]
    sw, sw2 = math.fsum(w), math.fsum(v * v for v in w)
    m = math.fsum(v * y for v, y in zip(w, x)) / sw
    var = math.fsum(v * (y - m) ** 2 for v, y in zip(w, x)) / sw
    den = sw * sw - sw2
    return math.sqrt(max(0.0, var * sw * sw / den)) if den > 0 else math.nan


def vols(c, refs, span):
    """Volatility per bar from the reference bars the specification chose (1-based, 0 none)."""
    out, rets = [], []
    for i, r in enumerate(refs):
        if r > 0:
            rets.append(c[i] / c[r - 1] - 1)
        out.append(ewm_std(rets, span) if r > 0 else math.nan)
    return out


def same_vol(a, b):
    return close(a, b, 1e-8, 1e-6)


# ------------------------------------------------------------ recording
def events(case):
    """Trace of one case. v / s / exact are what phase 1 (DailyVol) decided."""
    n = len(case["c"])
    sv = case.get("v")
    ev = [dict(e="start", p=dict(n=case["n"], ptn=case["pt"][0], ptd=case["pt"][1], sln=case["sl"][0],
                                 sld=case["sl"][1], u=case.get("u", 1), s=case.get("S", 1), exact=sv is None))]
    cuts = sorted({k for k in case.get("cuts", []) if 1 <= k <= n} | {n})
    combos = [COMBOS[k] for k in case.get("combos", [0])]
    if case.get("sd") is None:
        combos = sorted({(False, e) for _, e in combos})
    k = 0
    for cut in cuts:
        while k < cut:
            ev.append(dict(e="bar", b=dict(c=case["c"][k], sd=case.get("u", 1) if case.get("sd") is None else case["sd"][k],
                                           v=1 if sv is None else sv[k])))
            k += 1
        for j, (meta, explab) in enumerate(combos):
            r = label(case, meta, explab, cut)
            vol = r.pop("vol")
            if sv is None:
                r["pure"] = r["pure"] and all(v == 1 for v in vol)
            ev.append(dict(e="query", meta=meta, explab=explab, do=case["do"],
                           last=cut == n and j == 0, **r))
    return ev


def phase1_events(case):
    t = times(case)
    base = t[0] if t else 0
    return [dict(e="start", day=DAY * 10 ** 6 // (case.get("sub") or 10 ** 6))] + [dict(e="bar", t=x - base) for x in t] + [dict(e="query")]


def with_vol(ctx, cases):
    """Fill in the scaled volatilities from the DailyVol specification; S = 1e5."""
    idx = [i for i, c in enumerate(cases) if c.get("vol") is not None]
    sub = [cases[i] for i in idx]
    ans = ctx.oracle("Trace_DailyVol", sub, [[dict(e, c=k) for e in phase1_events(c)] for k, c in enumerate(sub)])
    for k, c in enumerate(sub):
        c["refs"] = ans[k][0]["refs"]
        S = 100000
        c["S"] = S
        c["v"] = [-1 if math.isnan(v) else int(round(v * S)) for v in vols(c["c"], c["refs"], c["vol"])]
    return cases


# ------------------------------------------------------------ generators
GAPS = dict(
    hourly=[3600000], half=[43200000], daily=[DAY], dayish=[DAY - 1, DAY, DAY + 1, 3600000],
    mixed=[1, 60000, 3600000, 7200000, 43200000, DAY - 3600000, DAY, DAY + 1, 2 * DAY], fast=[1, 500, 1000, 60000])


def gen_case(r, maxlen, vol=None, cuts=0, big=False):
    n = r.choice([1, 2, 3, 5, 8, 15, 30, 60, maxlen])
    n = 400 if big else min(n, maxlen)
    style = r.choice(["walk", "walk", "jumpy", "flat", "trend"])
    x, c = r.randint(20, 120), []
    lo, hi = 10, 200
    for k in range(n):
        if style == "walk":
            x += r.randint(-3, 3)
        elif style == "jumpy":
            x = x * r.choice([1, 1, 1, 2, 3, 4, 5]) // r.choice([1, 1, 1, 2, 3, 4, 5])
        elif style == "flat":
            x += r.choice([0, 0, 0, 0, 0, 1, -1])
        else:
            x += r.choice([0, 1, 2])
        x = max(lo, min(hi, x))
        c.append(x)
    tiny = not vol and r.random() < .12
    if tiny:      # returns of 1e-7 and less still have a sign
        base = r.choice([2 ** 22, 2 ** 23, 2 ** 24 - 200])
        c = [base + (x - 100) // r.choice([1, 1, 20]) for x in c]
    kind = r.choice(list(GAPS))
    if vol and r.random() < .8:
        kind = r.choice(["half", "daily", "dayish", "mixed"])
    # long histories: the time unit is a second, a minute or an hour
    sub = r.choice([10 ** 9, 60 * 10 ** 9, 3600 * 10 ** 9]) if vol and r.random() < .3 else 0
    d = DAY * 10 ** 6 // sub if sub else 0
    gaps, tot = [], 0
    for _ in range(n):
        g = r.choice(GAPS[kind]) if not sub else r.choice([1, d // 4, d // 2, d - 1, d, d + 1, d, 2 * d, 5 * d, 8 * d, 30 * d])
        if sub and tot + g > 2 * 10 ** 9:
            g = 1
        if not sub and tot + g > 2 * 10 ** 9:      # TLC's integers are 32 bits
            g = 1000
        tot += g
        gaps.append(g)
    if vol:
        facs = [(0, 1), (1, 4), (1, 2), (1, 1), (3, 2), (2, 1), (3, 1), (1, 10), (1, 40)]
    else:
        facs = [(0, 1), (1, 64), (1, 32), (1, 16), (1, 8), (1, 4), (1, 2), (1, 1), (3, 64), (1, 1024), (2, 1)]
    case = dict(c=c, gaps=gaps, n=r.choice([1, 2, 3, 4, 5, 8, 13, 30, 100]), pt=list(r.choice(facs)),
                sl=list(r.choice(facs)), sd=None, extra=r.choice([0, 0, 1, 2]))
    if r.random() < .7:
        case["sd"] = [r.choice([-1, 1, 1, 0]) if style != "trend" else -1 for _ in c]
        case["floatside"] = r.random() < .5
        if r.random() < .15 and not tiny:      # sides between the whole ones, as a strategy's may be
            case["u"] = 4
            for k in ("pt", "sl"):
                case[k] = [1, 10] if case[k] == [1, 40] else case[k]
            case["sd"] = [r.choice([-4, 4, 2, -2, 1, -1, 8, 0]) for _ in c]
        if r.random() < .2:         # bars without a side, e.g. while the side's own rule warms up
            w = r.choice([1, 3, 10])
            case["sd"] = [NOSIDE if k < w or r.random() < .05 else s for k, s in enumerate(case["sd"])]
    if r.random() < .3:
        case["cname"] = r.choice(["price", "my_close"])
    if r.random() < .3:
        case["sname"] = r.choice(["direction", "my_side"])
    case["scale"] = r.choice([1, 1, 0.25, 4, 1024, 2.0 ** -24])
    case["tz"] = r.choice([None, None, None, "UTC", "Europe/Rome"])
    case["sub"] = sub
    if not vol:
        case["sub"] = r.choice([0, 0, 1000, 1])
    if tiny:
        case["maxden"] = 2 ** 24
    if case["scale"] >= 1 and r.random() < .2:
        case["intclose"] = True
    if r.random() < .15:
        case["again"] = True
    if vol:
        case["vol"] = r.choice([1, 2, 3, 5, 10, 50, 100])
    if big:
        case["n"] = r.choice([60, 130, 260, 300])
    case["cuts"] = [r.randint(1, n) for _ in range(cuts)]
    return case
