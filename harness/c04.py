"""C04: trend scanning."""
import math

import numpy as np
import pandas as pd

from .core import close
from .inputs import make_index

FORMS = ("list", "index", "array")


def scan(scanner, case, ys, events, iseed=None):
    """One call on a scanner; {position: (end position or None, t, return, label)} in output order."""
    idx = make_index(len(ys), case["iseed"] if iseed is None else iseed, case["ikind"])
    y = pd.Series([case["base"] + case["scale"] * v for v in ys], index=idx, name="close")
    before = y.copy(deep=True)
    scanner.t_events = None
    if events is not None:
        ev = idx[list(events)]
        scanner.t_events = dict(list=list(ev), index=ev, array=ev.values if idx.tz is None else np.array(list(ev)))[case["form"]]
    out = scanner.transform(y)
    if not y.equals(before):
        return dict(clause="the input is not modified")
    want = list(range(len(ys))) if events is None else list(events)
    if list(out.index) != list(idx[want]):
        return dict(clause="one row per event, in order", got=[str(i) for i in out.index][:10], want=want[:10])
    res = []
    cols = [out[c].tolist() for c in ("event_end_time", "t_value", "return", "label")]
    for k, end, t, ret, lab in zip(want, *cols):
        e = None if pd.isna(end) else int(idx.get_indexer([end])[0])
        res.append((k, e, float(t), float(ret), float(lab)))
    return res


def compare(case, ys, res, out):
    p = [case["base"] + case["scale"] * v for v in ys]
    for k, e, t, ret, lab in res:
        a = out[k]
        if not a["done"]:
            if e is not None or t == t or ret == ret or lab == lab:
                return dict(clause="events without a full window are undefined", event=k, got=[e, t, ret, lab])
            continue
        c = next((c for c in a["cand"] if e is not None and c["len"] == e - k + 1), None)
        if c is None:
            return dict(clause="the horizon of the largest absolute t-value is reported", event=k, got=None if e is None else e - k + 1, want=a)
        n, d = a["t2"]
        if d == 0:
            okt = abs(t) > 1e5
        else:
            okt = close(abs(t), math.sqrt(n / d), 1e-6, 1e-6)
        if not okt or (n and (t > 0) != (c["sgn"] > 0)):
            return dict(clause="t-value of the reported horizon", event=k, got=t, want=a)
        if c["flat"] and lab != 0:
            return dict(clause="a constant window has no trend", event=k, got=lab)
        if lab != (0 if t == 0 else 1 if t > 0 else -1):
            return dict(clause="the label is the sign of the t-value", event=k, got=lab, t=t)
        if not close(ret, p[e] / p[k] - 1, 1e-12):
            return dict(clause="return to the end of the horizon", event=k, got=ret, want=p[e] / p[k] - 1)
    return None


def session(case, outs):
    """A sequence of calls on one scanner object; outs[j] is the specification's answer for series j."""
    import numba
    from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling
    c = case["cfg"]
    scanner = TrendScannerLabeling(look_forward_window=c["w"], min_sample_length=c["m"], step=c["step"])
    for j, call in enumerate(case["calls"]):
        numba.set_num_threads(min(call.get("threads", 2), numba.config.NUMBA_NUM_THREADS))
        r = scan(scanner, case, case["series"][call["s"]], call["events"], case["iseed"] + call["s"])
        bad = r if isinstance(r, dict) else compare(case, case["series"][call["s"]], r, outs[call["s"]])
        if bad is None and call["events"] is None:
            # a fresh scanner that never had events set gives the same
            fresh = TrendScannerLabeling(None, c["w"], c["m"], c["step"])
            for again in (0, 1):
                idx = make_index(len(case["series"][call["s"]]), case["iseed"] + call["s"], case["ikind"])
                y = pd.Series([case["base"] + case["scale"] * v for v in case["series"][call["s"]]], index=idx)
                o = fresh.transform(y)
                if len(o) != len(y) or not np.array_equal(np.asarray(o.t_value, dtype=float), np.array([x[2] for x in r]), equal_nan=True):
                    bad = dict(clause="a scanner does not remember earlier calls")
        if bad:
            return dict(bad, call=j)
    return None


def replay(case):
    n = len(case["ys"])
    c = dict(case, series=[case["ys"]], calls=[dict(s=0, events=None), dict(s=0, events=[n - 1 - i for i in range(0, n, 2)], threads=1), dict(s=0, events=[n // 3]), dict(s=0, events=None)])
    return session(c, [case["out"]])


def replay_session(case):
    return session(case, case["outs"])


def reject(case):
    from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling
    try:
        TrendScannerLabeling(None, case["w"], case["m"])
    except AssertionError:
        return None if case["m"] >= case["w"] else dict(clause="refused although the window is longer than the minimum")
    return None if case["m"] < case["w"] else dict(clause="a minimum length not below the window is refused")


def trace(ctx, cases):
    """TLC answers every series of every case; then the real scanner runs the whole session."""
    flat, owner = [], []
    for i, c in enumerate(cases):
        for s in c["series"]:
            flat.append(dict(cfg=c["cfg"], ys=s))
            owner.append(i)
    evs = [[dict(e="start", cfg=f["cfg"], c=j)] + [dict(e="bar", y=y, c=j) for y in f["ys"]] + [dict(e="query", c=j)] for j, f in enumerate(flat)]
    ans = ctx.oracle("Trace_TrendScan", flat, evs)
    for c in cases:
        c["outs"] = []
    for j, i in enumerate(owner):
        cases[i]["outs"].append(ans[j][0]["out"])
    ctx.replay(replay_session, cases, kind="replay_session")


REPLAY = {"replay": replay, "replay_session": replay_session, "replay_reject": reject}


def gen(r, i):
    w, amp = r.choice([(5, 25), (7, 20), (10, 15), (13, 12), (20, 4)])
    m = r.randint(3, w - 1)
    c = dict(cfg=dict(w=w, m=m, step=r.choice([1, 1, 2, 3, 5, w])), base=r.choice([50, 100, 1000, 2 ** 17]), scale=r.choice([1, .5, .125]),
             ikind=["hourly", "irregular", "tz", "daily"][i % 4], iseed=r.randint(0, 999), form=FORMS[i % 3], series=[], calls=[])
    for s in range(r.choice([1, 2, 2])):
        n = r.choice([1, w - 1, w, w + 1, w + 7, 60, 150])
        kind = r.choice(["walk", "noise", "trend", "steps", "line"])
        ys, x, up = [], 0, 1
        for j in range(n):
            if r.random() < .1:
                up = -up
            if kind == "walk":
                x += r.choice([-1, 0, 1])
            elif kind == "trend":
                x += r.choice([0, up, up])
            elif kind == "steps":
                x = r.choice([x, x, x, x + 2, x - 2])
            elif kind == "line":
                x += up if j % 40 else 0
            else:
                x = r.randint(-amp // 2, amp // 2)
            x = max(-amp // 2, min(amp // 2, x)) if kind != "line" else max(-40, min(40, x))
            ys.append(x)
        c["series"].append(ys)
    for k in range(r.choice([2, 3, 4])):
        s = r.randrange(len(c["series"]))
        n = len(c["series"][s])
        ev = None if r.random() < .4 else r.sample(range(n), r.randint(1, n))
        if ev and r.random() < .5:
            ev.sort()
        c["calls"].append(dict(s=s, events=ev, threads=r.choice([1, 2, 4])))
    return c


def run(ctx):
    r = ctx.rng
    ctx.rules.append("spec->code: every series of 7 bars over three levels for three window configurations (TLC), scanned whole, by subsets and again. "
                     "code->spec: seeded series up to 150 bars, sessions of calls on one scanner object (events as list, index or array, several series, thread counts); TLC gives the exact squared t-values and tied horizons. Non-trivial: distinct case.")
    ctx.assumptions += ["min_sample_length >= 3 (the t-value of a two-point fit does not exist)", "horizons whose exact t-values tie may be reported either way unless all are constant"]
    def one():
        from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling
        TrendScannerLabeling(None, 6, 3).transform(pd.Series([1., 3, 2, 4, 6, 5, 7, 9], index=make_index(8)))

    ready = ctx.warm(one)
    cases = ctx.mc("MC_TrendScan", ctx.pick("MC_TrendScan", "MC_TrendScan_thorough"))
    ready()
    for i, c in enumerate(cases):
        c.update(base=[100, 10, 1000][i % 3], scale=[1, .25, 1, .1][i % 4], ikind=["hourly", "tz", "irregular"][i % 3], iseed=i % 50, form=FORMS[i // 2 % 3])
    ctx.sample(cases[len(cases) // 2])
    ctx.replay(replay, cases, limit=ctx.pick(700, 8000))
    ctx.replay(reject, [dict(w=w, m=m) for w in (4, 5, 9) for m in (3, 4, 5, 8, 9, 12)], kind="replay_reject")
    trace(ctx, [gen(r, i) for i in range(ctx.pick(250, 3000))])
