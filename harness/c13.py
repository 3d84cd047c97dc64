"""C13: composition of primary model, meta-model and bet sizer; training sets."""
import numpy as np
import pandas as pd

from .core import close, rat
from .pipes import Model, Tr, frozen, same_frames, stamps

NOY = 9
CLS = [0, 1]


class Sizer:
    """Bet sizer whose answer tells what it was shown."""

    def __init__(self, den):
        self.den, self.seen = den, []

    def transform(self, X):
        self.seen.append(X.copy())
        side = X["side"] + 2 if "side" in X else 0
        return (X["prob"] * self.den * 100 + (X["pred"] + 2) * 10 + side) / 10000


def real_sizer(case):
    from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities
    meta = case["cfg"]["meta"]
    return BetSizingFromProbabilities(num_classes=2 if meta else len(case["mdl"]["pc"]), meta_labeling=meta)


def build(case):
    from mizarlabs.model.pipeline import StrategySignalPipeline
    cfg, mdl, bars = case["cfg"], case["mdl"], case["bars"]
    idx = stamps(case.get("ts") or list(range(len(bars))), case.get("unit", "h"), case.get("tz"))
    nan = float("nan")
    alt = case.get("alt", [0] * len(bars))
    dec = [float(i) for i in range(len(bars))]
    # an undefined row is one with any undefined column
    warm = 0
    if case.get("second"):
        while warm < len(bars) - 1 and bars[warm]["p"] == 0:
            warm += 1
    pk = [b["p"] if b["p"] and not (b["p"] == 0) else nan for b in bars]
    pj = list(dec)
    for i, b in enumerate(bars):
        if b["p"] == 0 and (alt[i] or i < warm):
            pk[i] = 1.0
            if i >= warm:
                pj[i] = nan
    mk = [b["m"] if b["m"] else nan for b in bars]
    mj = list(dec)
    for i, b in enumerate(bars):
        if b["m"] == 0 and alt[i]:
            mk[i], mj[i] = 1.0, nan
    X = {"L": pd.DataFrame({"pk": pk, "pj": pj, "mk": mk, "mj": mj, "junk": nan}, index=idx)}
    prim = {"L": Tr(cols=["pk", "pj"])}
    how = {}
    if case.get("second"):
        X["A"] = pd.DataFrame({"a": dec[warm:]}, index=idx[warm:])
        prim["A"] = None
        how["A"] = "mean"
        if case.get("order"):
            X = dict(reversed(list(X.items())))
            prim = dict(reversed(list(prim.items())))
    kw = {}
    if cfg["meta"] or not case.get("nometa"):
        kw["feature_transformers_metalabeling_model"] = {"L": Tr(cols=["mk", "mj"])}
    sizer = Sizer(mdl["den"]) if cfg["sizer"] else None
    if sizer and case.get("real"):
        sizer = real_sizer(case)
    if sizer or case.get("order"):
        kw["bet_sizer"] = sizer
    if not (cfg["usePred"] and cfg["useProba"]) or case.get("order"):
        kw.update(metalabeling_use_proba_primary_model=cfg["useProba"], metalabeling_use_predictions_primary_model=cfg["usePred"])
    pipe = StrategySignalPipeline(feature_transformers_primary_model=prim, align_on="L", align_how=how, **kw)
    tab = lambda xs, f=lambda v: v: {k + 1: f(v) for k, v in enumerate(xs)}
    eig = lambda v: [x / mdl["den"] for x in v]
    typ = float if case.get("floatcls") else int
    pipe.set_primary_model(Model("pk", tab(mdl["pp"], typ), tab(mdl["pq"], eig), [typ(c) for c in mdl["pc"]]))
    if cfg["meta"]:
        pipe.set_metalabeling_model(Model("mk", tab(mdl["mp"], typ), tab(mdl["mq"], eig), [typ(c) for c in CLS]))
    return pipe, X, sizer, idx


def wt(v, den):
    v = float(v) * den
    return int(round(v)) if abs(v - round(v)) < 1e-9 else -99


def num(v):
    return int(v) if v == v and float(v) == int(v) else -99


def meta_rows(df, pos, den):
    out = []
    qs = sorted(c for c in df.columns if str(c).startswith("primary_side_pred_proba_"))
    for t, r in df.iterrows():
        out.append(dict(t=pos.get(t, 0), m=num(r["mk"]), pred=[num(r["primary_side_pred"])] if "primary_side_pred" in df else [],
                        q=[wt(r[c], den) for c in qs]))
    return out


def observe(case):
    pipe, X, sizer, idx = build(case)
    pos = {t: i + 1 for i, t in enumerate(idx)}
    before = frozen(X)
    cfg, bars, den = case["cfg"], case["bars"], case["mdl"]["den"]
    res = {}
    hasp = any(b["p"] for b in bars)
    join = cfg["usePred"] or cfg["useProba"]
    hasm = not cfg["meta"] or any(b["m"] and (b["p"] or not join) for b in bars)
    if hasp and hasm:
        if case.get("again"):
            pipe.get_side_and_size(X)
            if isinstance(sizer, Sizer):
                sizer.seen.clear()
        pred = pipe.predict(X)
        prob = pipe.predict_proba(X)
        pr, pp = pred["primary_model_predictions"], prob["primary_model_proba"]
        res["prim"] = [dict(t=pos.get(t, 0), side=num(pr.loc[t]), q=[wt(pp.loc[t, c], den) for c in case["mdl"]["pc"]]) for t in pr.index] \
            if pr.index.equals(pp.index) else [["index of predictions and probabilities differ"]]
        if cfg["meta"]:
            seen = [(w, meta_rows(df, pos, den)) for w, df in pipe.metalabeling_model.seen]
            ok = all(s[1] == seen[0][1] for s in seen) and {"predict", "proba"} <= {s[0] for s in seen}
            res["meta"] = seen[0][1] if ok else [["calls differ"]]
            mr, mp = pred["metalabeling_model_predictions"], prob["metalabeling_model_proba"]
            res["mout"] = [dict(t=pos.get(t, 0), p=num(mr.loc[t]), q=[wt(mp.loc[t, c], den) for c in CLS]) for t in mr.index] \
                if mr.index.equals(mp.index) else [["index of predictions and probabilities differ"]]
        else:
            none = pred["metalabeling_model_predictions"] is None and prob["metalabeling_model_proba"] is None
            res["meta"] = res["mout"] = [] if none else [["unexpected"]]
        sig = pipe.get_side_and_size(X)
        res["signal"] = [dict(t=pos.get(t, 0), side=num(r["side"]), size=rat(r["size"], 20000)) for t, r in sig.iterrows()]
        res["sized"] = []
        if sizer and not isinstance(sizer, Sizer):
            res["rawsize"] = [float(v) for v in sig["size"]]
        elif sizer:
            df = sizer.seen[-1]
            res["sized"] = [dict(t=pos.get(t, 0), pred=num(r["pred"]), prob=wt(r["prob"], den),
                                 side=[num(r["side"])] if "side" in df and r["side"] == r["side"] else []) for t, r in df.iterrows()]
    if case.get("noy"):
        res["pure"] = same_frames(before, X)
        return res
    y = pd.Series([np.nan if b["y"] == NOY else float(b["y"]) for b in bars], index=idx)
    if case.get("ydrop"):
        y = y.dropna()
    y0 = y.copy()
    if any(b["p"] and b["y"] != NOY for b in bars):
        A, ya = pipe.create_dataset_primary(X, y)
        res["dsp"] = [dict(t=pos.get(t, 0), p=num(A["pk"].loc[t]), y=num(ya.loc[t])) for t in A.index] if A.index.equals(ya.index) \
            else [["index of features and target differ"]]
        if any(b["p"] and b["y"] != NOY and b["m"] for b in bars) and not (case.get("nometa") and not cfg["meta"]):
            B, yb = pipe.create_dataset_metalabeling(X, y)
            rows = meta_rows(B, pos, den)
            res["dsm"] = [dict(r, y=num(yb.iloc[j])) for j, r in enumerate(rows)] if B.index.equals(yb.index) \
                else [["index of features and metalabels differ"]]
    res["pure"] = same_frames(before, X) and y.equals(y0)
    return res


def replay(case):
    res = observe(case)
    if "rawsize" in res:
        # the package's own sizer: its answer on the rows the specification shows it
        sz = real_sizer(case)
        want = []
        for r in case["sized"]:
            f = pd.DataFrame(dict(pred=[r["pred"]], prob=[r["prob"] / case["mdl"]["den"]], **(dict(side=[r["side"][0]]) if r["side"] else {})),
                             index=stamps([r["t"]]))
            want.append(float(sz.transform(f).iloc[0]))
        got = res.pop("rawsize")
        if [(r["t"], r["side"]) for r in res["signal"]] != [(r["t"], r["side"]) for r in case["signal"]] or \
                not all(close(a, b) for a, b in zip(got, want)):
            return dict(clause="side and size with the package's bet sizer", got=[res["signal"], got], want=[case["sized"], want])
        del res["sized"], res["signal"]
    for k in ("prim", "meta", "sized", "signal", "dsp", "dsm"):
        if k in res and res[k] != case[k]:
            return dict(clause=k, got=res[k], want=case[k])
    if res.get("mout"):
        want = [dict(t=r["t"], p=case["mdl"]["mp"][r["m"] - 1], q=case["mdl"]["mq"][r["m"] - 1]) for r in case["meta"]]
        if res["mout"] != want:
            return dict(clause="mout", got=res["mout"], want=want)
    if not res["pure"]:
        return dict(clause="the caller's frames are not modified")


def events(case):
    res = observe(case)
    ev = [dict(e="start", cfg=case["cfg"], mdl=case["mdl"])] + [dict(e="bar", b=b) for b in case["bars"]]
    if "dsp" in res:
        ev.append(dict(e="datasets", dsp=res["dsp"], dsm=res.get("dsm", []), skipmeta="dsm" not in res, pure=res["pure"]))
    if "prim" in res:
        ev += [dict(e="primary", prim=res["prim"]), dict(e="meta", meta=res["meta"], mout=res["mout"]),
               dict(e="sizer", sized=res["sized"]), dict(e="signal", signal=res["signal"])]
    return ev


def weights(r, k, den):
    """k weights in units of 1/den with one strict winner."""
    while True:
        if den > 8:       # nearly even
            q = [den // k + r.choice([-1, 0, 0, 1]) for _ in range(k - 1)]
            q.insert(r.randint(0, k - 1), den - sum(q))
        else:
            cut = sorted(r.randint(0, den) for _ in range(k - 1))
            q = [b - a for a, b in zip([0] + cut, cut + [den])]
        if sorted(q)[-1] > sorted(q)[-2]:
            return q


def gen(r, n):
    out = []
    for i in range(n):
        pc = r.choice([[-1, 1], [-1, 0, 1], [0, 1]])
        den = 4096 if r.random() < .2 else 8
        K, M = r.randint(2, 5), r.randint(2, 5)
        mdl = dict(pc=pc, pp=[r.choice(pc) for _ in range(K)], pq=[weights(r, len(pc), den) for _ in range(K)],
                   mp=[r.choice(CLS) for _ in range(M)], mq=[weights(r, 2, den) for _ in range(M)], den=den)
        N = r.choice([1, 2, 3, 6, 12, 25]) if i % 50 != 7 else 150
        dp, dm, dy = r.choice([0, .1, .5]), r.choice([0, .1, .5]), r.choice([0, .1, .5])
        wp, wm = r.choice([0, 0, 1, 3]), r.choice([0, 0, 2, 5])
        bars = [dict(p=0 if r.random() < dp or j < wp else r.randint(1, K), m=0 if r.random() < dm or j < wm else r.randint(1, M),
                     y=NOY if r.random() < dy else r.choice([-1, 0, 1])) for j in range(N)]
        ts = np.cumsum([r.choice([1, 1, 2, 7]) for _ in range(N)]).tolist()
        out.append(dict(cfg={k: r.random() < .5 for k in ("meta", "sizer", "usePred", "useProba")}, mdl=mdl, bars=bars, ts=ts,
                        unit=r.choice(["ms", "min", "h", "d", "ns"]), tz=r.choice([None, "UTC"]), alt=[r.randint(0, 1) for _ in bars],
                        second=r.random() < .5, order=r.random() < .5, nometa=r.random() < .5, again=r.random() < .2,
                        ydrop=r.random() < .4, floatcls=r.random() < .4))
    return out


def reject(case):
    """Targets that are no side are refused."""
    pipe, X, _, idx = build(case)
    y = pd.Series(case["y"], index=idx, dtype=float)
    for fn in (pipe.create_dataset_primary, pipe.create_dataset_metalabeling):
        try:
            fn(X, y)
        except Exception:
            continue
        return dict(clause="a target outside -1, 0, 1 is refused", fn=fn.__name__)


def judge(ctx, cases):
    ctx.judge("Trace_Signal", cases, ctx.record(events, cases))


REPLAY = {"replay": replay, "trace": judge}


def run(ctx):
    r = ctx.rng
    ctx.rules.append("spec->code: every pattern of defined and undefined primary features, meta features and targets over 2-3 bars x all 16 configurations from TLC, with table-driven models whose prediction differs from their most probable class. "
                     "code->spec: seeded runs up to 25 bars, random model tables, a second frame with a later start, judged stage by stage by TLC. Non-trivial: distinct case.")
    ctx.assumptions += ["models and sizer are stand-ins that record what they are shown", "one class strictly most probable", "runs in which a model would be shown no row at all are not judged"]
    cases = ctx.mc("MC_Signal", ctx.pick("MC_Signal", "MC_Signal_thorough"))
    for i, c in enumerate(cases):
        c.update(second=i % 2, order=(i // 2) % 2, ydrop=(i // 4) % 2, floatcls=(i // 8) % 2, real=r.random() < .5)
    ctx.sample(cases[100])
    ctx.replay(replay, cases, limit=ctx.pick(1500, 15000))
    g = gen(r, ctx.pick(400, 4000))
    ctx.sample(g[1])
    judge(ctx, g)
