"""C22: the TA factory binds columns and keyword arguments to the right parameters."""
import ast

import numpy as np
import pandas as pd

PRICES = ("open", "high", "low", "close", "volume")
OTHERS = ("x", "y", "my price", "h2", "periods")


def library():
    """{name: dict(name, args, kws, kinds, outs)} from the library's own description of itself."""
    import talib
    import talib.abstract as ab
    out = {}
    for f in talib.get_functions():
        i = ab.Function(f).info
        args = []
        for k, v in i["input_names"].items():
            if isinstance(v, (list, tuple)):
                args += list(v)
            else:
                args.append(k.replace("price", "real"))
        out[f] = dict(name=f, args=args, kws=list(i["parameters"]), kinds={k: type(v).__name__ for k, v in i["parameters"].items()},
                      defaults=dict(i["parameters"]), outs=len(i["output_names"]))
    return out


def column(name, n, seed):
    rs = np.random.RandomState(seed)
    base = 60 + np.cumsum(rs.randint(-3, 4, n)) * .5
    if name in PRICES:
        o, c = base, base + rs.randint(-4, 5, n) * .25
        d = dict(open=o, close=c, high=np.maximum(o, c) + rs.randint(0, 5, n) * .25,
                 low=np.minimum(o, c) - rs.randint(0, 5, n) * .25, volume=rs.randint(1, 400, n).astype(float))
        return d[name]
    k = sum(map(ord, name))
    rs = np.random.RandomState(seed + k)
    if name == "periods":
        return rs.randint(2, 12, n).astype(float)
    return .05 + .9 * rs.rand(n)      # inside the domain of every arithmetic function


def frame(names, case):
    n, seed = case["n"], case.get("seed", 0)
    idx = dict(range=lambda: pd.RangeIndex(n), dates=lambda: pd.date_range("2021-01-01", periods=n, freq="1h"),
               dup=lambda: pd.DatetimeIndex(np.repeat(pd.date_range("2021-01-01", periods=n, freq="1h"), 2)[:n]),
               strs=lambda: pd.Index(["r%d" % (n - i) for i in range(n)]))[case.get("idx", "dates")]()
    X = pd.DataFrame({c: column(c, n, seed) for c in names}, index=idx)
    for c in case.get("nanhead", []):
        if c in X and n > 3:
            X.iloc[: n // 6, X.columns.get_loc(c)] = np.nan
    return X


def val(v):
    return ast.literal_eval(v) if isinstance(v, str) else v


ODD = [5, ["high", "x"], ("high",), "high", {"high"}]


def make(fac, req):
    kw = {}
    col, mp, k = req["col"], req["map"], req["kw"]
    if col["t"] != "none":
        kw["col_to_transform"] = dict(str=lambda: col["v"][0], list=lambda: list(col["v"]), odd=lambda: [5, 7])[col["t"]]()
    if mp["t"] != "none":
        kw["col_to_transform_mapping"] = {a: b for a, b in mp["v"]} if mp["t"] == "dict" else ODD[len(req["f"]) % len(ODD)]
    if k["t"] != "none":
        kw["kw_args"] = {a: val(b) for a, b in k["v"]}
    return fac.create_transformer(req["f"], **kw)


def reference(b, X):
    import talib
    out = getattr(talib, b["f"])(*[X[c].values for c in b["cols"]], **{a: val(v) for a, v in b["kw"]})
    return np.column_stack(out if isinstance(out, tuple) else (out,)).astype(float)


def same(a, b):
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


def replay(case):
    from mizarlabs.transformers.technical.factory import TAFactory
    shared = TAFactory()
    built, ai = [], 0
    for si, st in enumerate(case["steps"]):
        fac = shared if case.get("shared", True) else TAFactory()
        if st["op"] == "create":
            want = case["built"][len(built)]
            try:
                t = make(fac, st["req"])
            except Exception as e:
                t = None
                if "refused" not in want:
                    return dict(clause="a valid request is accepted", step=si, request=st["req"], got=repr(e), want=want)
            if t is not None and "refused" in want:
                return dict(clause="an invalid request is rejected", step=si, request=st["req"], want=want)
            built.append(t)
            continue
        want = case["applied"][ai]
        ai += 1
        t = built[st["k"] - 1]
        X = frame(st["frame"], case)
        X0 = X.copy(deep=True)
        arg = X if st["frame"] or case.get("empty") else X0.values
        try:
            got = t.fit_transform(arg) if si % 2 else t.transform(arg)
            err = None
        except Exception as e:
            got, err = None, e
        if not X.equals(X0) or list(X.columns) != list(X0.columns):
            return dict(clause="input left unmodified", step=si)
        if "refused" in want:
            if err is None:
                return dict(clause="a call without the columns is rejected", step=si, want=want)
            continue
        try:
            ref = reference(want, X0)
        except Exception:
            ref = None
        if ref is None:
            if err is None:
                return dict(clause="values the function rejects", step=si, want=want)
            continue
        if err is not None:
            return dict(clause="a valid call succeeds", step=si, got=repr(err), want=want)
        if not isinstance(got, np.ndarray) or got.ndim != 2:
            return dict(clause="result is two-dimensional", step=si, got=str(type(got)), want=want)
        if got.shape != ref.shape:
            return dict(clause="one row per input row, one column per output", step=si, got=list(got.shape), want=list(ref.shape))
        if not same(got.astype(float), ref):
            return dict(clause="the function on the bound columns and keywords", step=si, want=want)
        if not same(np.asarray(t.transform(arg), dtype=float), ref):
            return dict(clause="same answer when called again", step=si, want=want)


def signature(case):
    """get_args_kwargs and the listings agree with the library's description."""
    from mizarlabs.transformers.technical.factory import TAFactory
    fac = TAFactory()
    for _ in range(2):
        a, k = fac.get_args_kwargs(case["name"])
        if list(a) != case["args"] or list(k or []) != case["kws"]:
            return dict(clause="parameters of a function", got=[a, k], want=[case["args"], case["kws"]])
        a.append("spoiled")      # the caller's list, not the factory's
    if case["name"] not in fac.get_functions() or not any(case["name"] in v for v in fac.get_function_groups().values()):
        return dict(clause="function is listed")


def tlc_events(case, lib):
    names = sorted({s["req"]["f"] for s in case["steps"] if s["op"] == "create"} & set(lib))
    ev = [dict(e="start", table=[{k: lib[f][k] for k in ("name", "args", "kws")} for f in names])]
    for s in case["steps"]:
        ev.append(dict(e="create", req=s["req"]) if s["op"] == "create" else dict(e="apply", k=s["k"], frame=s["frame"]))
    return ev


def judge(ctx, cases):
    lib = library()
    ans = ctx.oracle("Trace_TaFactory", cases, [[dict(e, c=i) for e in tlc_events(c, lib)] for i, c in enumerate(cases)])
    full = []
    for i, c in enumerate(cases):
        steps = [s for s, a in zip(c["steps"], ans[i]) if a["op"] != "none"]
        full.append(dict(c, steps=steps, built=[a["res"] for a in ans[i] if a["op"] == "create"],
                         applied=[a["res"] for a in ans[i] if a["op"] == "apply"]))
    for c in full:
        ctx.count("refused requests", sum("refused" in b for b in c["built"]))
        ctx.count("calls", len(c["applied"]))
        ctx.count("refused calls", sum("refused" in b for b in c["applied"]))
    ctx.replay(replay, full, kind="replay")


REPLAY = {"replay": replay, "replay_sig": signature, "trace": judge}


def pick_kw(r, f):
    kw = []
    for k in r.sample(f["kws"], r.randint(1, len(f["kws"]))):
        d = f["defaults"][k]
        if "matype" in k:
            v = r.randint(0, 4)
        elif f["kinds"][k] == "int":
            v = r.choice([2, 3, 4, 5, 7, 9, 12, d])
        else:
            v = repr(round(float(d) * r.choice([.25, .5, .75, 1.0]) + r.choice([0, .125]), 4))
        kw.append([k, v])
    return kw


def gen_req(r, lib, name):
    f = lib[name]
    none = dict(t="none", v=[])
    req = dict(f=name, col=none, map=none, kw=none)
    pool = list(PRICES) + [o for o in OTHERS if o != "periods"]
    if "real" in f["args"]:
        req["col"] = dict(t="str", v=[r.choice([c for c in pool if c not in f["args"]])])
    elif "real0" in f["args"]:
        req["col"] = dict(t="list", v=r.sample(pool, 2))
    named = [a for a in f["args"] if not a.startswith("real") and a not in req["col"]["v"]]
    if named and r.random() < .5:
        ks = r.sample(named, r.randint(1, len(named)))
        to = r.sample(pool, len(ks)) if r.random() < .6 else r.sample(ks, len(ks))
        req["map"] = dict(t="dict", v=[[a, b] for a, b in zip(ks, to)])
    if f["kws"] and r.random() < .7:
        req["kw"] = dict(t="dict", v=pick_kw(r, f))
    if r.random() < .25:      # something wrong with it
        w = r.choice(["name", "col", "map", "mapkey", "kw"])
        if w == "name":
            req["f"] = r.choice(["NOSUCH", name.lower(), name + "X", ""])
        elif w == "col" and "real" in f["args"]:
            req["col"] = r.choice([none, dict(t="list", v=["x", "y"]), dict(t="odd", v=[])])
        elif w == "col" and "real0" in f["args"]:
            req["col"] = r.choice([none, dict(t="str", v=["x"]), dict(t="odd", v=[]), dict(t="list", v=["x"])])
        elif w == "map":
            req["map"] = dict(t="odd", v=[])
        elif w == "mapkey":
            req["map"] = dict(t="dict", v=req["map"]["v"] + [[r.choice(["nosuch", "hi", "Volume"]), "x"]])
        elif w == "kw":
            alien = [k for k in ("timeperiod", "period", "fastperiod", "matype", "penetration") if k not in f["kws"]]
            req["kw"] = dict(t="dict", v=req["kw"]["v"] + [[r.choice(alien), 3]])
    return req


def gen(ctx, lib, n):
    r = ctx.rng
    names = sorted(lib)
    out = []
    for i in range(n):
        k = r.choice([1, 1, 2, 3, 5])
        fs = [names[(i * 3 + j) % len(names)] for j in range(k)]
        if r.random() < .3:
            fs = [fs[0]] * k
        creates = [dict(op="create", req=gen_req(r, lib, f)) for f in fs]
        steps = []
        for j, c in enumerate(creates):
            steps.append(c)
            for _ in range(r.choice([0, 1, 1])):
                steps.append(dict(op="apply", k=r.randint(1, j + 1), frame=None))
        steps += [dict(op="apply", k=r.randint(1, k), frame=None) for _ in range(r.choice([1, 2, 4]))]
        allc = list(PRICES) + list(OTHERS)
        for s in steps:
            if s["op"] == "apply":
                cols = list(allc)
                r.shuffle(cols)
                if r.random() < .2:
                    cols = cols[: r.randint(1, 8)]
                if r.random() < .03:
                    cols = []
                s["frame"] = cols
        c = dict(steps=steps, n=r.choice([90, 150, 220, 1, 7]), seed=r.randint(0, 10 ** 6), shared=r.random() < .7,
                 idx=r.choice(["range", "dates", "dup", "strs"]))
        if r.random() < .2:
            c["nanhead"] = r.sample(allc, 3)
        out.append(c)
    return out


def run(ctx):
    ctx.rules.append("spec->code: every request TLC enumerates over nine library functions (series named or not, renamings, keywords, right and wrong) with every frame, and every history of creations and calls over the valid ones; "
                     "acceptance and the values the code returns are compared with the library function evaluated on the specification's binding. "
                     "code->spec: seeded histories over all functions of the library, bound by TLC. Parameter lists of every function. Non-trivial: distinct case.")
    ctx.assumptions += ["the library's own description (talib.abstract) gives each function's parameters in order", "settings a function does not look at (col_to_transform for price functions, renaming the named series) are not judged"]
    lib = library()
    ctx.replay(signature, [lib[f] for f in sorted(lib)], kind="replay_sig")
    for cfg in ("MC_TaFactory", ctx.pick("MC_TaFactory_hist", "MC_TaFactory_hist_thorough")):
        cs = ctx.mc("MC_TaFactory", cfg)
        for i, c in enumerate(cs):
            c.update(n=80, seed=i % 7)
        ctx.sample(cs[len(cs) // 2])
        ctx.replay(replay, cs, limit=ctx.pick(3000, 60000))
    g = gen(ctx, lib, ctx.pick(1200, 15000))
    ctx.sample(g[5])
    judge(ctx, g)
