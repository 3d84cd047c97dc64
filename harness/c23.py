"""C23: feature unions and pipelines compose their members."""
import functools

import numpy as np
import pandas as pd

ABSENT = object()


@functools.lru_cache(None)
def leaf_class():
    from sklearn.base import BaseEstimator, TransformerMixin

    class Leaf(BaseEstimator, TransformerMixin):
        def __init__(self, f, frames=False):
            self.f, self.frames = f, frames

        def _col(self, Z):
            return Z[:, 0] if Z.shape[1] else np.zeros(len(Z), dtype=int)

        def fit(self, X, y=None):
            Z, f = np.asarray(X), self.f
            c = self._col(Z)
            self.st_ = (c.max() if f == "max" else c[0] if f == "first" else
                        int((np.asarray(y) * c).sum()) if f == "sup" else 0)
            return self

        def transform(self, X):
            Z, f = np.asarray(X), self.f
            if f in ("max", "first"):
                R = Z - self.st_
            elif f == "sup":
                R = (self._col(Z) + self.st_)[:, None]
            elif f == "sum":
                R = Z.sum(axis=1)[:, None]
            elif f == "dup":
                R = np.hstack([Z, 2 * Z + 1])
            elif f == "lag":
                R = np.vstack([Z[:1], Z[1:] - Z[:-1]])
            else:
                R = Z
            if self.frames and hasattr(X, "index"):
                return pd.DataFrame(R, index=X.index, columns=["%s%d" % (f, i) for i in range(R.shape[1])])
            return R

        def get_feature_names_out(self, *a):
            raise AttributeError
    return Leaf


@functools.lru_cache(None)
def learner_class(weighted):
    from sklearn.base import BaseEstimator

    class Base(BaseEstimator):
        def _fit(self, X, y, w, flag):
            self.saw_ = (X, y, w, flag)
            return self

        def predict(self, X):
            _, y, w, _ = self.saw_
            k = np.asarray(y).sum() if w is ABSENT or w is None else (np.asarray(y) * np.asarray(w)).sum()
            return np.asarray(X).sum(axis=1) + k

    class Weighted(Base):
        def fit(self, X, y, sample_weight=ABSENT, flag=None):
            return self._fit(X, y, sample_weight, flag)

    class Plain(Base):
        def fit(self, X, y, flag=None):
            return self._fit(X, y, ABSENT, flag)
    return Weighted if weighted else Plain


def build(node, case, Leaf, depth=0):
    from mizarlabs.model.pipeline import MizarFeatureUnion, MizarPipeline
    if node["k"] == "leaf":
        if node["f"] == "drop":
            return "drop"
        if node["f"] == "pass" and case.get("strings", True):
            return "passthrough"
        return Leaf(node["f"], frames=case.get("frames", False))
    parts = [("%s%d" % ("zma"[j % 3], j), build(m, case, Leaf, depth + 1)) for j, m in enumerate(node["m"])]
    if node["k"] == "union":
        return MizarFeatureUnion(parts, n_jobs=case.get("jobs") if depth == 0 else None)
    return MizarPipeline(parts)


def frame(X, case):
    n = len(X)
    idx = dict(range=lambda: pd.RangeIndex(n), dates=lambda: pd.date_range("2021-01-01", periods=n, freq="1h", name="t"),
               dup=lambda: pd.Index([3, 3, 1, 1, 2] * n)[:n], strs=lambda: pd.Index(["r%d" % (n - i) for i in range(n)]),
               back=lambda: pd.date_range("2021-01-01", periods=n, freq="1h")[::-1])[case.get("idx", "range")]()
    return pd.DataFrame(np.array(X, dtype=int).reshape(n, -1), index=idx, columns=["c%d" % j for j in range(len(X[0]))])


def wrap(v, kind, index):
    return dict(list=lambda: list(v), array=lambda: np.array(v), series=lambda: pd.Series(v, index=index))[kind]()


def rows(R):
    R = np.asarray(R)
    if R.ndim == 1:
        R = R[:, None]
    return [[int(x) for x in r] for r in R]


def union_in_pipe(node, inside):
    return (inside and node["k"] == "union") or any(union_in_pipe(m, inside or node["k"] == "pipe") for m in node["m"])


def framed(node):
    """the node's answers are frames under the caller's index"""
    return node["k"] == "union"


def replay(case):
    import contextlib
    import joblib
    with joblib.parallel_backend("threading") if case.get("jobs") else contextlib.nullcontext():
        return _replay(case)


def _replay(case):
    from mizarlabs.model.pipeline import MizarPipeline
    Leaf = leaf_class()
    tree = case["tree"]
    if union_in_pipe(tree, False):      # unions are given frames
        case = dict(case, frames=True)
    est = learner_class(bool(any(s["w"] for s in case["steps"]) or case.get("nest", False)))()
    if case["top"] == "union":
        obj = build(tree, case, Leaf)
    else:
        last = MizarPipeline([("in", est)]) if case.get("nest") else est
        obj = MizarPipeline([("s%d" % j, build(m, case, Leaf, 1)) for j, m in enumerate(tree["m"])] + [(case.get("name", "est"), last)])
    kind = case.get("kind", "array")
    for i, s in enumerate(case["steps"]):
        d = case["data"][s["d"] - 1]
        X = frame(d["X"], case)
        X0, want = X.copy(deep=True), s["res"]
        y = wrap(d["y"], kind, X.index)
        extra = {}
        if s["op"] == "fit":
            if case["top"] == "pipe":
                if case.get("rename") and i:
                    obj.steps[-1] = ("other%d" % i, obj.steps[-1][1])
                if case.get("flag") and not case.get("nest"):
                    extra = {obj.steps[-1][0] + "__flag": i + 5}
                w = wrap(d["w"], kind, X.index)
                w0 = list(w)
                got = obj.fit(X, y, sample_weight=w, **extra) if s["w"] else (
                    obj.fit(X, y, None, **extra) if i % 2 else obj.fit(X, y, **extra))
                if list(w) != w0:
                    return dict(clause="weights left unmodified", step=i)
            else:
                got = obj.fit(X, y)
            if got is not obj:
                return dict(clause="fit returns the object", step=i)
            if case["top"] == "pipe":
                sx, sy, sw, sf = est.saw_
                sw = [] if sw is ABSENT or sw is None else [int(v) for v in sw]
                if rows(sx) != s["saw"]["X"] or [int(v) for v in sy] != s["saw"]["y"]:
                    return dict(clause="rows the estimator is fitted on", step=i, got=rows(sx), want=s["saw"])
                if sw != s["saw"]["w"]:
                    return dict(clause="sample weights reach the estimator", step=i, got=sw, want=s["saw"]["w"])
                if extra and sf != i + 5:
                    return dict(clause="other fit parameters reach the estimator", step=i, got=sf)
                prev = tree["m"][-1] if tree["m"] else None
                if (prev is None or framed(prev)) and not (hasattr(sx, "index") and sx.index.equals(X.index)):
                    return dict(clause="the estimator is given a frame under the rows' index", step=i)
        else:
            got = (obj.fit_transform(X, y) if s["op"] == "fit_transform" else
                   obj.transform(X) if s["op"] == "transform" else obj.predict(X))
            if case["top"] == "union":
                if not isinstance(got, pd.DataFrame):
                    return dict(clause="result is a frame", step=i, got=str(type(got)))
                if not got.index.equals(X.index) or got.index.name != X.index.name:
                    return dict(clause="result under the rows' index", step=i)
            if len(got) != len(want["rows"]) or rows(got) != want["rows"]:
                return dict(clause="%s: members side by side, each fitted on what it is shown" % s["op"] if case["top"] == "union"
                            else "prediction of the composed steps", step=i, got=rows(got), want=want["rows"])
        if not X.equals(X0) or list(X.columns) != list(X0.columns):
            return dict(clause="input left unmodified", step=i)


def judge(ctx, cases):
    ev = []
    for i, c in enumerate(cases):
        e = [dict(e="start", top=c["top"], tree=c["tree"])]
        for s in c["steps"]:
            d = c["data"][s["d"] - 1]
            e.append(dict(e=s["op"], X=d["X"], y=d["y"], w=d["w"] if s["w"] else [], c=i))
        ev.append(e)
    ans = ctx.oracle("Trace_Compose", cases, ev)
    full = [dict(c, steps=[dict(s, res=a["res"], saw=a["saw"]) for s, a in zip(c["steps"], ans[i])]) for i, c in enumerate(cases)]
    for c in full:
        ctx.count("calls", len(c["steps"]))
        ctx.count("weighted fits", sum(s["w"] for s in c["steps"]))
    ctx.replay(replay, full, kind="replay")


REPLAY = {"replay": replay, "trace": judge}
LEAVES = ["max", "first", "sup", "sum", "dup", "lag", "pass"]


def gen_tree(r, depth, budget, inunion=False):
    k = r.choice(["leaf", "union", "pipe"]) if depth else "leaf"
    if k == "leaf":
        f = r.choice(LEAVES + (["drop"] if inunion else []))
        if f in ("sup", "dup"):
            if budget[f] == 0:
                f = "lag"
            else:
                budget[f] -= 1
        return dict(k="leaf", f=f, m=[])
    n = r.randint(1, 3) if k == "union" else r.randint(1, 2)
    return dict(k=k, f="", m=[gen_tree(r, depth - 1, budget, k == "union") for _ in range(n)])


def options(r, c):
    c.update(idx=r.choice(["range", "dates", "dup", "strs", "back"]), kind=r.choice(["array", "list", "series"]),
             frames=r.random() < .5, strings=r.random() < .7, nest=r.random() < .2, flag=r.random() < .3,
             rename=r.random() < .2, name=r.choice(["est", "sample_weight", "s", "clf"]))
    if r.random() < .15 and c["top"] == "union":
        c["jobs"] = 2
    return c


def gen(ctx, n):
    r = ctx.rng
    out = []
    for _ in range(n):
        top = r.choice(["union", "pipe"])
        bud = dict(sup=2, dup=2)
        m = [gen_tree(r, r.choice([0, 1, 2]), bud, top == "union") for _ in range(r.randint(1, 4) if top == "union" else r.randint(0, 3))]
        tree = dict(k=top, f="", m=m)
        wd = r.randint(1, 3)
        data = []
        for _ in range(3):
            q = r.choice([1, 2, 5, 12])
            data.append(dict(X=[[r.randint(-5, 5) for _ in range(wd)] for _ in range(q)], y=[r.randint(0, 2) for _ in range(q)],
                             w=[r.choice([0, 1, 1, 2, 5]) for _ in range(q)]))
        steps = [dict(op="fit", d=r.randint(1, 3), w=top == "pipe" and r.random() < .6)]
        ops = ["fit", "fit_transform", "transform", "transform"] if top == "union" else ["fit", "predict", "predict"]
        if top == "union" and r.random() < .4:
            steps = [dict(op="fit_transform", d=r.randint(1, 3), w=False)]
        for _ in range(r.randint(1, 6)):
            op = r.choice(ops)
            steps.append(dict(op=op, d=r.randint(1, 3), w=top == "pipe" and op == "fit" and r.random() < .5))
        out.append(options(r, dict(top=top, tree=tree, data=data, steps=steps)))
    return out


def run(ctx):
    ctx.rules.append("spec->code: every composition of learning and stateless members (unions, pipelines, pipelines in unions) with every history of two (four) calls over two data sets; answers, what the final estimator is given, index and unmodified inputs compared. "
                     "code->spec: seeded deeper compositions, histories and index kinds, answered by TLC. Non-trivial: distinct case.")
    ctx.assumptions += ["unions are given frames", "members return one row per row", "column labels of a union's frame are not judged"]
    for cfg in ("MC_Compose", "MC_Compose_hist") + (("MC_Compose_thorough",) if ctx.thorough else ()):
        cs = [options(ctx.rng, c) for c in ctx.mc("MC_Compose", cfg)]
        ctx.sample(cs[len(cs) // 2])
        ctx.replay(replay, cs, limit=ctx.pick(3000, 40000))
    g = gen(ctx, ctx.pick(2000, 20000))
    ctx.sample(g[1])
    judge(ctx, g)
