"""C09: sequentially bootstrapped bagging."""
import contextlib
import hashlib

import joblib
import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator, ClassifierMixin
from sklearn.tree import DecisionTreeClassifier

from .core import CLAUSE, close, rat

FW = 64          # a cell's value is row * FW + feature, so a member's training data tells rows and features
Q = 64           # a member's probabilities are whole Qths
RealRS = np.random.RandomState


class _Spy(ClassifierMixin, BaseEstimator):
    def _keep(self, X, y, w):
        X = np.asarray(X)
        self.classes_ = np.arange(self.k)
        self.rec_ = (X.copy(), np.asarray(y).copy(), None if w is None else np.asarray(w, dtype=float).copy())
        return self

    def votes(self, row, feats):
        """Class votes (in Qths, often nearly even) of this member for a data row shown with these features, in this order."""
        h = (int(self.random_state or 0) // 7 + row * 13 + row * row + sum((i + 3) * (i + 2) * f for i, f in enumerate(feats))) % 997
        v = [0] * self.k
        for q in range(4):
            v[(h >> q) % self.k] += Q // 4
        i, j = h % self.k, (h + 1) % self.k
        e = min(v[i], h % 4)
        v[i] -= e
        v[j] += e
        return v

    def _cells(self, X):
        return [(int(x[0]) // FW, [int(v) % FW for v in x]) for x in np.asarray(X)]


class _Proba:
    def predict_proba(self, X):
        return np.array([self.votes(*c) for c in self._cells(X)], dtype=float).reshape(-1, self.k) / float(Q)

    def predict(self, X):
        return np.argmax(self.predict_proba(X), axis=1)


class SpyW(_Proba, _Spy):
    """Takes sample weights."""

    def __init__(self, k=2, random_state=None):
        self.k, self.random_state = k, random_state

    def fit(self, X, y, sample_weight=None):
        return self._keep(X, y, sample_weight)


class SpyR(_Proba, _Spy):
    """Takes no sample weights: sees resampled rows."""

    def __init__(self, k=2, random_state=None):
        self.k, self.random_state = k, random_state

    def fit(self, X, y):
        return self._keep(X, y, None)


class SpyV(_Spy):
    """No class probabilities: hard votes."""

    def __init__(self, k=2, random_state=None):
        self.k, self.random_state = k, random_state

    def fit(self, X, y, sample_weight=None):
        return self._keep(X, y, sample_weight)

    def votes(self, row, feats):
        v = super().votes(row, feats)
        k = v.index(max(v))
        return [1 if i == k else 0 for i in range(self.k)]

    def predict(self, X):
        return np.array([int(np.argmax(self.votes(*c))) for c in self._cells(X)], dtype=int)


class Table(SpyW):
    """Votes come from a table handed out in order of fitting."""
    queue = []

    def fit(self, X, y, sample_weight=None):
        self.table_ = Table.queue.pop(0)
        return self._keep(X, y, sample_weight)

    def votes(self, row, feats):
        return [Q if i == self.table_[row] - 1 else 0 for i in range(self.k)]


class LogRS(RealRS):
    """Records draws made with odds; class-level, for single-threaded fits."""
    log = []
    forced = None

    def choice(self, a, size=None, replace=True, p=None):
        if p is None:
            return super().choice(a, size=size, replace=replace)
        arr = np.asarray(a) if np.ndim(a) else np.arange(int(a))
        if LogRS.forced is not None:
            k = 1 if size is None else int(np.prod(size))
            pos = [LogRS.forced.pop(0) - 1 for _ in range(k)]
            out = arr[pos] if size is not None else arr[pos[0]]
        else:
            out = super().choice(a, size=size, replace=replace, p=p)
        for e in np.atleast_1d(out):
            LogRS.log.append((id(self), [float(x) for x in p], int(e) + 1))
        LogRS.alive.append(self)
        return out

    alive = []


@contextlib.contextmanager
def patched(forced=None):
    LogRS.log, LogRS.alive, LogRS.forced = [], [], forced
    old = np.random.RandomState
    np.random.RandomState = LogRS
    try:
        yield
    finally:
        np.random.RandomState = old


def data(case):
    n = len(case["s"])
    t0 = pd.Timestamp("2021-01-01")
    st = pd.DatetimeIndex([t0 + pd.Timedelta(hours=h) for h in case["s"]])
    en = pd.DatetimeIndex([t0 + pd.Timedelta(hours=h) for h in case["e"]])
    nm = case.get("name", "event_end_time")
    info = pd.Series(en, index=st, name=nm)
    bars = pd.DataFrame({"close": 1.0}, index=pd.date_range(t0, periods=max(case["e"]) + 3, freq="H"))
    X = pd.DataFrame(np.arange(n)[:, None] * float(FW) + np.arange(case["nf"])[None, :],
                     index=st, columns=["f%d" % j for j in range(case["nf"])])
    cl = case["classes"]
    y = pd.Series([cl[v] for v in case["y"]], index=st, name="label")
    return info, bars, X, y, nm


def make(case, n, jobs, warm, oob):
    from mizarlabs.model.sequentially_bootstrapped_bagging_classifier import SequentiallyBootstrappedBaggingClassifier as B
    info, bars, X, y, nm = data(case)
    k = len(case["classes"])
    base = dict(W=SpyW(k), R=SpyR(k), V=SpyV(k), T=DecisionTreeClassifier(max_depth=4), B=Table(k))[case["base"]]
    kw = dict(base_estimator=base, n_estimators=n, max_samples=case["ms"], max_features=case["mf"],
              bootstrap_features=case["bf"], warm_start=warm, oob_score=oob, n_jobs=jobs, random_state=case["seed"],
              update_probs_every=case["batch"])
    if nm != "event_end_time":
        kw["event_end_time_column_name"] = nm
    return B(info, bars, **kw)


def weights(case, rows):
    return None if case.get("sw") is None else pd.Series([case["sw"][r] for r in rows])


def fit(case, clf, rows, jobs):
    """rows: 0-based training rows, in training order."""
    _, _, X, y, _ = data(case)
    Xs, ys = X.iloc[rows], y.iloc[rows]
    sw = weights(case, rows)
    x0, y0, s0 = Xs.copy(), ys.copy(), None if sw is None else sw.copy()
    with (joblib.parallel_backend("loky" if case.get("procs") else "threading") if jobs not in (None, 1) else contextlib.nullcontext()):
        clf.fit(Xs, ys, **({} if sw is None else dict(sample_weight=sw)))
    return bool(Xs.equals(x0) and ys.equals(y0) and (sw is None or sw.equals(s0)))


def describe(case, clf, rows):
    """One dict per member, everything 1-based in terms of training positions."""
    out = []
    pos_of = {r: i for i, r in enumerate(rows)}
    yenc = {c: i for i, c in enumerate(sorted(case["classes"]))}
    cls = [yenc[case["classes"][case["y"][r]]] for r in rows]
    present = sorted(set(cls))
    enc = [present.index(c) for c in cls]
    for est, bag, feats in zip(clf.estimators_, clf.estimators_samples_, clf.estimators_features_):
        bag = [int(b) + 1 for b in bag]
        feats = [int(f) for f in feats]
        m = dict(bag=bag, feats=feats, votes=[])
        if hasattr(est, "rec_"):
            X, yy, w = est.rec_
            m["tfeats"] = [int(v) % FW for v in X[0]] if len(X) else []
            tr = [int(v) // FW for v in X[:, 0]]
            ok = all(int(X[i, j]) == tr[i] * FW + m["tfeats"][j] for i in range(X.shape[0]) for j in range(X.shape[1]))
            ok = ok and all(t in pos_of for t in tr)
            cnt = [0] * len(rows)
            y_ok = ok
            for i, t in enumerate(tr):
                p = pos_of.get(t, 0)
                if w is None:
                    c = 1
                else:
                    c = w[i] / (1.0 if case.get("sw") is None else case["sw"][t])
                    c = int(round(c)) if abs(c - round(c)) < 1e-9 else -1
                cnt[p] = -1 if c < 0 else cnt[p] + c
                y_ok = y_ok and int(yy[i]) == enc[p]
            m.update(cnt=cnt, y=bool(y_ok))
            m["votes"] = [est.votes(r, m["tfeats"]) for r in rows]
            body = [m["votes"], m["cnt"], int(est.random_state)]
        else:
            m.update(tfeats=feats, y=True, cnt=[bag.count(i + 1) for i in range(len(rows))])
            t = est.tree_
            body = [t.feature.tolist(), [round(float(v), 9) for v in t.threshold], t.value.round(9).tolist()]
        m["hash"] = hashlib.md5(repr((bag, feats, body)).encode()).hexdigest()
        out.append(m)
    return out


def oob_event(case, clf, rows):
    yenc = {c: i for i, c in enumerate(sorted(case["classes"]))}
    cls = [yenc[case["classes"][case["y"][r]]] for r in rows]
    present = sorted(set(cls))
    d = np.asarray(clf.oob_decision_function_)
    sc = clf.oob_score_ * len(rows)
    return dict(e="oob", k=int(d.shape[1]), dec=[[rat(v) for v in row] for row in d],
                y=[present.index(c) + 1 for c in cls], score=int(round(sc)) if abs(sc - round(sc)) < 1e-6 else -1)


def record(case):
    try:
        return history(case)
    finally:
        if case.get("procs"):
            from joblib.externals.loky import get_reusable_executor
            get_reusable_executor().shutdown(wait=True, kill_workers=True)


def history(case):
    """Events of a history of fits: objs = list of [ [n, jobs, warm, key, oob], ... ] per ensemble object."""
    ids, ev = {}, [dict(e="start")]
    nfit = 0
    for obj in case["objs"]:
        clf, prev = None, []
        for n, jobs, warm, key, oob in obj:
            nfit += 1
            rows = case["keys"][key]
            if clf is None:
                clf = make(case, n, jobs, warm, oob)
            else:
                clf.set_params(n_estimators=n, n_jobs=jobs, warm_start=warm, oob_score=oob)
            keep = list(prev) if warm else []
            pure = fit(case, clf, rows, jobs)
            ms = describe(case, clf, rows)
            ev.append(dict(e="fit", n=n, got=len(ms)))
            N, F = len(rows), case["nf"]
            draws = case["ms"] if isinstance(case["ms"], int) else int(case["ms"] * N)
            nfeat = case["mf"] if isinstance(case["mf"], int) else max(1, int(case["mf"] * F))
            for i, m in enumerate(ms):
                h = m.pop("hash")
                ids.setdefault(h, len(ids) + 1)
                same = i >= len(keep) or (keep[i][0] is clf.estimators_[i] and keep[i][1] == h)
                ev.append(dict(e="member", pos=i + 1, id=ids[h], key=key, fit=nfit, kept=bool(same), draws=draws,
                               nfeat=nfeat, rep=case["bf"], nrow=N, **dict(m, y=bool(m["y"] and pure))))
                m["hash"] = h
            prev = [(e, m["hash"]) for e, m in zip(clf.estimators_, ms)]
            if oob:
                ev.append(oob_event(case, clf, rows))
    return ev


def judge(ctx, cases):
    ctx.judge("Trace_Bagging", cases, ctx.record(record, cases))


# ------------------------------------------------------------- forced bags
def replay(case):
    """TLC's bags forced through the random state, TLC's votes given by the members."""
    n, N = len(case["bags"]), len(case["dec"])
    c = dict(s=list(range(N)), e=[i + 1 for i in range(N)], nf=2, classes=[-1, 1], y=[i % 2 for i in range(N)], base="B",
             ms=len(case["bags"][0]), mf=1.0, bf=False, seed=3, batch=1, keys=[list(range(N))])
    Table.queue = [list(v) for v in case["votes"]]
    with patched([x for b in case["bags"] for x in b]):
        clf = make(c, n, None, False, True)
        fit(c, clf, c["keys"][0], None)
    if not LogRS.log:
        return None
    got = [[int(x) + 1 for x in b] for b in clf.estimators_samples_]
    if got != case["bags"]:
        return dict(clause="reported in-bag samples are the drawn ones", got=got, want=case["bags"])
    o = oob_event(c, clf, c["keys"][0])
    if o["dec"] != case["dec"]:
        return dict(clause="out-of-bag decision", got=o["dec"], want=case["dec"])
    lo = sum(1 for r in range(N) if case["win"][r] == [o["y"][r]] and case["dec"][r][0] != [0, 0])
    hi = lo + sum(1 for r in range(N) if case["dec"][r][0] == [0, 0] or (len(case["win"][r]) > 1 and o["y"][r] in case["win"][r]))
    if not lo <= o["score"] <= hi:
        return dict(clause="out-of-bag score", got=o["score"], want=[lo, hi])


# ------------------------------------------------------------- odds used by each member
def observe(case):
    rows = case["keys"][0]
    with patched():
        clf = make(case, case["n"], None, False, False)
        fit(case, clf, rows, None)
    order, per = [], {}
    for rid, p, e in LogRS.log:
        if rid not in per:
            order.append(rid)
            per[rid] = []
        per[rid].append((p, e))
    LogRS.alive = []
    return dict(bags=[[int(x) + 1 for x in b] for b in clf.estimators_samples_], calls=[per[r] for r in order])


def judge_odds(ctx, cases):
    """Each member's draws must follow the odds of the indicator columns of the training rows."""
    res = ctx.run_code(observe, cases)
    flat, evs, want = [], [], []
    for c, (st, v) in zip(cases, res):
        if st != "ok":
            if st in CLAUSE:
                ctx.violation("odds", c, dict(clause=CLAUSE[st], what=v))
            continue
        if not v["calls"]:
            ctx.count("odds not observable")
            continue
        rows = c["keys"][0]
        grid = sorted(set(c["s"]) | set(c["e"]) | {h for h in range(max(c["e"]) + 3) if min(c["s"]) <= h <= max(c["e"])})
        cols = [[k + 1 for k, g in enumerate(grid) if c["s"][r] <= g <= c["e"][r]] for r in rows]
        for bag, calls in zip(v["bags"], v["calls"]):
            i = len(flat)
            flat.append(c)
            want.append(calls)
            ev = [dict(e="start", cols=cols, want=len(bag), batch=c["batch"], c=i)]
            for k, (p, e) in enumerate(calls):
                ev += [dict(e="odds", k=k, c=i), dict(e="draw", i=e, c=i)]
            ev.append(dict(e="result", out=bag, pure=True, c=i))
            evs.append(ev)
    if not flat:
        return
    ans = ctx.oracle("Trace_SeqBoot", flat, evs, kind="odds")
    for i, a in ans.items():
        ctx.traces += 1
        for x in a:
            u = [sum(1.0 / t for t in ts) / len(ts) for ts in x["terms"]]
            w = [y / sum(u) for y in u]
            p = want[i][x["k"]][0]
            ctx.count("odds compared")
            if len(p) != len(w) or not all(close(s, t, 1e-6) for s, t in zip(p, w)):
                ctx.violation("odds", flat[i], dict(clause="odds of a member's draw", draw=x["k"] + 1, got=p, want=w))
                break


REPLAY = {"replay": replay, "trace": judge, "odds": judge_odds}


def gen(ctx, n, small=False):
    r = ctx.rng
    out = []
    for _ in range(n):
        N = r.choice([6, 8, 12, 16])
        s = sorted(r.sample(range(3 * N), N))
        e = [x + r.choice([0, 1, 2, 5, 9]) for x in s]
        nf = r.choice([2, 3, 5])
        kind = r.choice("WWRVT")
        k = r.choice([2, 2, 3])
        cl = r.choice([[0, 1, 2], [-1, 1, 5], ["a", "b", "c"]])[:k]
        y = [i % k for i in range(N)]
        r.shuffle(y)
        keys = []
        for _k in range(2):
            rows = r.sample(range(N), r.choice([N, N, N - 1, N - 2]))
            if r.random() < .7:
                rows.sort()
            # all classes present, so that members and ensemble agree on the classes
            if len({y[q] for q in rows}) < k:
                rows = list(range(N))
            keys.append(rows)
        case = dict(s=s, e=e, nf=nf, classes=cl, y=y, base=kind, ms=r.choice([1.0, 1.0, .5, .8, 3, 4]),
                    mf=r.choice([1.0, 1.0, .5, .7, 1, 2]), bf=r.random() < .3, seed=r.randint(0, 10 ** 6),
                    batch=r.choice([1, 1, 2, 3, 20]), keys=keys, name=r.choice(["event_end_time", "t1"]))
        if kind in "WVT" and r.random() < .5:
            case["sw"] = [r.choice([.25, .5, 1.0, 1.5, 2.0, 3.0, .1, 1 / 3]) for _ in range(N)]
        if small:
            case["n"] = r.choice([2, 3])
            out.append(case)
            continue
        m = r.choice([3, 4, 6, 9])
        objs = [[[m, None, False, 0, kind != "T"]]]                                   # all at once
        objs.append([[m, r.choice([2, 3, 5]), False, 0, kind != "T" and r.random() < .5]])                       # several jobs
        cuts = sorted(r.sample(range(1, m), min(m - 1, r.choice([1, 2]))))
        objs.append([[q, r.choice([None, None, 2]), True, 0, False] for q in cuts + [m]])  # warm start
        objs.append([[r.randint(1, m), None, False, 1, False], [m, r.choice([None, 2]), False, 0, kind != "T"],
                     [m, None, False, 1, False]])                                      # reused on other rows
        case["objs"] = objs
        out.append(case)
    return out


def run(ctx):
    ctx.rules.append("TLC: every interleaving of jobs and every history of (warm-start) fits of the partition machine. spec->code: every choice of bags and hard votes on three rows forced on the real ensemble, out-of-bag decision compared. "
                     "code->spec: seeded histories of four ensembles (at once, several jobs, warm start, reused on other rows) with recording members, judged by TLC; odds of every member's draws judged by the sequential bootstrap specification. Non-trivial: distinct case.")
    ctx.assumptions += ["jobs run as threads, in one history out of ten as processes", "every class occurs in the training rows",
                        "rows in every bag and ties do not decide the out-of-bag score", "random_state is an integer"]
    ctx.mc("MC_Bagging", ctx.pick("MC_Bagging", "MC_Bagging_thorough"))
    cases = ctx.mc("MC_Oob", ctx.pick("MC_Oob", "MC_Oob_thorough"))
    ctx.sample(cases[len(cases) // 2])
    ctx.replay(replay, cases, limit=ctx.pick(600, 6000))
    g = gen(ctx, ctx.pick(80, 800))
    for i, c in enumerate(g):
        c["procs"] = i % 10 == 3      # jobs as processes: nothing a member leaves in its ensemble survives
    ctx.sample(g[1])
    judge(ctx, g)
    judge_odds(ctx, gen(ctx, ctx.pick(120, 1000), small=True))
