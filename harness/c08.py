"""C08: sequential bootstrap odds."""
import numpy as np
from scipy import sparse

from .core import CLAUSE, close


class Forced(np.random.RandomState):
    """Records the odds of every draw; draws what it is told to (or what the odds give)."""

    def __init__(self, seed, forced=None):
        super().__init__(seed)
        self.forced, self.calls = list(forced) if forced is not None else None, []

    def choice(self, a, size=None, replace=True, p=None):
        n = len(a) if np.ndim(a) else int(a)
        k = 1 if size is None else int(np.prod(size))
        pp = [1.0 / n] * n if p is None else [float(x) for x in np.asarray(p).ravel()]
        if self.forced is None:
            out = super().choice(a, size=size, replace=replace, p=p)
            pos = np.atleast_1d(out)
        else:
            pos = np.array([self.forced.pop(0) - 1 for _ in range(k)], dtype=int)
            arr = np.asarray(a) if np.ndim(a) else np.arange(n)
            out = arr[pos] if size is not None else arr[pos[0]]
        for e in np.ravel(pos):
            self.calls.append((pp, int(e) + 1, bool(replace)))
        return out


def mat(case):
    rows = case.get("rows") or max(max(c) for c in case["cols"])
    a = np.zeros((rows, len(case["cols"])), dtype=case.get("dtype", "float64"))
    for j, c in enumerate(case["cols"]):
        for r in c:
            a[r - 1, j] = 1
    return dict(csc=sparse.csc_matrix, lil=sparse.lil_matrix)[case.get("fmt", "csc")](a)


def run_boot(case, rs):
    from mizarlabs.model.bootstrapping import seq_bootstrap
    m = mat(case)
    m0 = m.copy()
    kw = {}
    if case["want"] != len(case["cols"]) or case.get("explicit", True):
        kw["sample_length"] = case["want"]
    if case["batch"] != 1:
        kw["update_probs_every"] = case["batch"]
    out = seq_bootstrap(m, random_state=rs, **kw)
    same = m.dtype == m0.dtype and (m != m0).nnz == 0
    return [int(x) + 1 for x in out], same


def replay(case):
    """TLC's draw history is forced on the code; its odds before every draw must be the specification's."""
    rs = Forced(0, case["draws"])
    out, same = run_boot(case, rs)
    if len(out) != case["want"]:
        return dict(clause="number of draws", got=len(out), want=case["want"])
    if not same:
        return dict(clause="matrix unchanged")
    if not rs.calls:
        return None      # odds not observable through choice; see the frequency check
    if out != case["draws"]:
        return dict(clause="result is the drawn events", got=out, want=case["draws"])
    for k, ((p, _, rep), o) in enumerate(zip(rs.calls, case["odds"])):
        w = [a / b for a, b in o]
        if len(p) != len(w) or not all(close(x, y, 1e-6) for x, y in zip(p, w)):
            return dict(clause="odds of a draw", draw=k + 1, got=p, want=o, earlier=case["draws"][:k])
        if not rep:
            return dict(clause="draws are with replacement")


def observe(case):
    rs = Forced(case["seed"], case.get("forced"))
    out, same = run_boot(case, rs)
    # repeated with a plain generator: a function of matrix and random state only
    if case.get("forced") is None:
        a, s1 = run_boot(case, np.random.RandomState(case["seed"]))
        b, s2 = run_boot(dict(case, dtype="int64"), np.random.RandomState(case["seed"]))
        same = same and s1 and s2 and a == b == out
    return dict(out=out, pure=bool(same), calls=[(p, e) for p, e, _ in rs.calls])


def judge(ctx, cases):
    res = ctx.run_code(observe, cases)
    evs, obs = [], []
    for i, (c, (st, v)) in enumerate(zip(cases, res)):
        obs.append(v)
        if st != "ok":
            if st in CLAUSE:
                ctx.violation("trace", c, dict(clause=CLAUSE[st], what=v))
            evs.append(None)
            continue
        ev = [dict(e="start", cols=c["cols"], want=c["want"], batch=c["batch"], c=i)]
        for k, (_, e) in enumerate(v["calls"]):
            ev += [dict(e="odds", k=k, c=i), dict(e="draw", i=e, c=i)]
        if not v["calls"]:
            ev.append(dict(e="odds", k=-1, c=i))
        ev.append(dict(e="result", out=v["out"], pure=v["pure"], c=i))
        evs.append(ev)
    ans = ctx.oracle("Trace_SeqBoot", cases, evs)
    for i, a in ans.items():
        ctx.traces += 1
        ctx.seen(cases[i])
        for x in a:
            if x["k"] < 0:
                continue
            u = [sum(1.0 / t for t in ts) / len(ts) for ts in x["terms"]]
            w = [y / sum(u) for y in u]
            p, _ = obs[i]["calls"][x["k"]]
            ctx.count("odds compared")
            if len(p) != len(w) or not all(close(s, t, 1e-6) for s, t in zip(p, w)):
                ctx.violation("trace", cases[i], dict(clause="odds of a draw", draw=x["k"] + 1, got=p, want=w))
                break


def freq(case):
    """Frequencies of (first, second, ..) draws over many seeds against the specification's odds."""
    n = case["runs"]
    got = {}
    for s in range(n):
        out, _ = run_boot(case, np.random.RandomState(s + 1000))
        got[tuple(out)] = got.get(tuple(out), 0) + 1
    for d, p in case["probs"]:
        f = got.get(tuple(d), 0)
        if abs(f - n * p) > 6 * (n * p * (1 - p)) ** .5 + 4:
            return dict(clause="frequency of a draw sequence", draws=d, got=f, want=n * p, runs=n)


REPLAY = {"replay": replay, "replay_freq": freq, "trace": judge}


def gen(ctx, n):
    r = ctx.rng
    out = []
    for _ in range(n):
        m = r.choice([1, 2, 3, 5, 8, 12, 20])
        T = r.choice([3, 8, 20, 40])
        cols = []
        for _ in range(m):
            a = r.randint(1, T)
            ln = r.choice([1, 1, 2, 3, T // 2, T])
            c = list(range(a, min(T, a + ln - 1) + 1)) or [a]
            if r.random() < .1:      # not every indicator column is an interval
                c = sorted(r.sample(range(1, T + 1), r.randint(1, T)))
            cols.append(c)
        want = r.choice([1, m, m, 2 * m, max(1, m // 2), 30])
        c = dict(cols=cols, rows=T, want=want, batch=r.choice([1, 1, 1, 2, 3, 5, 50]), seed=r.randint(0, 2 ** 31 - 1),
                 dtype=r.choice(["float64", "float64", "int64", "uint8"]), explicit=r.random() < .5, fmt=r.choice(["csc", "csc", "lil"]))
        if r.random() < .3:   # unlikely histories: the same few events again and again
            pool = [r.randint(1, m) for _ in range(2)]
            c["forced"] = [r.choice(pool) for _ in range(want)]
        if r.random() < .02:   # hundreds of draws on one bar
            want = r.choice([257, 300, 520])
            k = min(m, 3)
            c.update(want=want, batch=r.choice([50, 100, 200, 256]), explicit=True, cols=cols[:k],
                     rows=T, forced=[r.choice([1, 1, r.randint(1, k)]) for _ in range(want)])
        if r.random() < .04:   # many bars touched between two updates
            T, m = r.choice([120, 200]), r.choice([6, 12, 20])
            cols = []
            for _ in range(m):
                a = r.randint(1, T)
                cols.append(list(range(a, min(T, a + r.choice([3, 10, 40, 90])) + 1)))
            c.update(cols=cols, rows=T, want=r.choice([6, 12]), batch=r.choice([1, 2, 4]))
            c.pop("forced", None)
        out.append(c)
    return out


def run(ctx):
    ctx.rules.append("spec->code: every interval matrix (3 events, 3 bars), every draw history of the given length, every batch size from TLC, forced on the code through its random state; odds compared before each draw. "
                     "code->spec: seeded matrices up to 20 events x 40 bars, up to 40 draws. Frequencies of short draw sequences over fixed seeds. Non-trivial: distinct case.")
    ctx.assumptions += ["draws are made through RandomState.choice (otherwise only counts, validity and frequencies are judged)", "odds within 1e-6 (the code computes them in single precision)"]
    cases = ctx.mc("MC_SeqBoot", ctx.pick("MC_SeqBoot", "MC_SeqBoot_thorough"))
    ctx.sample(cases[len(cases) // 2])
    ctx.replay(replay, cases, limit=ctx.pick(4000, 60000))
    # joint probabilities of whole draw sequences, from TLC's odds
    bym = {}
    for c in cases:
        bym.setdefault((str(c["cols"]), c["want"], c["batch"]), []).append(c)
    keys = [k for k in sorted(bym) if len(bym[k]) > 1 and (k[1] <= 4)]
    fc = []
    for k in ctx.rng.sample(keys, ctx.pick(6, 40)):
        pr = []
        for c in bym[k]:
            p = 1.0
            for d, o in zip(c["draws"], c["odds"]):
                p *= o[d - 1][0] / o[d - 1][1]
            pr.append([c["draws"], p])
        c = bym[k][0]
        assert abs(sum(p for _, p in pr) - 1) < 1e-9
        fc.append(dict(cols=c["cols"], want=c["want"], batch=c["batch"], probs=pr, runs=ctx.pick(2000, 10000)))
    ctx.replay(freq, fc, kind="replay_freq")
    g = gen(ctx, ctx.pick(500, 5000))
    ctx.sample(g[5])
    judge(ctx, g)
