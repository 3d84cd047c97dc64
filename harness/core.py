"""Shared machinery: running TLC, running the real code on cases, judging, evidence.

The two directions every property check uses:

  spec -> code   ctx.mc(...)      TLC explores a specification exhaustively, checks its
                                  invariants and prints one JSON CASE per selected state;
                 ctx.replay(...)  the real code is run on every CASE and its answer is
                                  compared with the one the specification computed.
  code -> spec   ctx.record(...)  the real code is run on generated inputs and what it did
                                  is written down as a list of events per case;
                 ctx.judge(...)   TLC replays the events through the specification's own
                                  actions and prints FAIL for each clause they break.
                 ctx.oracle(...)  as judge, but the specification answers (ANSWER lines)
                                  and the harness compares (used for irrational leaves).
"""
import concurrent.futures as cf
import hashlib
import json
import math
import multiprocessing
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from concurrent.futures.process import BrokenProcessPool
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_PROCS", "6"))
LEVEL = "model_checking"


class Machinery(Exception):
    """The machinery itself failed; says nothing about the code."""


class Stuck(Machinery):
    """A trace specification could not evaluate or consume its trace."""


class CodeRaised(Exception):
    pass


# --------------------------------------------------------------------------- numbers
NAN = [0, 0]


def rat(x, maxden=5000, tol=1e-9):
    """float -> normalised rational [num, den]; NaN [0,0]; +-inf [+-1,0]; no such rational [7,0]."""
    x = float(x)
    if math.isnan(x):
        return [0, 0]
    if math.isinf(x):
        return [1 if x > 0 else -1, 0]
    f = Fraction(x).limit_denominator(maxden)
    if abs(float(f) - x) > tol * (1 + abs(x)) or abs(f.numerator) >= 2 ** 31 - 1:
        return [7, 0]
    return [f.numerator, f.denominator]


def unrat(r):
    n, d = r
    if d == 0:
        return math.nan if n == 0 else (math.inf if n == 1 else (-math.inf if n == -1 else None))
    return n / d


def close(a, b, tol=1e-9, rtol=None):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol + (tol if rtol is None else rtol) * max(abs(a), abs(b))


# --------------------------------------------------------------------------- workers
def _init_worker():
    import warnings
    warnings.filterwarnings("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all="ignore")


def pristine(fn, *args):
    """fn(*args) in a forked copy of this process; the copy is discarded with whatever it changed."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        st = 1
        try:
            os.close(r)
            try:
                res = ("ok", fn(*args))
            except BaseException as e:
                tb = traceback.extract_tb(e.__traceback__)
                res = ("code" if any("/repo/" in f.filename for f in tb) else "harness",
                       "%s: %s @ %s" % (type(e).__name__, str(e)[:300],
                                        "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])))
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
            st = 0
        finally:
            os._exit(st)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    st, v = pickle.loads(data) if data else ("code", "the process running the code died")
    if st == "code":
        raise CodeRaised(v)
    if st == "harness":
        raise Machinery(v)
    return v


# what reading a malformed answer of the code raises (missing attributes, wrong shapes, NaN for a number)
UNREADABLE = (AttributeError, TypeError, ValueError, LookupError, ArithmeticError, AssertionError, ImportError)


CLAUSE = dict(code="code raised", odd="the answer cannot be read")


def _run_chunk(modname, funcname, chunk):
    import importlib
    fn = getattr(importlib.import_module(modname), funcname)
    out = []
    for case in chunk:
        try:
            out.append(("ok", fn(case)))
        except Exception as e:  # an exception of the code under test, or of the harness
            tb = traceback.extract_tb(e.__traceback__)
            incode = isinstance(e, CodeRaised) or any("/repo/" in f.filename for f in tb)
            out.append(("code" if incode else "odd" if isinstance(e, UNREADABLE) else "harness",
                        "%s: %s @ %s" % (type(e).__name__, str(e)[:300],
                                         "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]))))
    return out


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.states = self.distinct = 0
        self.traces = 0            # behaviours on which code and specification were compared
        self.counters = {}
        self.samples = []
        self.violations = []
        self.nviol = 0
        self.runs = []
        self.assumptions = []
        self.rules = []
        self.hashes = set()
        self.pool = None
        self.lock = threading.Lock()

    # ---- bookkeeping
    def count(self, key, n=1):
        with self.lock:
            self.counters[key] = self.counters.get(key, 0) + n

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def sample(self, x):
        if len(self.samples) < 4:
            self.samples.append(x)

    def violation(self, kind, case, detail):
        with self.lock:
            self.nviol += 1
            if len(self.violations) < 20:
                self.violations.append(dict(kind=kind, case=case, detail=detail))

    def cleanup(self):
        if self.pool:
            self.pool.shutdown(wait=False, cancel_futures=True)
            for p in list(getattr(self.pool, "_processes", {}) or {}):
                try:
                    os.kill(p, 9)
                except OSError:
                    pass
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ---- TLC
    def tlc(self, module, cfg=None, env=None, workers=1, heap="3g", timeout=800, args=()):
        meta = tempfile.mkdtemp(dir=self.scratch)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m", "-cp", CP,
               "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-nowarning",
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), *args, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery("TLC timed out on " + module)
        out = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        res = dict(module=module, cfg=cfg or module, rc=r.returncode, out=out, secs=round(time.time() - t, 1),
                   states=int(m[-1][0]) if m else 0, distinct=int(m[-1][1]) if m else 0)
        shutil.rmtree(meta, ignore_errors=True)
        return res

    @staticmethod
    def lines(out, tag):
        """PrintT("TAG " \\o ToJson(v)) lines."""
        res = []
        pre = '"' + tag + " "
        for ln in out.splitlines():
            if ln.startswith(pre):
                s = json.loads(ln.replace("\t", " "))
                res.append(json.loads(s[len(tag) + 1:]))
        return res

    def mc(self, module, cfg=None, workers=6, tag="CASE", env=None, timeout=800, heap="6g"):
        """Exhaustive model check; an invariant violation of the specification itself is a machinery error."""
        r = self.tlc(module, cfg, env=env, workers=workers, timeout=timeout, heap=heap)
        if r["rc"] != 0:
            tail = "\n".join(r["out"].splitlines()[-60:])
            raise Machinery("specification %s (%s) fails its own check, rc=%d\n%s" % (module, r["cfg"], r["rc"], tail))
        if r["states"] == 0:
            raise Machinery("no states explored in " + module)
        self.states += r["states"]
        self.distinct += r["distinct"]
        cases = self.lines(r["out"], tag)
        self.runs.append(dict(kind="mc", module=module, cfg=r["cfg"], states=r["states"], distinct=r["distinct"],
                              cases=len(cases), secs=r["secs"]))
        return cases

    def _trace_run(self, module, cfg, evlists, timeout):
        """Run one trace file through a trace specification; returns TLC output (accepted) or raises."""
        fd, path = tempfile.mkstemp(dir=self.scratch, suffix=".ndjson")
        n = 0
        with os.fdopen(fd, "w") as f:
            for evs in evlists:
                for e in evs:
                    f.write(json.dumps(e, separators=(",", ":")) + "\n")
                    n += 1
        r = self.tlc(module, cfg, env=dict(TRACE=path), workers=1, timeout=timeout)
        if r["rc"] != 0 or not self.lines(r["out"], "DONE"):
            keep = os.path.join(tempfile.gettempdir(), "vf-failed-%s.ndjson" % module)
            if os.environ.get("VERIF_DEBUG"):
                shutil.copy(path, keep)
            raise Stuck("trace specification %s did not consume its trace (rc=%d)\n%s" %
                            (module, r["rc"], "\n".join(r["out"].splitlines()[-40:])))
        os.unlink(path)
        done = self.lines(r["out"], "DONE")[-1]
        if done["n"] != n:
            raise Stuck("trace specification %s consumed %s of %d events" % (module, done, n))
        return r, n

    def _narrow(self, module, cfg, part, timeout, stuck):
        """Run the cases of a part that got stuck in ever smaller groups, until single recordings are to blame."""
        out = []
        for half in (part[: len(part) // 2], part[len(part) // 2:]):
            if not half or len(stuck) >= 3:
                continue
            try:
                out.append(self._trace_run(module, cfg, [e for _, e in half], timeout))
            except Stuck as e:
                if len(half) == 1:
                    stuck.append((half[0][0], str(e)[-400:]))
                else:
                    out += self._narrow(module, cfg, half, timeout, stuck)
        return out

    def _traces(self, module, cfg, evlists, chunks, timeout, stuck=None):
        """Split the cases over several TLC processes. evlists: list of (case id, [events]).
        With a list for stuck, recordings the specification cannot read are put there instead of raising."""
        evlists = [x for x in evlists if x[1]]
        if not evlists:
            return []
        k = max(1, min(chunks or NPROC, len(evlists)))
        parts = [evlists[i::k] for i in range(k)]
        outs = []

        def one(p):
            try:
                return [self._trace_run(module, cfg, [e for _, e in p], timeout)]
            except Stuck as e:
                if stuck is None:
                    raise
                return self._narrow(module, cfg, p, timeout, stuck) if len(p) > 1 else stuck.append((p[0][0], str(e)[-400:])) or []
        with cf.ThreadPoolExecutor(k) as ex:
            for rs in ex.map(one, parts):
                for r, n in rs:
                    outs.append(r)
                    self.states += r["states"]
                    self.distinct += r["distinct"]
                    self.runs.append(dict(kind="trace", module=module, cfg=r["cfg"], events=n, secs=r["secs"]))
        return outs

    def judge(self, module, cases, evlists, cfg=None, chunks=None, timeout=800, kind="trace"):
        """cases: list; evlists: parallel list of event lists (None = code raised, already reported).
        Every event carries c = index of its case. TLC prints FAIL {c, clause, ...}."""
        pairs = [(i, e) for i, e in enumerate(evlists) if e]
        stuck = []
        outs = self._traces(module, cfg, pairs, chunks, timeout, stuck)
        nf = 0
        for i, why in stuck:
            nf += 1
            self.violation(kind, cases[i], dict(clause="the recorded run is no behaviour the specification can read", what=why))
        for r in outs:
            for f in self.lines(r["out"], "FAIL"):
                nf += 1
                self.violation(kind, cases[f["c"]], f)
            for s in self.lines(r["out"], "STAT"):
                for k, v in s.items():
                    self.count(k, v)
        self.traces += len(pairs)
        for i, _ in pairs:
            self.seen(cases[i])
        return nf

    def oracle(self, module, cases, evlists, cfg=None, chunks=None, timeout=800, kind="trace"):
        """TLC computes the specification's answer for each input trace: {case index: answer}."""
        pairs = [(i, e) for i, e in enumerate(evlists) if e]
        outs = self._traces(module, cfg, pairs, chunks, timeout)
        ans = {}
        for r in outs:
            for a in self.lines(r["out"], "ANSWER"):
                ans.setdefault(a["c"], []).append(a)
            for f in self.lines(r["out"], "FAIL"):
                self.violation(kind, cases[f["c"]], f)
        for i, _ in pairs:
            if i not in ans:
                raise Machinery("no answer for case %d from %s" % (i, module))
        return ans

    def seen(self, case):
        h = hashlib.md5(json.dumps(case, sort_keys=True, default=str).encode()).digest()
        with self.lock:
            self.hashes.add(h)

    # ---- running the real code
    def warm(self, fn):
        """Compile jitted code once in this process while TLC works, so that forked workers inherit it.
        Returns a function to call before the first worker is started."""
        import numba
        numba.config.THREADING_LAYER = "workqueue"  # the layer that survives fork

        def go():
            _init_worker()
            try:
                fn()
            except Exception:  # whatever the code does here is judged later
                pass
        t = threading.Thread(target=go, daemon=True)
        t.start()
        return t.join

    def _executor(self):
        if self.pool is None:
            self.pool = cf.ProcessPoolExecutor(NPROC, mp_context=multiprocessing.get_context("fork"),
                                               initializer=_init_worker)
        return self.pool

    def _kill_pool(self):
        p, self.pool = self.pool, None
        if p:
            procs = list((getattr(p, "_processes", None) or {}).keys())
            p.shutdown(wait=False, cancel_futures=True)
            for pid in procs:
                try:
                    os.kill(pid, 9)
                except OSError:
                    pass

    def run_code(self, fn, cases, chunk=None, timeout=600):
        """[fn(case)] in worker processes. Returns list of (status, value)."""
        if not cases:
            return []
        modname, funcname = fn.__module__, fn.__name__
        chunk = chunk or max(1, min(100, math.ceil(len(cases) / (NPROC * 4))))
        chunks = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
        results = [None] * len(chunks)
        for attempt in (0, 1):
            todo = [i for i, r in enumerate(results) if r is None]
            if not todo:
                break
            ex = self._executor()
            futs = {ex.submit(_run_chunk, modname, funcname, chunks[i]): i for i in todo}
            deadline = time.time() + timeout
            try:
                for f in cf.as_completed(futs, timeout=timeout):
                    results[futs[f]] = f.result()
            except BrokenProcessPool:
                self._kill_pool()
                continue
            except cf.TimeoutError:
                self._kill_pool()
                break
        flat = []
        for ch, r in zip(chunks, results):
            if r is None:
                r = self._isolated(modname, funcname, ch)
            flat.extend(r)
        for c, (st, v) in zip(cases, flat):
            if st == "harness":
                raise Machinery("harness error on case %s: %s" % (json.dumps(c, default=str)[:400], v))
        return flat

    def _isolated(self, modname, funcname, chunk):
        """Each case in its own process: tells which one crashes or hangs."""
        out = []
        bad = 0
        for c in chunk:
            if bad >= 3:
                out.append(("skip", None))
                continue
            with cf.ProcessPoolExecutor(1, mp_context=multiprocessing.get_context("fork"), initializer=_init_worker) as ex:
                f = ex.submit(_run_chunk, modname, funcname, [c])
                try:
                    out.extend(f.result(timeout=60))
                except BrokenProcessPool:
                    out.append(("code", "the process running the code died"))
                    bad += 1
                except cf.TimeoutError:
                    for pid in list(ex._processes):
                        os.kill(pid, 9)
                    out.append(("code", "no answer within 60 s"))
                    bad += 1
        return out

    def replay(self, fn, cases, kind="replay", limit=None):
        """fn(case) -> None when the code agrees with the case, else a description."""
        if limit and len(cases) > limit:
            cases = self.rng.sample(cases, limit)
        for c, (st, v) in zip(cases, self.run_code(fn, cases)):
            if st == "skip":
                continue
            self.traces += 1
            self.seen(c)
            if st in CLAUSE:
                self.violation(kind, c, dict(clause=CLAUSE[st], what=v))
            elif v is not None:
                self.violation(kind, c, v if isinstance(v, dict) else dict(clause="mismatch", what=v))

    def record(self, fn, cases, kind="trace"):
        """fn(case) -> list of events (without c). Exceptions of the code are violations."""
        evs = []
        for i, (c, (st, v)) in enumerate(zip(cases, self.run_code(fn, cases))):
            if st == "ok":
                evs.append([dict(e, c=i) for e in v])
            else:
                evs.append(None)
                if st in CLAUSE:
                    self.violation(kind, c, dict(clause=CLAUSE[st], what=v))
        return evs

    # ---- verdict
    def finish(self):
        wall = round(time.time() - self.t0, 2)
        cov = dict(states=self.states, distinct_states=self.distinct,
                   transitions=self.states, traces_validated_against_impl=self.traces,
                   distinct_cases=len(self.hashes),
                   samples=self.samples[:4] or ["none"], rule=" ".join(self.rules), runs=self.runs,
                   counters=dict(sorted(self.counters.items())))
        cov["transitions"] = max(0, self.states - sum(1 for r in self.runs))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=LEVEL, coverage=cov,
                  assumptions=self.assumptions, wall_s=wall, violations=self.nviol)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.traces == 0 and not self.violations:
            print("MACHINERY-ERROR nothing was compared")
            return 2
        known = load_known(self.prop)
        fresh = []
        for v in self.violations:
            k = next((k for k in known if match_known(k, v)), None)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
            else:
                fresh.append(v)
        print("%s %s: %d states explored, %d behaviours compared with the code, %d distinct cases, %.1f s" %
              (self.prop, self.tier, self.states, self.traces, len(self.hashes), wall))
        if not fresh:
            return 0
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(fresh[:3]):
            path = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.seed, i))
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, **v), f, indent=1, default=str)
            print("  %s: %s" % (v["kind"], json.dumps(v["detail"], default=str)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if self.nviol > 3:
            print("  (%d mismatches in total)" % self.nviol)
        return 1


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith("{"):
                k = json.loads(ln)
                if k.get("property") == prop and not k.get("fixed"):
                    out.append(k)
    return out


def match_known(k, v):
    return all(json.dumps(v["case"].get(a), sort_keys=True) == json.dumps(b, sort_keys=True)
               for a, b in k["case"].items()) and k.get("clause") in (None, v["detail"].get("clause"))


def replay_file(mod, path):
    """Re-run one recorded violation against the code of /repo as it is now."""
    d = json.load(open(path))
    _init_worker()
    print(json.dumps(d, indent=1)[:4000])
    fn = mod.REPLAY[d["kind"]]
    if d["kind"].startswith("replay"):
        try:
            r = fn(d["case"])
        except Exception as e:
            traceback.print_exc()
            r = repr(e)
        print("result now:", r)
        return 0 if r is None else 1
    ctx = Ctx(d["property"], "quick", 0)
    try:
        fn(ctx, [d["case"]])
        return ctx.finish() if ctx.violations else 0
    finally:
        ctx.cleanup()
