"""Worker processes: sym (deductive leg), rt (monitors on the real code), dual, replay."""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def contract_module(pid):
    return importlib.import_module(f"contracts.{pid.lower()}")


def sym(a):
    if VT not in sys.path:
        sys.path.append(VT)
    from pydv import engine, extract, solve

    from pydv import cover

    extract.install()
    cover.start(extract.SRC)
    mod = contract_module(a.pid)
    harnesses = getattr(mod, "SYMBOLIC", [])
    out = {"obligations": [], "harnesses": {}, "functions": {}, "solver": {}, "sources": {}}
    t_end = time.time() + (400 if a.tier == "quick" else 2400)
    for h in harnesses:
        name = h.__name__
        t0 = time.time()
        ctx = engine.Symbolic(name, deadline=t_end, seed=a.seed)
        ctx.tier = a.tier
        try:
            ctx.run(h)
        except Exception as e:  # pragma: no cover - engine failure is "unsupported", never an alarm
            engine.ENGINE.stack = []
            ctx._add("engine", "unsupported", f"{type(e).__name__}: {e} {traceback.format_exc(limit=-4)}")
        if ctx.covered == 0:
            ctx._add("cover", "unknown", "no path with satisfiable preconditions was completed")
        for o in ctx.obligations:
            d = o.as_dict()
            d["harness"] = name
            out["obligations"].append(d)
        out["harnesses"][name] = {
            "paths": ctx.paths, "covered": ctx.covered, "obligations": len(ctx.obligations),
            "seconds": round(time.time() - t0, 3),
        }
    out["solver"] = dict(solve.STATS)
    out["functions"] = cover.report(extract.SRC)
    for p in extract.LOADED:
        with open(p, "rb") as f:
            out["sources"][p] = hashlib.sha256(f.read()).hexdigest()[:16]
    return out


class Discard(Exception):
    pass


class Case:
    """One monitored execution of the real code."""

    mode = "concrete"

    def __init__(self, name, seed, k, tier="quick", witness=None):
        self.name, self.seed, self.k, self.tier = name, seed, k, tier
        self.rng = random.Random(f"{seed}|{name}|{k}")
        self.failures = []
        self.checks = 0
        self.info = {}
        self.witness = dict(witness or {})
        self.known = []

    # dual-mode inputs
    def real(self, name, lo=-3.0, hi=3.0):
        v = self.witness.get(name)
        if v is None:
            v = self.rng.uniform(lo, hi)
        self.info[name] = v
        return v

    def pos(self, name, lo=0.2, hi=5.0):
        v = self.witness.get(name)
        if v is None or v <= 0:
            v = self.rng.uniform(lo, hi)
        self.info[name] = v
        return v

    def reals(self, name, n):
        import numpy as np

        return np.array([self.real(f"{name}{i}") for i in range(n)])

    def assume(self, c):
        if not bool(c):
            raise Discard()

    def sampler(self, f):
        if not self.witness:
            self.witness.update(f(self.rng))

    # checks
    def fail(self, name, message):
        self.failures.append({"name": f"{self.name}.{name}", "message": message})

    def ensure(self, name, c, message=""):
        self.checks += 1
        if not bool(c):
            self.fail(name, message or "condition is false")

    def ensure_eq(self, name, got, want, scale=None, rtol=1e-9):
        import numpy as np

        self.checks += 1
        if isinstance(got, (str, bool, type(None))) or isinstance(want, (str, bool, type(None))):
            if got != want:
                self.fail(name, f"got {got!r} want {want!r}")
            return
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            if got is not want and got != want:
                self.fail(name, f"got {got!r} want {want!r}")
            return
        if g.shape != w.shape:
            self.fail(name, f"shape {g.shape} want {w.shape}")
            return
        if g.size == 0:
            return
        s = np.max(np.abs(w)) if scale is None else scale
        if scale is None:
            s = max(s, float(np.max(np.abs(g))) if np.all(np.isfinite(g)) else 0.0)
        err = np.abs(g - w)
        if not np.all(np.isfinite(g)) or np.any(err > rtol * s + 1e-300):
            i = int(np.argmax(np.where(np.isfinite(err), err, np.inf)))
            self.fail(name, f"got {g.ravel()[i]!r} want {w.ravel()[i]!r} (index {i}, scale {float(s)!r})")

    def finding(self, key, name, message=""):
        """A failure of a recorded kind: reported as known while known_findings lists its key."""
        self.checks += 1
        with open(os.path.join(HERE, "known_findings")) as f:
            for line in f:
                if line.startswith("finding:") and f"[{key}]" in line:
                    self.known.append(line.split("]", 1)[1].strip())
                    return
        self.fail(name, message or key)

    def note(self, **k):
        self.info.update({a: b for a, b in k.items()})


def dual_runner(h):
    def run(case):
        h(case)

    run.__name__ = "dual_" + h.__name__
    run.dual = True
    return run


def run_case(fn, name, seed, k, tier, witness=None):
    c = Case(name, seed, k, tier, witness)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(c)
    except Discard:
        c.discarded = True
        return c
    except Exception as e:
        c.fail("exception", f"{type(e).__name__}: {e} | {traceback.format_exc(limit=-5)[-1200:]}")
    c.discarded = False
    return c


def catalogue(mod, tier):
    """[(name, fn, cases)]"""
    out = []
    for h in getattr(mod, "SYMBOLIC", []):
        if getattr(h, "dual", False):
            n = getattr(h, "samples", 12)
            out.append(("dual_" + h.__name__, h, n if tier == "quick" else 10 * n))
    for name, fn, nq, nt in getattr(mod, "RUNTIME", []):
        out.append((name, fn, nq if tier == "quick" else nt))
    return out


def rt(a):
    mod = contract_module(a.pid)
    i, n = map(int, a.shard.split("/"))
    res = {"failures": [], "evaluations": 0, "samples": [], "monitors": {}, "known": []}
    t_end = time.time() + {"quick": 300, "hunt": 150}.get(a.tier, 2400)
    cnt = 0
    for name, fn, cases in catalogue(mod, a.tier):
        m = res["monitors"].setdefault(name, {"cases": 0, "checks": 0})
        for k in range(cases):
            cnt += 1
            if cnt % n != i:
                continue
            if time.time() > t_end:
                break
            c = run_case(fn, name, a.seed, k, a.tier)
            if c.discarded:
                continue
            m["cases"] += 1
            m["checks"] += c.checks
            res["evaluations"] += c.checks
            res["known"] += c.known
            if len(res["samples"]) < 3 and k == 0:
                res["samples"].append({"monitor": name, "seed": a.seed, "k": k, "info": c.info})
            for f in c.failures:
                f.update(monitor=name, k=k, seed=a.seed, tier=a.tier, info=c.info,
                         command=f"run.py {a.pid} --replay <this file>")
                res["failures"].append(f)
            if len(res["failures"]) >= 5:
                return res
    return res


def dual(a):
    """Replays counterexamples of the verifier on the real code."""
    mod = contract_module(a.pid)
    with open(a.file) as f:
        hints = json.load(f)
    hs = {h.__name__: h for h in getattr(mod, "SYMBOLIC", [])}
    res = {"failures": [], "evaluations": 0, "passed": []}
    for o in hints:
        h = hs.get(o["harness"])
        if h is None or not getattr(h, "dual", False):
            continue
        ran = 0
        bad = False
        for k, w in [(0, o.get("witness"))] + [(k, None) for k in range(1, 60)]:
            c = run_case(h, "dual_" + o["harness"], a.seed + 77, k, a.tier, w)
            if c.discarded:
                continue
            ran += 1
            res["evaluations"] += c.checks
            for f in c.failures:
                f.update(monitor="dual_" + o["harness"], k=k, seed=a.seed + 77, tier=a.tier, info=c.info, witness=w, obligation=o)
                res["failures"].append(f)
                bad = True
            if bad:
                break
        if ran and not bad:
            res["passed"].append(o["harness"])
        if len(res["failures"]) > 3:
            break
    return res


def replay(a):
    mod = contract_module(a.pid)
    with open(a.file) as f:
        rep = json.load(f)
    f = rep["failure"]
    res = {"failures": [], "evaluations": 0}
    if "monitor" not in f:
        res["note"] = "no failing input was found; the failed obligation is in the replay file"
        return res
    for name, fn, _ in catalogue(mod, "quick"):
        if name == f["monitor"]:
            c = run_case(fn, name, f["seed"], f["k"], f["tier"], f.get("witness"))
            res["failures"] = c.failures
            res["evaluations"] = c.checks
            res["info"] = c.info
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", default="0/1")
    ap.add_argument("--file")
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.cmd in ("rt", "dual", "replay"):
        # a mesh that never stops refining must end this process, not the sandbox's memory
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    res = {"sym": sym, "rt": rt, "dual": dual, "replay": replay}[a.cmd](a)
    with open(a.out + ".tmp", "w") as f:
        json.dump(res, f, default=str)
    os.replace(a.out + ".tmp", a.out)


if __name__ == "__main__":
    main()
