#!/usr/bin/env python3
"""Decides one property: run.py PID [--tier quick|thorough] [--replay FILE] [-v]

Leg 1 (deductive): the property's contracts are verified against the code extracted from
/repo's working tree (pydv).  Leg 2: the same contracts, and whole-program monitors with
independent oracles, run on the real unmodified code; this replays the verifier's
counterexamples and stands in, bounded, for what leg 1 cannot reach.
"""
from __future__ import annotations

import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable


def worker_env(tmp, jit=False):
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        MPLBACKEND="agg",
        PYTHONPATH=HERE + os.pathsep + os.environ.get("PYDV_SRC", "/repo/src"),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        PYTHONHASHSEED="0",
        NUMBA_CACHE_DIR=os.path.join(tmp, "numba"),
        MPLCONFIGDIR=os.path.join(tmp, "mpl"),
        PYTHONWARNINGS="ignore",
    )
    env["NUMBA_DISABLE_JIT"] = "0" if jit else "1"
    return env


def start(args, tmp, out, jit=False):
    err = open(out + ".err", "w")
    p = subprocess.Popen(
        [PY, "-m", "pydv.worker", *args, "--out", out],
        cwd=tmp, env=worker_env(tmp, jit), stdout=err, stderr=err, start_new_session=True,
    )
    return p, out


def finish(proc, out, limit):
    try:
        rc = proc.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(proc.pid, signal.SIGKILL)
        proc.wait()
        rc = "timeout"
    try:
        with open(out) as f:
            d = json.load(f)
    except (OSError, ValueError):
        d = None
    with open(out + ".err") as f:
        tail = f.read()[-3000:]
    return rc, d, tail


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    tmp = tempfile.mkdtemp(prefix="pydv-")
    try:
        return decide(a, tier, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(a, tier, tmp):
    t0 = time.time()
    pid = a.pid
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        p, out = start(["replay", pid, "--file", os.path.abspath(a.replay)], tmp, os.path.join(tmp, "replay.json"))
        rc, d, tail = finish(p, out, 600)
        print(json.dumps(d, indent=1) if d else tail)
        return 1 if d and d.get("failures") else 0
    limit = 560 if tier == "quick" else 3000
    common = ["--tier", tier, "--seed", str(a.seed)]
    ps, os_ = start(["sym", pid, *common], tmp, os.path.join(tmp, "sym.json"))
    nshard = 2 if tier == "quick" else 6
    shards = [
        start(["rt", pid, *common, "--shard", f"{i}/{nshard}"], tmp, os.path.join(tmp, f"rt{i}.json"),
              jit=(tier == "thorough" and i == 0))
        for i in range(nshard)
    ]
    rts = [finish(p, o, limit) for p, o in shards]
    # a failing input settles the answer: the verifier then gets only a little longer
    found = any(d and d["failures"] for _, d, _ in rts)
    rc_s, sym, tail_s = finish(ps, os_, 45 if found else max(1, limit - (time.time() - t0)))

    failures, evals, samples, monitors, notes = [], 0, [], {}, []
    known = []
    for rc, d, tail in rts:
        if d is None:
            notes.append(f"runtime worker ended with {rc}: {tail[-400:]}")
            if rc in ("timeout", -9, -15):
                continue
            failures.append({"name": "runtime-worker", "message": f"the real code ended the process ({rc}): {tail[-800:]}",
                             "crash": True})
            continue
        failures += d["failures"]
        known += d.get("known", [])
        evals += d["evaluations"]
        samples += d["samples"][:2]
        for k, v in d["monitors"].items():
            m = monitors.setdefault(k, {"cases": 0, "checks": 0})
            m["cases"] += v["cases"]
            m["checks"] += v["checks"]
    obls = sym["obligations"] if sym else []
    if sym is None:
        notes.append(f"symbolic worker ended with {rc_s}: {tail_s[-800:]}")
    by = {}
    for o in obls:
        by.setdefault(o["status"], []).append(o)
    refuted = by.get("refuted", []) + by.get("raised", [])

    # replay the verifier's counterexamples on the real code
    replayed_ok = set()
    unreplayable = []
    if refuted and not failures:
        hints = os.path.join(tmp, "hints.json")
        with open(hints, "w") as f:
            json.dump(refuted, f)
        p, out = start(["dual", pid, *common, "--file", hints], tmp, os.path.join(tmp, "dual.json"))
        rc, d, tail = finish(p, out, 300)
        if d:
            failures += d["failures"]
            evals += d["evaluations"]
            replayed_ok = set(d.get("passed", []))
        for o in refuted:
            if o["harness"] not in replayed_ok:
                unreplayable.append(o)
        if not failures and unreplayable and monitors:
            # hunt for a failing input with the run-time contracts before reporting without one
            hs = [start(["rt", pid, "--tier", "hunt", "--seed", str(a.seed + 1000), "--shard", f"{i}/7"], tmp,
                        os.path.join(tmp, f"hunt{i}.json")) for i in range(7)]
            for p, out in hs:
                rc, d, tail = finish(p, out, 260)
                if d:
                    failures += d["failures"]
                    evals += d["evaluations"]

    violations = []
    for f in failures:
        violations.append((f, False))
    unproved = [o for o in unreplayable if o["status"] == "refuted"]
    if not violations and unproved:
        # (an exception inside an abstract execution may be a limit of the abstraction: undecided)
        o = unproved[0]
        violations.append(({"name": o["name"], "message": "obligation fails: " + o["detail"], "obligation": o,
                            "all_failed": unproved[:10]}, True))

    n = len(obls)
    dis = len(by.get("discharged", []))
    functions = dict(sorted(sym["functions"].items())) if sym else {}
    backends = {}
    for o in by.get("discharged", []):
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    from pydv import meta

    info = meta.META.get(pid, {})
    undecided = by.get("unknown", []) + by.get("unsupported", [])
    undecided += [o for o in refuted if o["harness"] in replayed_ok or o["status"] == "raised"]
    cov = {
        "obligations": n,
        "discharged": dis,
        "refuted": len(refuted),
        "undecided": [o["name"] + ": " + o["detail"][:160] for o in undecided][:20],
        "checker_cmd": f"{PY} run.py {pid} --tier {tier}",
        "trusted_base": info.get("trusted", []) + meta.COMMON_TRUSTED,
        "functions_under_contract": {k: f"{v[0]} of {v[1]} lines executed symbolically" for k, v in functions.items()},
        "lines_not_reached": {k: v[2] for k, v in functions.items() if v[2]},
        "harnesses": sym.get("harnesses", {}) if sym else {},
        "backends": backends,
        "solver": sym.get("solver", {}) if sym else {},
        "evaluations": evals,
        "distinct_nontrivial": sum(m["cases"] for m in monitors.values()),
        "rule": "bounded leg: each case draws a random section / element / input (seeded) and compares the real "
                "code with an independent oracle; every case is distinct by seed",
        "monitors": monitors,
        "samples": samples[:6] or [o["name"] for o in obls[:6]],
        "bounded_standins": info.get("bounded", []),
        "explanation": info.get("explanation", ""),
        "notes": notes,
        "sources": sym.get("sources", {}) if sym else {},
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": a.seed, "level": info.get("level", "proof"),
        "coverage": cov,
        "assumptions": info.get("assumptions", []) + meta.COMMON_ASSUMPTIONS,
        "violations": len(violations), "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print(f"{pid} [{tier}] obligations {n} discharged {dis} refuted {len(refuted)} undecided {len(undecided)}; "
          f"runtime cases {sum(m['cases'] for m in monitors.values())} checks {evals}; {time.time() - t0:.1f}s")
    if a.v:
        for o in obls:
            if o["status"] != "discharged":
                print("  ", o["status"], o["name"], o["detail"][:400])
        for k, m in monitors.items():
            print("   monitor", k, m)
    for x in notes:
        print("note:", x[-1500:])
    for k in sorted(set(known)):
        print(f"KNOWN-FINDING: property={pid} {k}")
    if n == 0 and not violations:
        print("ERROR: no obligations were generated")
        # fall back on the bounded leg rather than give no answer
        if evals == 0:
            return 3
    if violations:
        f, nfif = violations[0]
        blob = json.dumps({"property": pid, "seed": a.seed, "tier": tier, "failure": f, "all": [x for x, _ in violations][:20]}, indent=1, default=str)
        path = os.path.join(HERE, "replays", f"{pid}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json")
        with open(path, "w") as fh:
            fh.write(blob)
        print("  ", f.get("name"), "|", str(f.get("message"))[:800])
        print(f"VIOLATION property={pid} replay={path}" + (" no-failing-input-found" if nfif else ""))
        return 1
    return 0


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    sys.exit(main())
