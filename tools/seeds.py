"""Plants a bug: python3 tools/seeds.py ID [ID...]  (writes /verif/seeded/ID and verifies it in a scratch copy).

The definitions (replacements in the source, demonstration) are read from tools/seed_defs.py. Nothing here is
used by a check."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# cwd: the repository. Exits 0 when the property holds, 1 when it does not.
export NUMBA_DISABLE_JIT=1 MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" OMP_NUM_THREADS=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def make(sid, d):
    out = os.path.join(ROOT, "seeded", sid)
    tmp = tempfile.mkdtemp(prefix="seed_")
    wt = os.path.join(tmp, "r")
    try:
        shutil.copytree("/repo", wt, symlinks=True)
        sh("git checkout -q -- .", wt)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(d["demo"].lstrip("\n"))
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        r = sh(f"bash {out}/demo.sh", wt, timeout=300)
        if r.returncode:
            return "demo fails on the clean tree: " + (r.stdout + r.stderr)[-600:]
        for f, reps in d["edits"].items():
            p = os.path.join(wt, "src/sectionproperties", f)
            s = open(p).read()
            for old, new in reps:
                if s.count(old) != 1:
                    return f"{f}: {s.count(old)} matches of {old!r}"
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = sh("git diff", wt).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        r = sh(f"bash {out}/demo.sh", wt, timeout=300)
        if not r.returncode:
            return "demo passes with the bug"
        tail = (r.stdout + r.stderr).strip().splitlines()[-1:]
        env = dict(os.environ, PYTHONPATH=wt + "/src", PYTHONHASHSEED="0", MPLBACKEND="agg", OMP_NUM_THREADS="1",
                   NUMBA_CACHE_DIR=tmp + "/numba", PYTHONDONTWRITEBYTECODE="1")
        r = sh(f"{PY} -c 'import sectionproperties as s; print(s.__path__[0])'; {PY} -m pytest -q -x -p no:cacheprovider "
               "-n 4 --dist loadfile --benchmark-disable tests 2>&1 | tail -4", wt, env=env, timeout=900)
        ok = wt in r.stdout and "187 passed" in r.stdout
        return ("OK " if ok else "TESTS FAIL ") + str(tail)[:200] + ("" if ok else r.stdout[-700:])
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    from seed_defs import SEEDS

    from concurrent.futures import ThreadPoolExecutor

    ids = sys.argv[1:] or [s for s in SEEDS if not os.path.exists(os.path.join(ROOT, "seeded", s, "patch.diff"))]
    with ThreadPoolExecutor(2) as ex:
        for sid, res in zip(ids, ex.map(lambda s: make(s, SEEDS[s]), ids)):
            if not res.startswith("OK"):
                shutil.rmtree(os.path.join(ROOT, "seeded", sid), ignore_errors=True)
            print(sid, res)
