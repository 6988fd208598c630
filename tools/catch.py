"""Applies each planted bug to a copy of /repo and runs its property's check (and any others named); writes caught.json."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = os.path.join(HERE, "tools", "caught.json")
res = json.load(open(F)) if os.path.exists(F) else {}
R = "/tmp/catch_repo"
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
for i in ids:
    d = os.path.join(HERE, "seeded", i)
    p = json.load(open(os.path.join(d, "meta.json")))["property"]
    shutil.rmtree(R, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
    subprocess.run(["git", "-C", R, "apply", os.path.join(d, "patch.diff")], check=True)
    r = subprocess.run([sys.executable, "run.py", p], cwd=HERE, env=dict(os.environ, PYDV_SRC=R + "/src"), capture_output=True, text=True)
    v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
    res[i] = f"{p}" + (" (failed obligation)" if v and "no-failing" in v[0] else " (replayed)") if v else "missed"
    print(i, res[i], flush=True)
shutil.rmtree(R, ignore_errors=True)
json.dump(res, open(F, "w"), indent=1, sort_keys=True)
