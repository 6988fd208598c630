"""Checks that the interpreter and the libraries the checks use are present (nothing is built)."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
py = "/opt/venv/bin/python"
r = subprocess.run([py, "-c", "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import numpy, scipy, shapely, mpmath, z3; print('ok')"],
                   env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
sys.exit(r.returncode)
