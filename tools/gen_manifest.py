"""Writes /verif/MANIFEST.json from the contracts present and pydv/meta.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pydv import meta

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py")) and pid not in meta.NOT_APPLICABLE:
        m = meta.META.get(pid, {})
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 run.py {pid} --tier quick",
            "thorough_cmd": f"python3 run.py {pid} --tier thorough",
            "technique": m.get("technique", "contract-based deductive verification of the extracted real code (pydv), replayed on the real code"),
            "level": m.get("level", "proof"),
            "level_note": m.get("note", meta.DEFAULT_NOTE),
        })
    else:
        na.append({"property": pid, "reason": meta.NOT_APPLICABLE.get(pid, "check under construction")})
man = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are needed in /repo. Every check extracts and executes the code of /repo's working tree; see DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
