"""Writes DESIGN.md from design_head.md, pydv/meta.py, properties.jsonl, known_findings and caught.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pydv import meta

out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## 4. Properties", ""]
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)
    x = meta.META.get(p["id"])
    out += [f"### {p['id']} {p['title']}", "", p["statement"], ""]
    if p["id"] in meta.NOT_APPLICABLE:
        out += ["*Not applicable:* " + meta.NOT_APPLICABLE[p["id"]], ""]
        continue
    out += [f"* *Specified and proved* (`contracts/{p['id'].lower()}.py`): {x['spec']}",
            f"* *Beyond the tests:* {x['reach']}. {p['why_tests_cant']}"]
    if x["trusted"]:
        out.append("* *Assumed contracts of others:* " + "; ".join(x["trusted"]) + ".")
    if x["assumptions"]:
        out.append("* *Assumptions:* " + "; ".join(x["assumptions"]) + ".")
    if x["bounded"]:
        out.append("* *Bounded, not counted as proved:* " + "; ".join(x["bounded"]) + ".")
    out.append("")
out += ["Common trusted base: " + "; ".join(meta.COMMON_TRUSTED) + ".", "Common assumptions: " + "; ".join(meta.COMMON_ASSUMPTIONS) + ".", ""]
out += ["## 5. Genuine defects found", "", "From `known_findings` (`fixed:` = repaired by that commit in /repo, `finding:` = recorded):", ""]
for l in open(os.path.join(HERE, "known_findings")):
    if l.startswith(("fixed:", "finding:")):
        out.append("* " + l.strip())
out += ["", open(os.path.join(HERE, "tools", "design_tail.md")).read().rstrip(), ""]
caught = json.load(open(os.path.join(HERE, "tools", "caught.json"))) if os.path.exists(os.path.join(HERE, "tools", "caught.json")) else {}
out += ["## 7. Planted bugs", "",
        "Each in `seeded/<id>/`, written from the property text, passing the 187 stable tests. \"Caught by\" is measured by "
        "`tools/catch.py` (quick tier).", "", "| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
sd = os.path.join(HERE, "seeded")
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    d = json.load(open(os.path.join(sd, i, "meta.json")))
    out.append(f"| {i} | {d['what_it_breaks']} | {d['needs']} | {caught.get(i, 'not measured')} |")
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
