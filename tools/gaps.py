"""Functions and lines of /repo/src that no deductive check executed (reads evidence/*.json)."""
import ast, glob, json, os, sys
SRC = os.environ.get("PYDV_SRC", "/repo/src")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
miss, seen = {}, set()
for f in glob.glob(os.path.join(HERE, "evidence", "*.json")):
    c = json.load(open(f))["coverage"]
    for k in c.get("functions_under_contract", {}):
        seen.add(k)
        m = set(c["lines_not_reached"].get(k, []))
        miss[k] = miss[k] & m if k in miss else m
funcs = {}
for d, _, fs in os.walk(os.path.join(SRC, "sectionproperties")):
    for n in fs:
        if n.endswith(".py"):
            p = os.path.join(d, n)
            def walk(node, pre):
                for ch in ast.iter_child_nodes(node):
                    if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                        q = pre + ch.name
                        if isinstance(ch, ast.FunctionDef):
                            funcs[os.path.relpath(p, SRC) + "::" + q] = (ch.lineno, ch.end_lineno)
                        walk(ch, q + ".")
                    else:
                        walk(ch, pre)
            walk(ast.parse(open(p).read()), "")
print("functions", len(funcs), "under contract", len([k for k in funcs if k in seen]))
for k in sorted(funcs):
    if k not in seen:
        print("NOT", k, funcs[k])
    elif miss[k] and "-v" in sys.argv:
        print("   ", k, sorted(miss[k]))
