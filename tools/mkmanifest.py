"""Writes /verif/MANIFEST.json from the check modules present in checks/."""
import ast, json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOT_BUILT = {}
PY = "/opt/venv/bin/python"
checks, na = [], []
for p in props:
    f = os.path.join(HERE, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason=NOT_BUILT.get(p["id"], "no check built yet")))
        continue
    tree = ast.parse(open(f).read())
    consts = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "TECHNIQUE", "NOTE"):
            consts[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=p["id"],
                       quick_cmd="%s run.py %s quick" % (PY, p["id"]),
                       thorough_cmd="%s run.py %s thorough" % (PY, p["id"]),
                       evidence_file="evidence/%s.json" % p["id"],
                       technique=consts.get("TECHNIQUE", "bounded exhaustive exploration of the real code against a reference model"),
                       level=consts["LEVEL"],
                       level_note=consts.get("NOTE", "Exhaustive within the alphabets and bounds named in the evidence file; nothing is claimed outside them. Trusts the reference model in the check and the Python interpreter.")))
m = dict(version=1, setup_cmd=PY + " tools/selfcheck.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every check drives the public interface of the working tree under /repo.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
