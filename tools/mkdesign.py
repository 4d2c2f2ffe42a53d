"""Writes DESIGN.md: the hand-written parts below, and for each property what its check
module says about itself with the numbers of the last recorded runs (tools/costs.json)."""
import ast, json, os, re, sys, glob

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
read = lambda p: open(os.path.join(HERE, p)).read()
costs = json.loads(read("tools/costs.json")) if os.path.exists(os.path.join(HERE, "tools/costs.json")) else {}
if "collect" in sys.argv:
    for f in glob.glob(os.path.join(HERE, "evidence", "C*.json")):
        e = json.load(open(f))
        c = e["coverage"]
        if e["violations"]:
            continue
        costs.setdefault(e["property"], {})[e["tier"]] = dict(
            wall=round(e["wall_s"]), cases=sum(s["cases"] for s in c["sections"].values()), decided=sum(s["inputs_decided"] for s in c["sections"].values()),
            states=sum(s["model_states"] for s in c["sections"].values()), transitions=sum(s["model_transitions"] for s in c["sections"].values()),
            sections={k: s["inputs_decided"] for k, s in c["sections"].items()})
    json.dump(costs, open(os.path.join(HERE, "tools/costs.json"), "w"), indent=0, sort_keys=True)

out = [read("tools/design_head.md")]
for p in map(json.loads, read("properties.jsonl").splitlines()):
    t = ast.parse(read("checks/%s.py" % p["id"].lower()))
    names = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("ASSUMPTIONS", "TECHNIQUE", "LEVEL"):
            names[n.targets[0].id] = ast.literal_eval(n.value)
    doc = " ".join(ast.get_docstring(t).split())
    doc = re.sub(r"^C\d\d: ", "", doc)
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("- **Decided by** (%s): %s" % (names.get("TECHNIQUE", "bounded exhaustive exploration of the real code against a reference model"), doc))
    out.append("- **Quantifies over** %s." % p["quantifier"]["text"])
    rules = []
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and getattr(n.func, "attr", "") == "explore":
            r = [k.value for k in n.keywords if k.arg == "rule"]
            name = n.args[0].value if isinstance(n.args[0], ast.Constant) else None
            if r and name:
                v = r[0].left if isinstance(r[0], ast.BinOp) else r[0]
                s = v.value if isinstance(v, ast.Constant) else ""
                rules.append("*%s*%s" % (name, (": " + re.sub(r"%[ds]", "N", s).replace("%%", "%")) if s else ""))
            elif name:
                rules.append("*%s*" % name)
    dims = re.findall(r'@dim\("%s", "([^"]+)"' % p["id"], read("mc/sizes.py"))
    if dims:
        rules.append("*sizes*: every count of a list reaching past 10, 100 and (where cheap) 1000 of: " + ", ".join(dims))
    for name, rule in re.findall(r'@law\("%s", "([^"]+)", "([^"]+)"' % p["id"], read("mc/corpus.py")):
        rules.append("*%s* (%d templates of mc/corpus.json): %s" % (name, len(json.loads(read("mc/corpus.json"))), rule))
    if rules:
        out.append("- **Sections**: " + "; ".join(rules) + ".")
    c = costs.get(p["id"], {})
    for tier in ("quick", "thorough"):
        if tier in c:
            x = c[tier]
            out.append("- **%s**: %s executions of the real code, %s inputs decided, %s model states, %s transitions, %d s." % (
                tier.capitalize(), *(format(x[k], ",").replace(",", " ") for k in ("cases", "decided", "states", "transitions")), x["wall"]))
    if names.get("ASSUMPTIONS"):
        out.append("- **Outside**: " + "; ".join(names["ASSUMPTIONS"]) + ".")
    out.append("- **Why tests cannot settle it**: " + p["why_tests_cant"] + ".\n")
out.append(read("tools/design_tail.md"))
kf = json.loads(read("known_findings.json"))
out.append("## Defects found and repaired\n\nEach was reported by the check named, shown on the real code, and repaired in its own commit; %d known findings are left unrepaired.\n" % len(kf["findings"]))
for f in kf["findings"]:
    out.append("- known finding, %s: %s" % (f["property"], f["what"]))
for f in kf["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f, re.S)
    out.append("- %s `%s` %s" % m.groups())
dm = os.path.join(HERE, "tools", "detections.json")
if os.path.exists(dm):
    out.append("\n## Planted bugs and what catches them\n\nEach was run against the quick check of its property (others were tried only where named).\n\n| planted bug | property | needs | caught by |\n|---|---|---|---|")
    d = json.load(open(dm))
    for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        i = os.path.basename(os.path.dirname(f))
        m = json.load(open(f))
        out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], ", ".join(d.get(i, [])) or "nothing yet"))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print("DESIGN.md", sum(len(x) for x in out))
