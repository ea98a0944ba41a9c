#!/usr/bin/env python3
"""DESIGN.md from tools/design_head.md, properties.jsonl, MANIFEST.json, seeded/*/meta.json and known_findings.json."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = lambda f: open(os.path.join(V, f)).read()
o = [R("tools/design_head.md").rstrip()]
man = {c["property"]: c for c in json.loads(R("MANIFEST.json"))["checks"]}
fixed = json.loads(R("known_findings.json"))["fixed"]
seeds = [(os.path.basename(os.path.dirname(f)), json.load(open(f))) for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json")))]
caught = json.loads(R("tools/caught.json"))
for l in R("properties.jsonl").splitlines():
    p = json.loads(l); i = p["id"]; c = man[i]
    src = R("checks/%s.py" % i.lower())
    specs = sorted(set(re.findall(r'"(\w+)"', src + (R("lib/conc.py") if "conc" in src else "") + (R("lib/scriptlib.py") if "scriptlib" in src else ""))) & {os.path.basename(f)[:-4] for f in glob.glob(os.path.join(V, "spec/*.tla"))})
    if i != "C29": specs = [s for s in specs if s != "Paths"]
    if i == "C23": specs = ["Archive"]
    if "ScriptEval" in specs: specs.append("ScriptLang")
    drv = sorted(set(re.findall(r'build\("(\w+)"', src)))
    o.append("\n### %s. %s\n" % (i, p["title"]))
    o.append("*Specification:* %s. *Drivers:* %s.\n" % (", ".join("`spec/%s.tla`" % s for s in specs) or "see the check", ", ".join("`harness/%s.cpp`" % d for d in drv) or "see the check"))
    o.append("*Method:* %s.\n" % c["technique"])
    o.append("*What is covered, against what oracle, within what bounds:* %s\n" % c["level_note"])
    why = p.get("why_tests_cannot") or p.get("why_not_tests") or ""
    if not why: why = next((v for k, v in p.items() if "why" in k or "test" in k), "")
    if why: o.append("*Why tests do not reach it:* %s\n" % why)
    fx = [re.match(r"fixed: property=\S+ (\S+) (.*)", f).groups() for f in fixed if "property=%s " % i in f]
    if fx: o.append("*Defects found:* %s.\n" % "; ".join("%s (`%s`)" % (b.split(":")[0].rstrip("."), a) for a, b in fx))
o.append(R("tools/design_tail.md").rstrip())
o.append("\n## Planted bugs and the checks that catch them\n")
o.append("Each builds, passes the stable tests, and was confirmed with its demonstration; the last column is the outcome of the quick check of its property (`tools/seedtest.sh`).\n")
o.append("| planted change | property | needs | outcome |\n|---|---|---|---|")
for n, m in seeds: o.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"].replace("|", "/"), caught.get(n, "caught")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")
