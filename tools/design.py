#!/usr/bin/env python3
"""Writes DESIGN.md from design/*, properties.jsonl, the harness's descriptions, known-findings.jsonl."""
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(H, p)).read()
ns = {}; exec(rd("design/props.py"), ns)
rules = {}
for f in glob.glob(os.path.join(H, "harness/src/*.rs")):
    for m in re.finditer(r'Ctx::new\(\s*"(\w+)",\s*thorough,\s*"(\w+)",\s*"((?:[^"\\]|\\.)*)"', open(f).read()):
        rules[m[1]] = m[3].replace('\\"', '"')
m = re.search(r'Ctx::new\(\s*id,\s*thorough,\s*"model_checking",\s*"((?:[^"\\]|\\.)*)"', rd("harness/src/i01.rs"))
rules["I01"] = rules["I02"] = m[1]
man = {c["property"]: c for c in json.loads(rd("MANIFEST.json"))["checks"]}
cost = json.loads(rd("design/cost.json"))
out = [rd("design/head.md"), "\n## The properties, and how each is decided\n"]
for l in rd("properties.jsonl").splitlines():
    p = json.loads(l); i = p["id"]
    out.append(f"\n### {i} {p['title']}\n\n{p['statement']}\n")
    out.append(f"*Quantified over:* {p['quantifier']['text']}. *Why tests can't settle it:* {p['why_tests_cant']}\n")
    if i in man:
        out.append(f"*Decided by* {man[i]['technique']} (level: {man[i]['level']}).\n\n*Explored:* {rules.get(i, '')}\n\n*Oracle and limits:* {ns['N'].get(i, man[i]['level_note'])}\n")
        if i in cost: out.append(f"*Cost:* {cost[i]}\n")
    else:
        out.append("*Not checked.*\n")
    out.append("*Anchors:* " + ", ".join(p["anchors"]["files"]) + "\n")
fs = []
for l in rd("known-findings.jsonl").splitlines():
    f = json.loads(l)
    fs.append(("* **open** " + f["property"] + ": " + f["what"]) if f["status"] == "open" else "* " + f["what"].replace("fixed: property=", ""))
seeds = ["| seed | property | needs | caught by |", "|---|---|---|---|"]
caught = json.loads(rd("design/caught.json"))
for d in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    seeds.append(f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, '?')} |")
out.append("\n" + rd("design/tail.md").replace("@FINDINGS@", "\n".join(fs)).replace("@SEEDS@", "\n".join(seeds)).replace("@GAPS@", rd("design/gaps.md").rstrip()))
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out))
print(len("\n".join(out).splitlines()), "lines; missing rules:", [i for i in man if i not in rules])
