#!/usr/bin/env python3
"""DESIGN.md = design.head.md + one section per property + seeded-bug table + design.tail.md"""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.path.insert(0, V + "/tools")
import checks
from design_notes import NOTES
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = [open(V + "/tools/design.head.md").read()]
for p in props:
    i = p["id"]; s = checks.spec(i, "quick"); cost = ""
    e = V + "/evidence/%s.json" % i
    n = NOTES[i]
    out.append("### %s %s\n\n*Decided by* %s.\n\n*Workload and evidence*: %s.\n\n*Bounds*: %s; %d programs; quick about %s s, thorough %s on 8 cores.\n\n*Beyond the tests*: %s\n" % (i, p["title"], s["technique"], s["rule"].rstrip("; "), s["note"], len(s["builds"]), n[0], n[1], n[2]))
    if s["assumptions"]: out.append("*Assumptions*: " + "; ".join(s["assumptions"]) + ".\n")
out.append("## Planted bugs (`seeded/`)\n\nEach applies to HEAD, builds, passes the stable tests (the containers' own under valgrind, both configurations), its demo distinguishes it, and was run against its property's check (quick tier, seed 1).\n\n| seeded | property | what it needs | caught by (line printed first) |\n|---|---|---|---|")
res = json.load(open(V + "/tools/seeded_results.json")) if os.path.exists(V + "/tools/seeded_results.json") else {}
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), res.get(d, "?").replace("|", "/")))
find = "\n".join("* " + l[7:].strip().replace("property=", "") for l in open(V + "/KNOWN_FINDINGS.txt") if l.startswith("fixed:"))
mut = open(V + "/tools/mutation_summary.md").read() if os.path.exists(V + "/tools/mutation_summary.md") else ""
out.append("\n" + open(V + "/tools/design.tail.md").read().replace("FINDINGS\n", find + "\n").replace("MUTATION\n", mut))
open(V + "/DESIGN.md", "w").write("\n".join(out))
