#!/usr/bin/env python3
"""Writes DESIGN.md from properties.jsonl, checks.py, notes.py, the facets' rules, known_findings.json, tools/design_*.md, tools/catches.json."""
import json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
from notes import NOTES
facets = {}
for f in glob.glob(V + "/props/*.cpp"):
    for m in re.finditer(r'PBT_FACET\((\w+), *\d+,\s*"((?:[^"\\]|\\.)*)"', open(f).read()):
        facets.setdefault(os.path.basename(f)[:-4], []).append((m.group(1), m.group(2)))
o = [open(V + "/tools/design_head.md").read()]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    o.append("### %s %s\n\n" % (i, p["title"]))
    if i in checks.NOT_APPLICABLE: o.append("Not applicable: %s\n\n" % checks.NOT_APPLICABLE[i]); continue
    c = checks.CHECKS[i]; n = NOTES[i]
    o.append("- *Technique:* %s.\n- *Oracle:* %s.\n- *Bounds:* %s.\n- *Beyond the tests:* %s.\n" % (c["technique"], n[0], n[1], n[2]))
    for h, fs, _ in c["parts"]:
        src = os.path.basename([s if isinstance(s, str) else s[0] for s in checks.HARNESS[h]["src"]][0])[:-4]
        for name, rule in facets.get(src, []):
            if not fs or name in fs: o.append("- *Facet* `%s/%s`: %s.\n" % (h, name, rule))
    o.append("\n")
o.append(open(V + "/tools/design_tail.md").read())
k = json.load(open(V + "/known_findings.json"))
o.append("## Genuine defects found\n\nAll were repaired by \"fix:\" commits in /repo (known_findings.json); open findings: %d.\n\n" % len(k["findings"]))
for x in k["findings"]: o.append("- KNOWN: %s\n" % json.dumps(x))
for x in k["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", x)
    o.append("- %s (%s): %s\n" % m.groups())
o.append("\n## Planted bugs\n\n| id | property | needs | caught by |\n|---|---|---|---|\n")
cat = json.load(open(V + "/tools/catches.json")) if os.path.exists(V + "/tools/catches.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    o.append("| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/"), cat.get(i, "?")))
if os.path.exists(V + "/tools/design_mut.md"): o.append("\n" + open(V + "/tools/design_mut.md").read())
open(V + "/DESIGN.md", "w").write("".join(o))
