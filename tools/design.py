"""DESIGN.md from design/*.md, properties, known_findings.json and seeded/ (python3 tools/design.py)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from manifest import CHECKS
D = {}
f = os.path.join(H, "design", "props.md")
cur = None
if os.path.exists(f):
    for l in open(f):
        if l.startswith("## "): cur = l[3:].strip(); D[cur] = ""
        elif cur: D[cur] += l
props = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    t, n = CHECKS[i]
    have = os.path.exists(os.path.join(H, "checks", i + ".py"))
    props.append("### %s %s\n\n%s\n\n*Method:* %s. %s%s\n" % (i, p["title"], p["statement"], t, n, "" if have else " **Not built yet.**") + ("\n" + D[i].strip() + "\n" if i in D else ""))
k = json.load(open(os.path.join(H, "known_findings.json")))
fixed = "\n".join("* " + x[len("fixed: property="):] for x in k["fixed"])
known = "\n".join("* %s `%s`: %s" % (x["property"], x["key"], x["what"]) for x in k["findings"]) or "none"
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
cf = os.path.join(H, "design", "caught.json")
caught = json.load(open(cf)) if os.path.exists(cf) else {}
for s in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], caught.get(s, "")))
o = open(os.path.join(H, "design", "DESIGN.in.md")).read()
for a, b in (("PROPS", "\n".join(props)), ("FIXED", fixed), ("KNOWN", known), ("SEEDED", "\n".join(rows)), ("NOTES", open(os.path.join(H, "design", "notes.md")).read())):
    o = o.replace("@@%s@@" % a, b)
open(os.path.join(H, "DESIGN.md"), "w").write(o)
