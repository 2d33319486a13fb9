#!/usr/local/bin/python3-vt
"""Fills the generated tables of DESIGN.md (between <!--name--> and <!--/name--> marks)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/DESIGN.md").read()
def put(name, body):
    global t
    a, b = "<!--%s-->" % name, "<!--/%s-->" % name
    t = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: a + "\n" + body + "\n" + b, t, flags=re.S)
put("fixes", "\n".join("* %s `%s` – %s" % (d["property"], d["commit"],
    d["text"].split(d["commit"], 1)[1].strip())
    for d in map(json.loads, open(V + "/known_findings.jsonl"))))
caught = json.load(open(V + "/tools/caught.json"))
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s | %s |" % (i, d["property"], d["needs"], d["what_it_breaks"],
                                         caught.get(i, "?")))
put("seeds", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(t)
