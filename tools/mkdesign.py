#!/usr/bin/env python3
"""Write DESIGN.md from design/, properties.jsonl, checks.py, known_findings.json, evidence bounds recorded in design/bounds.json and seeded/."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
J = lambda f: json.load(open(os.path.join(V, f)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = J("design/notes.json"); kf = J("known_findings.json")["findings"]
bounds = J("design/bounds.json") if os.path.exists(os.path.join(V, "design/bounds.json")) else {}
if "--bounds" in sys.argv:
    for p in props:
        f = os.path.join(V, "evidence", p["id"] + ".json")
        if os.path.exists(f):
            e = json.load(open(f))
            if e["tier"] == "quick":
                c = e["coverage"]
                bounds[p["id"]] = {"bounds": c.get("bounds", []), "count": {k: c[k] for k in c if isinstance(c[k], (int, float)) and not isinstance(c[k], bool) and k != "build_s"}, "rule": c.get("rule", "")}
    json.dump(bounds, open(os.path.join(V, "design/bounds.json"), "w"), indent=1)
seeds = {}
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
caught = J("design/caught.json") if os.path.exists(os.path.join(V, "design/caught.json")) else {}
o = [open(os.path.join(V, "design/head.md")).read().rstrip(), "", "## 2. The properties", ""]
for p in props:
    i = p["id"]; n = notes.get(i, {}); o += ["### %s. %s" % (i, p["title"]), ""]
    if i not in CHECKS:
        o += ["Not claimed: " + NOT_APPLICABLE.get(i, "not built"), ""]; continue
    c = CHECKS[i]
    o += ["*Level*: %s. *Decided by*: %s." % (c["level"], c["technique"]), "", c["note"], ""]
    b = bounds.get(i)
    if b:
        o += ["*Bounds (quick; thorough in parentheses)*: " + "; ".join(b["bounds"]) + ".",
              "*Covered by the last recorded quick run*: " + ", ".join("%s %s" % (k.replace("_", " "), format(v, ",")) for k, v in b["count"].items() if v) + (" (distinct: %s)." % b["rule"] if b["rule"] else "."), ""]
    if "oracle" in n: o += ["*Oracle*: " + n["oracle"] + "."]
    if "domain" in n: o += ["*Domain*: " + n["domain"] + "."]
    if "reach" in n: o += ["*Beyond the tests*: " + n["reach"] + "."]
    a = p["anchors"]
    o += ["*Anchors*: " + ", ".join("`%s`" % x for x in a["files"]) + ". " + "; ".join("%s (`%s`)" % (x["name"], x["where"]) for x in a.get("mechanism", [])) + ".", ""]
    f = [k for k in kf if k["property"] == i]
    op = [k for k in f if k["status"] != "fixed"]; fx = [k for k in f if k["status"] == "fixed"]
    if op: o += ["*Known findings*:"] + ["- `%s`: %s" % (k["key"], k["what"]) for k in op] + [""]
    if fx: o += ["*Defects found and repaired*: %d (section 3)." % len(fx), ""]
    for s, m in seeds.get(i, []):
        o += ["*Planted bug* `%s`: %s Needs: %s Caught by: %s." % (s, m["what_it_breaks"].rstrip(".") + ".", m["needs"].rstrip(".") + ".", caught.get(s, "not recorded")), ""]
o += ["## 3. Defects of JASSv2 that the checks found", "", "Open ones are listed above; these were repaired, each by one `fix:` commit in /repo. A fixed entry suppresses nothing.", ""]
for k in kf:
    if k["status"] == "fixed": o += ["- %s %s %s" % (k["property"], k.get("commit", ""), k["what"])]
o += ["", "## 4. Planted bugs", "", "| bug | property | caught by |", "|---|---|---|"]
for i in sorted(seeds):
    for s, m in seeds[i]: o += ["| %s | %s | %s |" % (s, i, caught.get(s, "not recorded"))]
o += ["", open(os.path.join(V, "design/tail.md")).read().rstrip(), ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o))
