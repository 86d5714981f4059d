#!/usr/bin/env python3
# DESIGN.md = tools/design_head.md + one section per property (from properties.jsonl, checks.py, tools/design_notes.py) + defects and planted bugs
import json, os, sys
sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/tools")
from checks import CHECKS
from not_applicable import NA
from design_notes import HOW, CAUGHT
out = [open("/verif/tools/design_head.md").read().rstrip(), "", "## The properties, one by one", ""]
seeds = {}
for s in sorted(os.listdir("/verif/seeded")) if os.path.isdir("/verif/seeded") else []:
    m = json.load(open("/verif/seeded/%s/meta.json" % s)); seeds.setdefault(m["property"], []).append((s, m))
kf = json.load(open("/verif/known-findings.json"))
for l in open("/verif/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    out += ["### %s — %s" % (i, p["title"]), ""]
    if i not in CHECKS: out += ["Not applicable: " + NA[i] + ".", ""]; continue
    c = CHECKS[i]
    out += ["*Method and oracle.* " + HOW[i], "", "*Encoded from* " + ", ".join("`%s`" % f for f in p["anchors"]["files"]) + " (the functions actually executed are listed in the evidence).", "", "*Bounds.* " + c["bounds"] + ".", ""]
    if c.get("assumptions"): out += ["*Assumed.* " + "; ".join(c["assumptions"]) + ".", ""]
    fx = [f.split(" ", 3) for f in kf["fixed"] if f.startswith("fixed: property=%s " % i)]
    for f in fx: out += ["*Defect found and repaired* (`%s`): %s." % (f[2], f[3]), ""]
    for f in kf["findings"]:
        if f["property"] == i: out += ["*Known finding* (`%s`): %s." % (f["id"], f["what"]), ""]
    for s, m in seeds.get(i, []): out += ["*Planted bug* `%s` — needs %s; breaks: %s. %s" % (s, m["needs"], m["what_it_breaks"], CAUGHT.get(s, "Caught by %s." % i)), ""]
open("/verif/DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
