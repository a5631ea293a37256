#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + tables generated from the rules, the findings and the seeded bugs"""
import json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from analyzer import check, props_kzg, props_fri, props_plonk, props_nova, props_misc  # noqa: E402,F401
out = [open(R + "/tools/design_head.md").read().rstrip(), "", "| planted bug | property = reporting check | needs | breaks |", "|---|---|---|---|"]
cell = lambda s: s.replace("|", "\\|").strip()
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(R + "/seeded/%s/meta.json" % d))
    out.append("| %s | %s | %s | %s |" % (d, m["property"], cell(m["needs"]), cell(m["what_it_breaks"])))
out += ["", "## 6. Findings (generated)", "", "| property | status | commit | what |", "|---|---|---|---|"]
for f in json.load(open(R + "/known_findings.json"))["findings"]:
    w = re.sub(r"^fixed: property=\w+ \w+ ", "", f["what"])
    out.append("| %s | %s | %s | %s |" % (f["property"], f["status"], f.get("commit", ""), cell(w)))
out += ["", "## 7. Rules per property (generated)", "", "What each check decides, for all inputs unless a shape is named; the prescribed terms are written in `analyzer/props_*.py`.", ""]
for l in open(R + "/properties.jsonl"):
    p = json.loads(l)
    out.append("* **%s** %s. *Rule:* %s." % (p["id"], p["title"], check.RULES[p["id"]].replace("*", "\\*").rstrip(".")))
out += ["", "## 8. Not applicable", "", "None."]
open(R + "/DESIGN.md", "w").write("\n".join(out) + "\n")
