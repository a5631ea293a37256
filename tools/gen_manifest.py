#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered rules; NA holds the reasons for properties not claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(100000)
from analyzer import check, props_kzg, props_fri, props_plonk, props_nova, props_misc
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
NOTE = ("Decided from the type-checked source (THIR) of the current tree, nothing is executed. 'proved' obligations: the summary of the function on arbitrary "
        "arguments has the prescribed value number. 'agree' obligations: summary and prescription are equal under every random interpretation tried (a "
        "probabilistic equality test on terms, one-sided). 'undecided' obligations raise no alarm and are listed in the evidence. Trusted: the library "
        "models (ark-*, std, sha2, rand), field/group axioms, the extraction by rustc.")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./extract.sh", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in check.PROPS and i not in NA:
        m["checks"].append(dict(property=i, quick_cmd="./check.py %s quick" % i, thorough_cmd="./check.py %s thorough" % i,
                                technique="abstract interpretation to value-graph summaries; global value numbering, random interpretation and dependence rules",
                                level="other", level_note="Rule: " + check.RULES[i] + ". " + NOTE))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "not")
