#!/usr/bin/env python3
"""DESIGN.md from tools/design_head.md, the properties, the registry and the planted bugs."""
import os, sys, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); os.chdir(V)
from checks.registry import CHECKS
from tools.design_notes import NOTES, CAUGHT_ALSO
props = {}
for l in open("properties.jsonl"):
    d = json.loads(l); props[d["id"]] = d
na = {x["property"] if "property" in x else x.get("id"): x for x in json.load(open("MANIFEST.json"))["not_applicable"]}
out = [open("tools/design_head.md").read().rstrip(), "", "## Property by property", ""]
for i, d in sorted(props.items()):
    if i in CHECKS:
        out += ["**%s — %s.**" % (i, d["title"]), "Decided by: %s. %s" % (CHECKS[i][0], NOTES.get(i, "")), ""]
out += ["## Where static analysis does not apply", ""]
for i, d in sorted(props.items()):
    if i not in CHECKS: out += ["- **%s — %s.** %s" % (i, d["title"], na.get(i, {}).get("reason", ""))]
out += ["", "## Planted bugs and the checks that catch them", "",
  "Each was confirmed by `tools/mkseed.py`: it builds, the 116 stable tests pass, its demonstration passes on the unchanged tree and fails with it.", "",
  "| planted bug | property | caught by | what it breaks | needs |", "|---|---|---|---|---|"]
for m in sorted(glob.glob("seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    d = json.load(open(m)); n = m.split("/")[1]
    also = CAUGHT_ALSO.get(n, "")
    out.append("| %s | %s | %s%s | %s | %s |" % (n, d["property"], d["property"], also and ", " + also, d["what_it_breaks"], d["needs"]))
out += ["", open("tools/design_tail.md").read().rstrip(), ""]
open("DESIGN.md", "w").write("\n".join(out))
