#!/usr/bin/env python3
"""design.py DIR: regenerate the table of explored spaces at the end of DESIGN.md from the evidence files in DIR."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["## Spaces explored by the quick checks", "",
       "Generated by tools/design.py from evidence files. *b*: completed delay bound (— : every choice sequence of an",
       "enumeration, no schedule involved; 0: default schedule, all data choices). Times are of this sandbox, 8 cores.", ""]
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    f = os.path.join(sys.argv[1], p["id"] + ".json")
    e = json.load(open(f))
    c = e["coverage"]
    out.append("### %s %s" % (p["id"], p["title"]))
    out.append("")
    out.append("%s states, %s transitions, %s executions on the real code, %.0f s." % (
        format(c["states"], ","), format(c["transitions"], ","), format(c["traces_validated_against_impl"], ","), e["wall_s"]))
    out.append("")
    out.append("| space | what is enumerated | b | executions | states |")
    out.append("|---|---|---|---|---|")
    for s in c.get("scenarios", []):
        b = s.get("bound_completed")
        out.append("| %s | %s | %s | %s | %s |" % (s["name"], s["what"].replace("|", "\\|"), "—" if b is None else b, s["executions"], s["states"]))
    out.append("")
path = os.path.join(root, "DESIGN.md")
t = open(path).read()
mark = "## Spaces explored by the quick checks"
if mark in t:
    t = t[:t.index(mark)]
open(path, "w").write(t.rstrip() + "\n\n" + "\n".join(out))
