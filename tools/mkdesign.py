#!/usr/bin/env python3
# refreshes the table of planted changes in DESIGN.md (seeded/*/meta.json, tools/caught.txt)
# and, with --bounds, BOUNDS.md from the evidence of the last runs
import json, os, re, sys, glob
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
c = {}
for l in open("tools/caught.txt"):
    if l.strip() and not l.startswith("#"):
        a = [x.strip() for x in l.split("|")]
        c[a[0]] = a[1:]
rows = ["| change | property | needs | caught by | remark |", "|---|---|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    k = c.get(d, ["?", ""])
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {k[0]} | {k[1]} |")
t = open("DESIGN.md").read()
s = "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->"
t = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: s, t, flags=re.S) if "<!-- bugs -->" in t else t.replace("@BUGS@", s)
open("DESIGN.md", "w").write(t)
if "--bounds" in sys.argv:
    o = ["# Bounds", "", "Generated by `tools/mkdesign.py --bounds` from the evidence of one full run of the quick tier.", "",
         "| property | scenario | depth bound | states | transitions | exhausted |", "|---|---|---|---|---|---|"]
    for f in sorted(glob.glob("evidence/*.json")):
        e = json.load(open(f))
        for x in e["coverage"]["scenarios"]:
            o.append(f"| {e.get('property') or e.get('property_id') or os.path.basename(f)[:-5]} | {x['name']} | {x['depth_bound']} | {x['states']} | {x['transitions']} | {'yes' if x['state_space_exhausted'] else 'no'} |")
    open("BOUNDS.md", "w").write("\n".join(o) + "\n")
