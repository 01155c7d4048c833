#!/usr/bin/env python3
"""seed_table.py: the table of planted bugs for DESIGN.md, from seeded/*/meta.json and the results given in results.txt
lines "ID CHECKS" (checks that report it, separated by commas)."""
import glob, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = dict(l.split(None, 1) for l in open(sys.argv[1])) if len(sys.argv) > 1 else {}
print("| id | property | reported by | what it needs |\n|---|---|---|---|")
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    s = os.path.basename(os.path.dirname(m))
    j = json.load(open(m))
    print("| %s | %s | %s | %s |" % (s, j["property"], res.get(s, j["property"]).strip(), j["needs"].replace("|", "/")))
