#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (caught / missed is given in seeded.txt lines "id: result")."""
import json, os
V = "/verif/seeded"
print("| planted bug | property | needs |\n|---|---|---|")
for s in sorted(os.listdir(V)):
    m = json.load(open("%s/%s/meta.json" % (V, s)))
    print("| %s | %s | %s |" % (s, m["property"], m["needs"]))
