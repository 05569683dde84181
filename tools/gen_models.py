#!/usr/bin/env python3
"""Prints the tables of DESIGN.md: every model with what it enumerates and its bounds, and the planted bugs. gen_models.py > file"""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def clean(s): return " ".join(s.split()).replace("|", "\\|")
rows = []
for h in "text menu history editor net sched".split():
    out = subprocess.run([os.path.join(HERE, "check"), h, "quick", "--list"], stdout=subprocess.PIPE, text=True, check=True).stdout
    for l in out.splitlines():
        f = l.split("\t")
        if len(f) == 5: rows.append((f[0], f[1], clean(f[2]), ",".join(f[3].split()), ",".join(f[4].split())))
rows.sort(key=lambda r: r[0])
print("## The models and their bounds\n\nGenerated with `tools/gen_models.py`. The bounds are the values of the model's size parameter (what it is: in the text of the model); every listed value is explored completely.\n")
print("| property | model | what is enumerated | quick | thorough |\n|---|---|---|---|---|")
for r in rows: print("| %s | %s | %s | %s | %s |" % r)
print("\n%d models.\n" % len(rows))
print("## Planted bugs\n\nEach was confirmed in a scratch copy (compiles, stable tests pass, demo passes without and fails with it) and is caught by the quick check of its property (unless noted).\n")
print("| id | property | what breaks | needs |\n|---|---|---|---|")
d = os.path.join(HERE, "seeded")
for s in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, s, "meta.json")))
    print("| %s | %s | %s | %s |" % (s, m["property"], clean(m["what_it_breaks"]), clean(m["needs"])))
