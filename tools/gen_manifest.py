#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness table of ./check and properties.jsonl"""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {"__name__": "x", "__file__": os.path.join(HERE, "check")}
exec(open(os.path.join(HERE, "check")).read(), ns)
claimed = {}
for n, h in ns["H"].items():
    for p in h["props"]: claimed.setdefault(p, n)   # the first harness that has the property
TECH = {
 "text": ("stateless model checking: exhaustive enumeration of bounded inputs through the real code, against a reference model",),
 "menu": ("stateless model checking: exhaustive enumeration of command trees and operation sequences on the real code, against a reference model",),
 "history": ("stateless model checking: exhaustive enumeration of operation sequences on the real code, against a reference model",),
 "editor": ("stateless model checking: exhaustive enumeration of key sequences through the real editor, against an ideal editor and a terminal model",),
 "net": ("stateless model checking: exhaustive enumeration of event sequences, deliveries and faults through the real sessions, against a reference model",),
 "sched": ("stateless model checking of the real threads under a controlled scheduler: every interleaving up to a preemption bound, with happens-before race detection",),
}
NOTE = "Every execution of the real code within the bounds listed in the evidence file was run and judged; nothing is sampled. Beyond the bounds (longer sequences, other alphabets) nothing is claimed. Trusted: the explorer, the reference model, g++ and its sanitizer."
NOTES = {
 "sched": "Every interleaving of the harness threads with at most the stated number of preemptions was run on the real code (scheduling points: every lock, condition, thread, atomic and system-call operation); plain accesses are covered by happens-before race detection. Sequentially consistent memory; the kernel is a model (descriptors, terminal modes, signals). Trusted: the scheduler, the OS model, the reference oracle.",
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        n = claimed[i]
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i, technique=TECH[n][0], level="model_checking", level_note=NOTES.get(n, NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="./check build-all", checks=checks, not_applicable=na,
    notes="./check builds the harness of a property from /repo's working tree (cached by content in build/) and runs its models. No hooks in /repo are needed. See DESIGN.md; known_findings.txt lists repaired defects and findings."),
    open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
