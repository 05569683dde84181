#!/usr/bin/env python3
"""newseed.py SPEC...: makes seeded/<id>/ from a spec (edits of /repo files as old/new text, demo program, metadata)"""
import sys, os, json, re, subprocess, difflib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds on this demonstration
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
g++ -std=c++17 -g -O1 %s -I "$PWD/include" "$D/demo.cpp" -o "$T/demo" -lpthread || exit 3
cd "$T" && timeout 100 ./demo %s
rc=$?
cd / && rm -r -- "$T"
exit $rc
'''
for spec in sys.argv[1:]:
    text = open(spec).read()
    for block in re.split(r"^=== ", text, flags=re.M)[1:]:
        head, *parts = re.split(r"^--- (\w+)\n", block, flags=re.M)
        lines = head.strip().splitlines()
        sid = lines[0].strip()
        meta = dict(l.split(":", 1) for l in lines[1:] if l.strip())
        meta = {k.strip(): v.strip() for k, v in meta.items()}
        edits, demo, f, i = [], None, meta.get("file"), 0
        while i < len(parts):
            k, v = parts[i], parts[i + 1]
            if k == "file": f = v.strip()
            elif k == "old": old = v
            elif k == "new": edits.append((f, old, v))
            elif k == "demo": demo = v
            i += 2
        d = os.path.join(ROOT, "seeded", sid); os.makedirs(d, exist_ok=True)
        files = {}
        for f, old, new in edits:
            if f not in files: files[f] = open("/repo/" + f).read()
            if files[f].count(old) != 1: sys.exit("%s: old text occurs %d times in %s:\n%s" % (sid, files[f].count(old), f, old))
            files[f] = files[f].replace(old, new)
        patch = ""
        for f, t in files.items():
            patch += "diff --git a/%s b/%s\n" % (f, f)
            for l in difflib.unified_diff(open("/repo/" + f).read().splitlines(True), t.splitlines(True), "a/" + f, "b/" + f):
                patch += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
        open(d + "/patch.diff", "w").write(patch)
        if demo: open(d + "/demo.cpp", "w").write(demo)
        open(d + "/demo.sh", "w").write(DEMO_SH % (meta.get("flags", ""), meta.get("args", "")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", sid)
