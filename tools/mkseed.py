#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE OLD NEW DEMO.cpp NEEDS BREAKS [ASAN]: writes seeded/ID (patch against /repo's HEAD, made in a scratch copy of the file)"""
import sys, os, json, difflib
i, prop, f, old, new, demo, needs, breaks = sys.argv[1:9]
flags = sys.argv[9] if len(sys.argv) > 9 else ""
d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
edits = list(zip(f.split("@@"), old.split("@@"), new.split("@@")))
files = {}
for ff, o, n in edits:
    s = files.get(ff) or open("/repo/" + ff).read()
    assert s.count(o) == 1, (ff, o, s.count(o))
    files[ff] = s.replace(o, n)
p = ""
for ff, s in files.items():
    p += f"diff --git a/{ff} b/{ff}\n" + "".join(difflib.unified_diff(open("/repo/" + ff).read().splitlines(True), s.splitlines(True), "a/" + ff, "b/" + ff))
open(d + "/patch.diff", "w").write(p)
open(d + "/demo.cpp", "w").write(open(demo).read())
open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# run in /repo after the build: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) && trap 'rm -r -f -- "$tmp"' EXIT
g++ -std=c++17 -O1 {flags} -DNDEBUG -DXTYPES_EXCEPTIONS -Iinclude "$here/demo.cpp" -o "$tmp/demo" || exit 3
cd "$tmp" && ASAN_OPTIONS=detect_leaks=1 timeout 120 ./demo
""")
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
