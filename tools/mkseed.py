#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes /verif/seeded/<id>/ from a spec: id, prop, edits=[(file, old, new)], needs, breaks, demo (C++), flags."""
import sys, os, subprocess, json, tempfile, shutil, difflib
VER = os.path.abspath(os.path.join(os.path.dirname(__file__), '..')); REP = os.environ.get('HX_REPO', '/repo')
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    for s in g["SEEDS"]:
        d = f"{VER}/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
        byfile = {}
        for f, old, new in s["edits"]:
            t = byfile.get(f) or open(REP + "/" + f).read()
            assert t.count(old) == s.get("count", 1), (s["id"], f, t.count(old), old)
            byfile[f] = t.replace(old, new)
        patch = ""
        for f, t in byfile.items():
            a = open(REP + "/" + f).read()
            patch += "".join(x if x.endswith("\n") else x + "\n\\ No newline at end of file\n" for x in difflib.unified_diff(a.splitlines(True), t.splitlines(True), "a/" + f, "b/" + f))
        open(d + "/patch.diff", "w").write(patch)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        open(d + "/demo.cpp", "w").write(s["demo"])
        uring = "lib/liburing/liburing.cpp" if s.get("uring") else ""
        open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# cwd: the repository. Exit 0: behaves as specified.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
clang++-20 -std=c++20 -O1 -w {s.get("flags","")} -Iinclude -Ilib/liburing/include "$D/demo.cpp" {uring} -o "$T/demo" -lpthread {s.get("libs","")} || exit 1
R=$PWD; cd "$T" && timeout {s.get("timeout",60)} ./demo
''')
        print(s["id"])
