#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE NEEDS BREAKS  < "old\\n=====\\nnew"   (writes seeded/ID/{patch.diff,meta.json}; demo.cpp separately)
Several replacements: separate with a line of '#####', each may start with '@@ file'."""
import sys, os, subprocess, shutil, json
sid, prop, f, needs, breaks = sys.argv[1:6]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = V + "/seeded/" + sid
os.makedirs(D, exist_ok=True)
W = "/tmp/pl/mk"
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
os.makedirs("/tmp/pl", exist_ok=True)
subprocess.check_call("mkdir -p %s && git -C /repo archive HEAD include | tar xf - -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (W, W, W), shell=True)
for part in sys.stdin.read().split("\n#####\n"):
    ff = f
    if part.startswith("@@ "):
        ff, part = part[3:].split("\n", 1)
    old, new = part.split("\n=====\n")
    old, new = old.strip("\n"), new.strip("\n")
    p = W + "/include/boost/polygon/" + ff
    s = open(p).read()
    n = s.count(old)
    if n != 1:
        sys.exit("%s: old text found %d times" % (ff, n))
    open(p, "w").write(s.replace(old, new))
d = subprocess.check_output(["git", "-C", W, "diff"], text=True)
open(D + "/patch.diff", "w").write(d)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(D + "/meta.json", "w"), indent=1)
if not os.path.exists(D + "/demo.sh"):
    open(D + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 when the library behaves, nonzero when the planted defect shows
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
g++ -std=c++17 -O1 -w -I"$PWD/include" "$here/demo.cpp" -o "$out/demo" || exit 2
timeout 60 "$out/demo"
''')
print(d[-800:])
