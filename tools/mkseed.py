#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE NEEDS BREAKS < "OLD\n====\nNEW[\n####\nFILE2\n====...]": writes seeded/ID/patch.diff and meta.json from text replacements"""
import sys, os, json, subprocess, shutil, tempfile
sid, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix="seed-")
subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
for blk in sys.stdin.read().split("\n####\n"):
    f, old, new = blk.split("\n====\n")
    f = f.strip()
    p = os.path.join(t, "r", f)
    s = open(p).read()
    new = new.rstrip("\n"); old = old.rstrip("\n")
    assert s.count(old) == 1, (f, old, s.count(old))
    # only lines of the original repository
    base = subprocess.run(["git", "-C", "/repo", "show", "9675e69:" + f], capture_output=True, text=True).stdout.splitlines()
    for l in old.splitlines():
        if l not in base: print("NOTE not an original line:", l)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", t + "/r", "diff"], capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
shutil.rmtree(t)
if not os.path.exists(d + "/demo.sh"):
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the property holds on this input; run with cwd /repo after the build
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo-XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
L=$R/_build/src/.libs
g++ -std=c++17 -w -pthread -I"$R/include" -I"$R/src" "$D/demo.cpp" -o "$T/demo" -L"$L" -lfuxedo -Wl,-rpath,"$L" || exit 2
cd "$T" && timeout 100 ./demo
''')
