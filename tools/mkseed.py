"""helper: seed(id, prop, [(file, old, new)...], demo_cpp, needs, breaks) writes seeded/<id>/"""
import os, subprocess, json, tempfile, shutil
def seed(id, prop, edits, demo, needs, breaks, flags="-std=gnu++11 -O0 -g -fno-access-control", libs="-pthread"):
    d = "/verif/seeded/" + id; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm x" % (w, w), shell=True, check=True)
        for f, o, n in edits:
            p = os.path.join(w, f); s = open(p).read()
            assert s.count(o) == 1, (id, f, s.count(o), o)
            open(p, "w").write(s.replace(o, n))
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout)
    finally: shutil.rmtree(w)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds demo.cpp against the tree in the current directory; exits 0 when the property's example behaves
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d)
g++ %s -I"$PWD/include" -DCRAB_COMPILE=0 "$D/demo.cpp" -o "$T/demo" %s || { rm -rf "$T"; exit 3; }
timeout 120 "$T/demo"; rc=$?
rm -rf "$T"; exit $rc
''' % (flags, libs))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
