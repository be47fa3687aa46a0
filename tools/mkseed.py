#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: builds seeded/ID from a python description on stdin:
   edits = [(file, old, new), ...]; demo = C++ source; needs = "..."; breaks = "..."
Checks in a scratch copy: applies, builds, stable tests pass, demo passes without and fails with the change."""
import json, os, shutil, subprocess, sys
ID, PROP = sys.argv[1:3]
ns = {}
exec(sys.stdin.read(), ns)
d = "/verif/seeded/" + ID
os.makedirs(d, exist_ok=True)
w = "/tmp/seedwork/" + ID
shutil.rmtree(w, ignore_errors=True)
os.makedirs("/tmp/seedwork", exist_ok=True)
subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
os.makedirs(w)
subprocess.check_call("git -C /repo archive HEAD | tar x -C " + w, shell=True)
subprocess.check_call("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x" % w, shell=True)
open(d + "/demo.cpp", "w").write(ns["demo"])
open(d + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd /repo; exit 0 when the property holds
set -e
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++11 -w %s -I"$PWD/include" "$here/demo.cpp" -o "$tmp/demo"
cd "$tmp"
timeout 100 ./demo
""" % ns.get("flags", ""))
os.chmod(d + "/demo.sh", 0o755)
json.dump(dict(property=PROP, needs=ns["needs"], what_it_breaks=ns["breaks"]), open(d + "/meta.json", "w"), indent=1)
p = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
assert p.returncode == 0, ("demo fails on the unchanged tree", p.stdout, p.stderr)
for f, a, b in ns["edits"]:
    f = w + "/include/configor/" + f
    s = open(f).read()
    n = ns.get("nth", 0)
    assert s.count(a) >= 1, (f, s.count(a), a)
    if s.count(a) > 1:
        assert "nth" in ns, ("ambiguous", s.count(a), a)
        parts = s.split(a)
        s = a.join(parts[:n + 1]) + b + a.join(parts[n + 1:])
    else:
        s = s.replace(a, b)
    open(f, "w").write(s)
diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(diff)
p = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True)
assert p.returncode != 0, ("demo passes with the change", p.stdout, p.stderr)
print("demo:", (p.stdout + p.stderr).strip()[-300:])
if "--notest" not in sys.argv:
    cmd = "cmake -S . -B b -DCMAKE_BUILD_TYPE=Debug -DCONFIGOR_BUILD_TESTS=ON -G Ninja >/dev/null 2>&1; cmake --build b 2>&1 | tail -30"
    b = open("/opt/vp/build.sh").read()
    # build the changed tree the same way, in the scratch copy
    tests = [f for f in subprocess.run("find tests -name '*.cpp'", shell=True, cwd=w, capture_output=True, text=True).stdout.split()]
    os.makedirs(w + "/o", exist_ok=True)
    ps = [subprocess.Popen(["g++", "-std=c++11", "-Wall", "-Werror", "-O0", "-Iinclude", "-Itests/3rd-party", "-c", t, "-o", "o/%d.o" % i],
                           cwd=w, stderr=subprocess.PIPE, text=True) for i, t in enumerate(tests)]
    for x, t in zip(ps, tests):
        e = x.communicate()[1]
        assert x.returncode == 0, (t, e[-2000:])
    subprocess.check_call("g++ o/*.o -o t", shell=True, cwd=w)
    p = subprocess.run(["./t"], cwd=w, capture_output=True, text=True)
    assert p.returncode == 0, p.stdout[-3000:]
    print("tests:", p.stdout.strip().splitlines()[-1])
shutil.rmtree(w, ignore_errors=True)
