#!/usr/bin/env python3
"""Development helper: creates /verif/seeded/<id>/ from an edit of /repo and confirms it.
usage: plant.py SPEC.py   where SPEC.py defines BUGS = [dict(id, prop, file, edits=[(old,new)], demo=C++ source of main body
file (demo.cpp), needs, breaks, flags?)].  Confirms: patch applies, builds, stable tests pass, demo 0 / nonzero, and reports
whether the property's check catches it.  Options: --nocheck, --only id"""
import json, os, shutil, subprocess, sys, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("b", sys.argv[1]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
only = [a[7:] for a in sys.argv if a.startswith("--only=")]
S = "/tmp/plant"; R = S + "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
shutil.rmtree(S, ignore_errors=True); os.makedirs(S)
base = json.load(open("/opt/vp/BASELINE.json"))
for b in mod.BUGS:
    if only and b["id"] not in only: continue
    shutil.rmtree(R, ignore_errors=True); sh("cp -a /repo " + R)
    d = os.path.join(V, "seeded", b["id"])
    bad = False
    for e in b["edits"]:
        f, old, new = e if len(e) == 3 else (b["file"], *e)
        p = os.path.join(R, f); t = open(p).read()
        if t.count(old) != 1: print(b["id"], "EDIT matches", t.count(old), "times in", f); bad = True; break
        open(p, "w").write(t.replace(old, new))
    if bad: continue
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
    open(d + "/demo.cpp", "w").write(b["demo"])
    for n, s in b.get("files", {}).items(): open(os.path.join(d, n), "w").write(s)
    for x in b.get("copy", []):
        src = os.path.join(V, x); (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, os.path.join(d, os.path.basename(x)))
    inc = "-I\"$D\"/shim " if any(os.path.basename(x) == "shim" for x in b.get("copy", [])) else ""
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd = the repository; exit 0 iff the behaviour is right
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -r "$T"' EXIT
g++ -std=c++20 -O%s -w %s %s-DFMT_DEPRECATED_IMPLICIT_ENUMS -Iinclude -Ivendors/combinations -Ivendors/undirected_graph/source -Ivendors/graph-coloring/Header "$D/demo.cpp" -o "$T/demo" -lfmt -ltbb -lpthread %s || exit 3
cd "$T" && timeout 120 ./demo
""" % (b.get("opt", "1"), b.get("flags", ""), inc, b.get("libs", "")))
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % d, cwd="/repo"); r1 = sh("bash %s/demo.sh" % d, cwd=R)
    # build and test the scratch copy by pointing the cmake project at it
    bl = sh("rm -rf {R}/_build; cp -a /opt/vp/cmake {S}/cm; sed -i 's#/repo#{R}#g' $(grep -rl /repo {S}/cm); cmake -S {S}/cm -B {R}/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug >/dev/null && ninja -C {R}/_build".format(R=R, S=S))
    ts = sh("cd %s/_build && ctest 2>&1 | tail -5" % R)
    shutil.rmtree(S + "/cm", ignore_errors=True)
    tests = sh("for t in $(find %s/_build -maxdepth 3 -type f -executable -not -name '*.so' -not -path '*/CMakeFiles/*'); do $t >/dev/null 2>&1 || echo FAIL $t; done" % R).stdout
    msg = "demo %d/%d build %d tests [%s]" % (r0.returncode, r1.returncode, bl.returncode, tests.strip() or "ok")
    if r0.returncode != 0 or r1.returncode == 0 or bl.returncode != 0 or tests.strip():
        shutil.rmtree(d, ignore_errors=True); print("BAD ", b["id"], msg, r0.stdout[-800:], r0.stderr[-1500:] if r0.returncode else "", r1.stdout[-300:], bl.stdout[-500:] if bl.returncode else ""); continue
    c = None
    if "--nocheck" not in sys.argv:
        env = dict(os.environ, VP_REPO=R, VERIF_SEED="1", VERIF_TIER="quick")
        c = sh("python3 %s/bin/check.py %s" % (V, b["prop"]), env=env)
        print("%s %s %s check=%d %s" % ("CAUGHT" if c.returncode == 1 else "MISSED", b["id"], msg, c.returncode, "" if c.returncode == 1 else c.stdout[-600:]))
    else: print("ok  ", b["id"], msg)
shutil.rmtree(S, ignore_errors=True)
