#!/usr/bin/env python3
"""Validates planted bugs: mkseed.py SPEC.py... [--nocheck] [--only ID]
Each spec defines S = [dict(id, prop, edits=[(file, old, new)], demo=C source | sh=script, env={...}, needs, breaks)].
Writes /verif/seeded/<id>/ when the bug applies, builds, passes the stable tests and the demo tells it apart;
then runs the property's quick check on the buggy tree and says whether it was caught."""
import json, os, shutil, subprocess, sys
V = "/verif"; R = "/repo"
def sh(c, **k):
    r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k); return r.returncode, r.stdout
def clean(): sh("git -C /repo checkout -- .")
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])
def tests():
    sh("bash /opt/vp/test.sh /tmp/seed_t.json"); return sorted(BASE - set(json.load(open("/tmp/seed_t.json"))["passed"]))
only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
res = []
if sh("git -C /repo status --short")[1].strip(): sys.exit("repo not clean")
try:
  for spec in [a for a in sys.argv[1:] if a.endswith(".py")]:
    ns = {}; exec(open(spec).read(), ns)
    todo = []
    for s in ns["S"]:
        if only and s["id"] not in only.split(","): continue
        d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        e = " ".join("%s=%s" % kv for kv in s.get("env", {}).items())
        if "demo" in s:
            open(d + "/demo.c", "w").write('#include "h.h"\n' + s["demo"]); shutil.copy(V + "/tools/seed_h.h", d + "/h.h")
            open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it is broken
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -w -I"$PWD/src" -I"$PWD" "$H/demo.c" -o "$T/demo" -L"$PWD/_build" -loclgrind-rt -loclgrind -Wl,-rpath,"$PWD/_build" -lm -lpthread || exit 78
ln -s "$PWD/_build/liboclgrind-rt.so" "$T/libOpenCL.so"
export LD_LIBRARY_PATH="$T:$PWD/_build"
cd "$T" && OCLGRIND_PCH_DIR=/repo/_build/include/oclgrind %s timeout 120 ./demo
''' % e)
        else: open(d + "/demo.sh", "w").write(s["sh"])
        for fn, txt in s.get("files", {}).items(): open(d + "/" + fn, "w").write(txt)
        os.chmod(d + "/demo.sh", 0o755)
        todo.append((s, d))
    rc, o = sh("bash /opt/vp/build.sh")
    if rc: sys.exit("clean build fails")
    good = []
    for s, d in todo:
        rc, o = sh("bash %s/demo.sh" % d, cwd=R)
        if rc: print(s["id"], "DEMO FAILS ON CLEAN TREE", rc, o[-600:]); continue
        good.append((s, d))
    for s, d in good:
        clean(); ok = True
        for f, a, b in s["edits"]:
            t = open(R + "/" + f).read()
            if t.count(a) != 1: print(s["id"], "edit matches", t.count(a), "times:", a[:60]); ok = False; break
            open(R + "/" + f, "w").write(t.replace(a, b))
        if not ok: clean(); shutil.rmtree(d); continue
        rc, o = sh("bash /opt/vp/build.sh")
        if rc: print(s["id"], "DOES NOT BUILD", o[-1500:]); clean(); continue
        m = tests()
        if m: print(s["id"], "TESTS NOTICE:", m); clean(); shutil.rmtree(d); continue
        rc, o = sh("bash %s/demo.sh" % d, cwd=R)
        if rc == 0 or rc in (77, 78): print(s["id"], "DEMO DOES NOT NOTICE", rc, o[-500:]); clean(); continue
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff")[1])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        c = "not run"
        if "--nocheck" not in sys.argv and os.path.exists("%s/checks/%s.py" % (V, s["prop"].lower())):
            rc, o = sh("timeout 900 python3 %s/run.py %s" % (V, s["prop"]))
            c = "CAUGHT" if rc == 1 and "VIOLATION property=" + s["prop"] in o else "MISSED rc=%d %s" % (rc, o[-300:] if rc not in (0,) else "")
        print(s["id"], s["prop"], "valid; demo:", o.strip()[:0], "check:", c, flush=True)
        clean()
finally:
    clean(); sh("bash /opt/vp/build.sh")
