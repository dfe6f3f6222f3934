#!/usr/bin/env python3
"""dev helper: plant.py BATCH.py [ids...]  -- BATCH.py defines P = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].
Writes /verif/seeded/<id>/, validates the demo on both trees, runs the property's quick check against the patched copy.
plant.py --tests ids...  -- runs the stable test suite on patched copies."""
import json, os, subprocess, sys, shutil, runpy, xml.etree.ElementTree as ET
V = "/verif"
PY = "/opt/venv/bin/python"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def copy(d):
    if os.path.exists(d): shutil.rmtree(d)
    assert sh("git -C /repo worktree list").returncode == 0
    r = sh("mkdir -p %s && git -C /repo archive HEAD | tar x -C %s" % (d, d)); assert r.returncode == 0, r.stderr
def demo(i, d):
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1")
    return sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=d, env=env, timeout=300)
def main():
    a = sys.argv[1:]
    if a[0] == "--tests":
        for i in a[1:]: tests(i)
        return
    P = runpy.run_path(a[0])["P"]
    for p in P:
        i = p["id"]
        if a[1:] and i not in a[1:]: continue
        d, c = "/tmp/plants/" + i, "/tmp/plants/clean"
        copy(d); copy(c)
        for f, old, new in p["edits"]:
            t = open(d + "/" + f).read()
            assert t.count(old) == 1, (i, f, t.count(old), old)
            open(d + "/" + f, "w").write(t.replace(old, new))
        s = V + "/seeded/" + i; os.makedirs(s, exist_ok=True)
        r = sh("git diff --no-index --no-color clean %s" % i, cwd="/tmp/plants")
        t = r.stdout.replace("a/clean/", "a/").replace("b/%s/" % i, "b/")
        open(s + "/patch.diff", "w").write(t)
        open(s + "/demo.py", "w").write(p["demo"].lstrip("\n"))
        open(s + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo; exit 0 iff the behaviour is right\nexport PYTHONDONTWRITEBYTECODE=1 NUMBA_FUNCTION_CACHE_SIZE=0\nPYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}" exec /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/demo.py"\n')
        json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(s + "/meta.json", "w"), indent=1)
        assert sh("git -C /repo apply --check %s/patch.diff" % s).returncode == 0, i
        r0, r1 = demo(i, c), demo(i, d)
        ck = sh("cd %s && VF_REPO=%s ./check %s --tier quick" % (V, d, p["prop"]))
        print("%s %s demo clean %d patched %d (%s) check %d %s" % (i, p["prop"], r0.returncode, r1.returncode, (r1.stdout + r1.stderr).strip().split("\n")[-1][:150], ck.returncode, "CAUGHT" if "VIOLATION property=" + p["prop"] in ck.stdout else "MISSED"), flush=True)
        cf = V + "/tools/caught.json"; cd = json.load(open(cf)) if os.path.exists(cf) else {}
        cd[i] = p["prop"] if "VIOLATION property=" + p["prop"] in ck.stdout else "missed"; json.dump(cd, open(cf, "w"), indent=1, sort_keys=True)
        if r0.returncode: print("   CLEAN FAILS", (r0.stdout + r0.stderr)[-400:])
        shutil.rmtree(d); shutil.rmtree(c)
def tests(i):
    d = "/tmp/plants/t_" + i
    copy(d)
    r = sh("git apply --unsafe-paths --directory=%s %s/seeded/%s/patch.diff" % (d, V, i), cwd="/")
    if r.returncode:
        r = sh("patch -p1 -s < %s/seeded/%s/patch.diff" % (V, i), cwd=d); assert r.returncode == 0, r.stdout + r.stderr
    W = "/tmp/plants/w_" + i; shutil.rmtree(W, ignore_errors=True); os.makedirs(W + "/home")
    env = dict(PATH="/usr/local/bin:/usr/bin:/bin", LANG="C.UTF-8", TZ="UTC", HOME=W + "/home", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", NUMBA_FUNCTION_CACHE_SIZE="0", PYTHONPYCACHEPREFIX=W + "/pyc", PYTHONPATH=d)
    r = sh('%s -m pytest . -q -n 8 -p no:cacheprovider --timeout=300 --continue-on-collection-errors -m "not online and not thermo" --basetemp=%s/pytest' % (PY, W), cwd=d, env=env)
    last = [l for l in r.stdout.strip().split("\n") if "passed" in l or "failed" in l][-1:]
    bad = [l for l in r.stdout.split("\n") if l.startswith(("FAILED", "ERROR"))]
    print(i, "TESTS", last, bad[:4], flush=True)
    shutil.rmtree(d); shutil.rmtree(W)
main()
