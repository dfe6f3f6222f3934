#!/usr/bin/env python3
"""Quick trial of possible bugs: probe.py FILE.py [ids]; FILE defines P = [(id, prop, file, old, new), ...]; prints which the quick check catches. Tests with --tests"""
import sys, os, subprocess, shutil, multiprocessing as mp, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "--tests" in sys.argv; A = [a for a in sys.argv[1:] if not a.startswith("--")]
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
def work(p):
    i, props, f, old, new = p; d = "/tmp/probe/" + i
    shutil.rmtree(d, ignore_errors=True); shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "__pycache__", "docs", "asv*"))
    try:
        s = open(d + "/" + f).read()
        if s.count(old) != 1: return "%s BAD: occurs %d times" % (i, s.count(old))
        open(d + "/" + f, "w").write(s.replace(old, new)); out = i
        if T:
            m = os.path.basename(f)[:-3]; tt = "tests/test_%s.py" % m
            r = sh("cd %s && timeout 300 /opt/venv/bin/python -B -m pytest -x -q -p no:cacheprovider --doctest-modules %s %s" % (d, f, tt if os.path.exists("/repo/" + tt) else ""))
            out += " tests:%s" % ("ok" if r.returncode == 0 else "FAIL")
        for q in props.split(","):
            r = sh("cd %s && mkdir -p %s.ev && VF_EVIDENCE=%s.ev VF_REPO=%s ./check %s --tier quick" % (V, d, d, d, q))
            v = [l for l in r.stdout.split("\n") if l.startswith("  case")]
            out += " %s:%s" % (q, "caught" if "VIOLATION property=" + q in r.stdout else "MISSED rc%d" % r.returncode) + (" [%s]" % v[0][:150] if v else "")
        return out
    finally: shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d + ".ev", ignore_errors=True)
if __name__ == "__main__":
    P = [p for p in runpy.run_path(A[0])["P"] if len(A) < 2 or p[0] in A[1:]]
    os.makedirs("/tmp/probe", exist_ok=True)
    with mp.Pool(3) as pool:
        for x in pool.imap_unordered(work, P): print(x, flush=True)
