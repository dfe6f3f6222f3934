#!/usr/bin/env python3
"""which functions need a package, and which answers are only as close as a quadrature: -> vf/data/nodeps.json (with -w)"""
import sys, os, json, multiprocessing as mp
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = ["/repo", H]
from vf.specs import nodeps as N
from vf import corpus as co
def one(a):
    c = {"needs": {}, "gaps": {}}
    R = N.group(a[0], a[1], a[2], c); return c, R.violations
if __name__ == "__main__":
    names = sorted(co.corpus()); K = int(sys.argv[1]); needs = {}; gaps = {}
    with mp.Pool(4) as p:
        for c, v in p.imap_unordered(one, [(names[i::40], s, K) for i in range(40) for s in ("t%s" % K, "u%s" % K)]):
            for k, x in c["needs"].items(): needs.setdefault(k, set()).update(x)
            for k, x in c["gaps"].items(): gaps.setdefault(k, []).extend(x)
    for k in needs: print(k, sorted(needs[k]))
    for k in sorted(gaps): g = gaps[k]; print(k, len(g), max(g, key=lambda z: 9 if z[0] is None else z[0]))
    if "-w" in sys.argv:
        T = dict(N.TAB); T["needs"] = {k: sorted(set(v) | set(T["needs"].get(k, ()))) for k, v in needs.items()}
        json.dump(T, open(N.P, "w"), indent=0, sort_keys=True)
