#!/usr/bin/env python3
"""Mine (function, argument, output) rows in which the response has one direction on every sampled ordered
pair, so that they can be reviewed by hand (exclusions below) and registered in vf/data/mono.json for P43.
usage: SEED=.. mono_table.py [-w] [-m] [N]"""
import sys, os, json, random, math, signal, multiprocessing as mp, warnings, time
warnings.simplefilter("ignore")
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VF_REPO", "/repo")); sys.path.insert(0, H)
from vf import corpus
from vf.specs import monotone as M

N = next((int(a) for a in sys.argv[1:] if a.isdigit()), 3000)
SEED = os.environ.get("SEED", "m")
def one(name):
    f = M.get(name); out = {}
    if f is None: return name, out
    r = random.Random(name + SEED)
    base, _, sh = name.partition("#")
    keys = sorted({k for e in (M.shapes(base)[sh] if sh else corpus.entries(base)) for k, v in e.items() if isinstance(corpus.dec(v), float)})
    def h(*a): raise TimeoutError
    signal.signal(signal.SIGALRM, h)
    for k in keys:
        st = {}; t0 = time.time(); bad = 0
        for i in range(N):
            if time.time() - t0 > 25: break
            p = M.pair(r, name, k)
            if p is None: continue
            try:
                signal.alarm(20); x = f(**p[0]); y = f(**p[1]); signal.alarm(0)
            except Exception: signal.alarm(0); bad += 1; continue
            X, Y = M.flat(x), M.flat(y)
            if not X or len(X) != len(Y): bad += 1; continue
            for j, (u, v) in enumerate(zip(X, Y)):
                s = st.setdefault((len(X), j), [0]*7)
                if not (math.isfinite(u) and math.isfinite(v)): s[6] += 1; continue
                t = M.TOL*max(abs(u), abs(v))
                s[0 if v > u + t else 1 if v < u - t else 2] += 1
                s[3 if u > 0 else 4 if u < 0 else 5] += 1
        for (n, j), s in st.items(): out.setdefault(k, {})["%d/%d" % (n, j)] = s + [bad]
    return name, out

def names():
    for n in sorted(corpus.corpus()):
        if M.excluded(n): continue
        yield n
        S = M.shapes(n)
        if 1 < len(S) <= 40:
            for q in sorted(S): yield n + "#" + q
def rows(R):
    T = {}
    for n, o in R.items():
        if M.excluded(n): continue
        for k, q in o.items():
            for c, (u, d, e, p, m, z, nf, bad) in q.items():
                tot = u + d + e
                if tot < 60: continue
                dr = 1 if d == 0 and u > .05*tot and u >= 40 else -1 if u == 0 and d > .05*tot and d >= 40 else 0
                sg = 0 if nf else (2 if p == tot else -2 if m == tot else 1 if m == 0 else -1 if p == 0 else 0)
                if M.excluded(n, k, c): dr = 0
                if dr or sg: T.setdefault(n, {}).setdefault(k, {})[c] = [dr, sg, int(not bad)]
    for n in [n for n in T if "#" in n]:           # what holds for every shape need not be repeated
        base = T.get(n.partition("#")[0], {})
        for k in list(T[n]):
            for c in list(T[n][k]):
                if T[n][k][c][0] == 0 or base.get(k, {}).get(c, [0])[0]: del T[n][k][c]
            if not T[n][k]: del T[n][k]
        if not T[n]: del T[n]
    return T
if __name__ == "__main__":
    R = {}
    with mp.Pool(8) as p:
        for n, o in p.imap_unordered(one, names()): R[n] = o
    T = rows(R)
    prev = os.path.join(H, "vf/data/mono.json")
    if "-m" in sys.argv:                    # keep only what an earlier run with another SEED also found
        P = json.load(open(prev)); Q = {}
        for n in T:
            for k in T[n]:
                for c, (d, g, w) in T[n][k].items():
                    o = P.get(n, {}).get(k, {}).get(c)
                    if not o: continue
                    d = d if d == o[0] else 0; a, b = sorted((g, o[1]), key=abs)
                    g = a if a*b > 0 else 0
                    if d or g: Q.setdefault(n, {}).setdefault(k, {})[c] = [d, g, w & o[2]]
        T = Q
    print(len(T), sum(len(q) for o in T.values() for q in o.values()), sum(1 for o in T.values() for q in o.values() for v in q.values() if v[0]))
    if "-w" in sys.argv:
        json.dump(T, open(os.path.join(H, "vf/data/mono.json"), "w"), sort_keys=True, separators=(",", ":"))
