#!/usr/bin/env python3
"""Record real calls of the public functions while the workloads of the value checks run: vf/data/corpus.json.
Run once, by hand (the cross-cutting checks read the committed file and vary its entries by seed)."""
import sys, os, json, random, types, importlib, glob, multiprocessing as mp, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, "/repo"); sys.dont_write_bytecode = True
import warnings; warnings.filterwarnings("ignore")
import fluids, fluids.numerics, fluids.vectorized, fluids.optional.irradiance
import numpy as np
MAXP, MAXK = 10, 14      # entries per pattern, patterns per function
mods = [m for m in (importlib.import_module("fluids." + n) for n in fluids.all_submodules_names)] if hasattr(fluids, "all_submodules_names") else [m for k, m in sorted(sys.modules.items()) if k.startswith("fluids.") and m and "vectorized" not in k and "numba" not in k]
PUB = {}; DEF = {}
for m in mods:
    for k, f in sorted(vars(m).items()):
        if isinstance(f, types.FunctionType) and f.__module__ == m.__name__ and not k.startswith("_") and f.__name__ == k:
            PUB[f.__code__] = (m.__name__[7:] + "." + k, f)
        elif isinstance(f, type) and f.__module__ == m.__name__ and not k.startswith("_"):
            i = f.__dict__.get("__init__")
            if isinstance(i, types.FunctionType): PUB[i.__code__] = (m.__name__[7:] + "." + k, i)
import inspect
for c, (n, f) in PUB.items():
    s = inspect.signature(f); DEF[n] = {k: p.default for k, p in s.parameters.items() if p.default is not p.empty}
def enc(v, d=0):
    if v is None or isinstance(v, (bool, str)): return v
    if isinstance(v, (int, np.integer)): return int(v) if abs(int(v)) < 2**63 else enc.bad
    if isinstance(v, (float, np.floating)):
        return float("%.11g" % v) if v == v and abs(v) != float("inf") else {"f": repr(float(v))}
    if isinstance(v, complex): return {"c": [v.real, v.imag]}
    if d > 3: return enc.bad
    if isinstance(v, np.ndarray):
        if v.dtype.kind not in "fi" or v.size > 150: return enc.bad
        return {"a": v.tolist(), "k": v.dtype.kind}
    if isinstance(v, (list, tuple)):
        if len(v) > 150: return enc.bad
        o = [enc(i, d + 1) for i in v]
        return enc.bad if any(i is enc.bad for i in o) else o if isinstance(v, list) else {"t": o}
    if isinstance(v, dict) and all(isinstance(k, str) for k in v):
        o = {k: enc(i, d + 1) for k, i in v.items()}
        return enc.bad if any(i is enc.bad for i in o.values()) else {"d": o}
    return enc.bad
enc.bad = object()
def pat(a):
    o = []
    for k, v in sorted(a.items()):
        o.append(k + ("=" + str(v) if isinstance(v, (str, bool)) or v is None else ":" + type(v).__name__))
    return ";".join(o)
def work(chk):
    out = {}; rng = random.Random(chk); seen = {}
    busy = [0]
    def prof(fr, ev, arg):
        if ev != "call" or busy[0]: return
        q = PUB.get(fr.f_code)
        if q is None: return
        n = q[0]; c = seen[n] = seen.get(n, 0) + 1
        if c > 400 and rng.random() > .1 or c > 40000: return
        busy[0] = 1
        try:
            co = fr.f_code; loc = fr.f_locals
            if co.co_flags & 12: return     # *args, **kwargs
            a = {}
            for k in co.co_varnames[:co.co_argcount + co.co_kwonlyargcount]:
                if k == "self": continue
                v = enc(loc[k])
                if v is enc.bad: return
                if k in DEF[n]:
                    try:
                        if DEF[n][k] is loc[k] or (type(DEF[n][k]) is type(loc[k]) and DEF[n][k] == loc[k]): continue
                    except Exception: pass
                a[k] = v
            if n.startswith("numerics") and len(json.dumps(a)) > 1200: return
            p = pat(a); D = out.setdefault(n, {})
            if p not in D and len(D) >= 60: return
            L = D.setdefault(p, [0, []]); L[0] += 1
            if len(L[1]) < MAXP: L[1].append(a)
            elif rng.random() < MAXP/L[0]: L[1][rng.randrange(MAXP)] = a
        finally: busy[0] = 0
    try:
        M = importlib.import_module("vf.checks." + chk)
        T = M.tasks("quick", 77)
        rng.shuffle(T)
        t0 = time.time(); import threading
        for t in T:
            if time.time() - t0 > 240: break
            a = list(t[2:])
            if isinstance(a[-1], int) and t[1].__name__ == "explore": a[-1] = min(a[-1], 120)
            sys.setprofile(prof)
            try: t[1](*a)
            except Exception as e: print(chk, t[0], repr(e)[:100])
            finally: sys.setprofile(None)
    except Exception as e: print(chk, repr(e)[:200])
    return chk, out
if __name__ == "__main__":
    from vf import instrument as ins
    names = sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../vf/checks/p*.py")))
    names = [n for n in names if n <= "p37"]
    A = {}
    with mp.Pool(8, maxtasksperchild=1) as pool:
        for chk, o in pool.imap_unordered(work, names, chunksize=1):
            print(chk, len(o), sum(len(p[1]) for d in o.values() for p in d.values()), flush=True)
            for n, D in o.items():
                B = A.setdefault(n, {})
                for p, (c, l) in D.items(): B.setdefault(p, []).extend(l)
    rng = random.Random(5); R = {}
    for n in sorted(A):
        ps = sorted(A[n]); rng.shuffle(ps); L = []
        for p in ps[:MAXK]:
            q = A[n][p]; rng.shuffle(q); L += q[:max(3, 40//min(len(ps), MAXK))]
        R[n] = L
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../vf/data/corpus.json")
    with open(p, "w") as f:
        f.write("{\n" + ",\n".join(json.dumps(n) + ": [\n" + ",\n".join(json.dumps(a, separators=(",", ":")) for a in L) + "]" for n, L in R.items()) + "\n}\n")
    print(len(R), "functions", sum(map(len, R.values())), "calls", os.path.getsize(p))
    print("missing", [n for c, (n, f) in PUB.items() if n not in R and not n.startswith("numerics")])
