"""P41 histories, aliasing, module state and threads over the recorded calls"""
import copy, math, os, pickle, random, re, signal, sys, threading, time, types, traceback
from ..engine import Result, jsonable
from .. import corpus as co
import numpy as np
def canon(v, d=0):
    if d > 12: return "..."
    if v is None or isinstance(v, (bool, str, bytes, int)): return repr(v)
    if isinstance(v, float): return float(v).hex() if v == v else "nan"
    if isinstance(v, complex): return "c(%s,%s)" % (canon(v.real), canon(v.imag))
    if isinstance(v, np.generic): return "np:" + canon(v.item())
    if isinstance(v, np.ndarray): return "arr%s%s[%s]" % (v.dtype, v.shape, ",".join(canon(i, d+1) for i in v.ravel().tolist()))
    if isinstance(v, (list, tuple)): return "%s[%s]" % (type(v).__name__, ",".join(canon(i, d+1) for i in v))
    if isinstance(v, (set, frozenset)): return "set[%s]" % ",".join(sorted(canon(i, d+1) for i in v))
    if isinstance(v, dict): return "{%s}" % ",".join(sorted("%s:%s" % (canon(k, d+1), canon(i, d+1)) for k, i in v.items()))
    if callable(v) and hasattr(v, "__qualname__"): return "fn:" + v.__qualname__
    if type(v).__module__.startswith("fluids"):
        return "%s{%s}" % (type(v).__name__, ",".join(sorted("%s:%s" % (k, canon(i, d+1)) for k, i in state(v).items())))
    return re.sub(r"0x[0-9a-f]+", "", repr(v))[:300]
def state(o):
    s = {}
    for c in type(o).__mro__:
        for k in getattr(c, "__slots__", ()) if not isinstance(getattr(c, "__slots__", ()), str) else ():
            if hasattr(o, k): s[k] = getattr(o, k)
    s.update(getattr(o, "__dict__", {}))
    return {k: v for k, v in s.items() if not k.startswith("_")}
def clobber(v):
    """write over what a call returned: it belongs to the caller"""
    try:
        if isinstance(v, np.ndarray): v[...] = -7
        elif isinstance(v, list):
            for i in v: clobber(i)
            for i in range(len(v)): v[i] = -7
            v.append(-7)
        elif isinstance(v, dict):
            for i in v.values(): clobber(i)
            v.clear(); v["clobbered"] = 1
        elif isinstance(v, set): v.clear()
        elif isinstance(v, tuple):
            for i in v: clobber(i)
    except Exception: pass
def resolve(full):
    import importlib
    m, _, n = full.rpartition(".")
    return getattr(importlib.import_module("fluids." + m), n)
def ambient():
    """process-wide settings a calculation has no business changing"""
    import decimal, warnings
    m = sys.modules.get("mpmath")
    return {"mpmath precision": m.mp.prec if m else None, "numpy errstate": sorted(np.geterr().items()), "random state": hash(random.getstate()), "numpy random state": hash(np.random.get_state()[1].tobytes()),
        "recursion limit": sys.getrecursionlimit(), "decimal precision": decimal.getcontext().prec, "cwd": os.getcwd(), "warnings": len(warnings.filters), "environ": hash(tuple(sorted(os.environ.items())))}
def one(full, a):
    """one call: canonical outcome, the value, and what it did to its arguments"""
    f = resolve(full); before = canon(a)
    try: v = f(**a); out = "=" + canon(v)
    except Exception as e: v = None; out = "!%s: %s" % (type(e).__name__, re.sub(r"0x[0-9a-f]+", "", str(e))[:300])
    return out, v, None if canon(a) == before else "arguments changed from %s to %s" % (before[:150], canon(a)[:150])
def child(fn, *args):
    """run in a fork, so that every history starts from the same cold process"""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try: res = ("ok", fn(*args))
            except BaseException: res = ("err", traceback.format_exc())
            b = pickle.dumps(res)
            with os.fdopen(w, "wb") as f: f.write(b)
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f: b = f.read()
    st = os.waitpid(pid, 0)[1]
    if not b: return "died", "process died with status %d" % st
    return pickle.loads(b)
# named exceptions to the digest of module tables: the rows NRLMSISE-00 overwrites with the switch of each call before reading them
TABLES_SKIP = ("nrlmsise00",)
def tables():
    """the constant containers of every loaded module"""
    out = {}
    for n, m in list(sys.modules.items()):
        if not n.startswith("fluids") or any(t in n for t in TABLES_SKIP) or n.startswith(("fluids.numba", "fluids.units")): continue
        for k, v in list(vars(m).items()):
            if k.startswith("__"): continue
            if isinstance(v, (list, tuple, np.ndarray, set)): out[n, k] = canon(v)
            elif isinstance(v, dict) and len(v) < 3000: out[n, k] = {repr(i): canon(j) for i, j in v.items()}
    return out
def compare_tables(a, b):
    for k, v in a.items():
        w = b.get(k)
        if isinstance(v, dict) and isinstance(w, dict):
            for i in v:     # caches may grow, an entry may not change
                if w.get(i) != v[i]: return "table %s.%s entry %s changed or vanished" % (k + (i,))
        elif w != v and v not in ("list[]", "tuple[]"): return "module table %s.%s changed" % k
    return None
def plain(calls, order, digest):
    res = {}; bad = []
    amb = ambient(); t0 = tables() if digest else None
    for i in order:
        full, a = calls[i]
        out, v, m = one(full, copy.deepcopy(a)); res[i] = out
        if m: bad.append((i, m))
        n = ambient()
        if n["mpmath precision"] != amb["mpmath precision"] and amb["mpmath precision"] is None and n["mpmath precision"] == 53: amb = n
        if n != amb:
            bad.append((i, "changes process state: %s" % ", ".join("%s from %s to %s" % (k, amb[k], n[k]) for k in n if n[k] != amb[k] and not (k == "warnings"))))
            if bad[-1][1].endswith(": "): bad.pop()
            amb = n
    if digest:
        m = compare_tables(t0, tables())
        if m: bad.append((order[0], m + " during this history"))
    return res, bad
def abused(calls, order):
    """each call twice, the first result written over in between"""
    res = {}; bad = []
    for i in order:
        full, a = calls[i]
        b = copy.deepcopy(a)
        out, v, m = one(full, b)
        if not isinstance(v, types.FunctionType): clobber(v)
        if canon(b) != canon(a) and not m: pass      # the result was (part of) the argument itself
        o2, v, _ = one(full, copy.deepcopy(a))
        if o2 != out: bad.append((i, "repeated after its first result was written over: %s, first %s" % (o2[:150], out[:150])))
        res[i] = out
    return res, bad
SW = [0]
def threads(calls, seed, nt=6):
    r = random.Random(seed); bar = threading.Barrier(nt, timeout=120); res = [dict() for _ in range(nt)]; bad = []
    orders = [r.sample(range(len(calls)), len(calls)) for _ in range(nt)]; args = [[copy.deepcopy(a) for _, a in calls] for _ in range(nt)]
    first = r.sample(range(len(calls)), len(calls))
    sys.setswitchinterval(1e-6); rr = random.Random(seed)
    mon = sys.monitoring; T = 4
    try: mon.use_tool_id(T, "vf-yield")
    except ValueError: T = None
    def line(code, ln):
        if "/fluids/" not in code.co_filename: return mon.DISABLE
        if rr.random() < .02: SW[0] += 1; time.sleep(0)
    if T is not None:
        mon.register_callback(T, mon.events.LINE, line); mon.set_events(T, mon.events.LINE)
    def work(k):
        try:
            for i in first:           # all threads make the same call at the same moment, the first time in a cold process
                bar.wait()
                out, v, m = one(calls[i][0], args[k][i])
                res[k][i] = out
                if m: bad.append((i, "in threads: " + m))
            for i in orders[k]:
                out, v, m = one(calls[i][0], args[k][i])
                if out != res[k][i]: bad.append((i, "in threads: %s, then %s" % (res[k][i][:150], out[:150])))
        except Exception: bad.append((0, "thread failed: " + traceback.format_exc()[-300:]))
    ts = [threading.Thread(target=work, args=(k,)) for k in range(nt)]
    for t in ts: t.start()
    for t in ts: t.join()
    if T is not None: mon.set_events(T, 0)
    return res, bad, SW[0]
SKIPF = {"bounds_clip_naive", "trunc_exp_numpy", "trunc_log_numpy", "fpbspl", "inplace_LU"}    # documented to write into their arguments
def history(names, allnames, seed, per, digest):
    """the calls of one history in five processes: in order, permuted among strangers, repeated, and in threads"""
    R = Result("history"); r = random.Random("h%s" % seed); calls = []
    for n in names:
        for _ in range(per): calls.append((n, co.draw(r, n)))
    N = len(calls); order = list(range(N)); r.shuffle(order)
    other = [(n, co.draw(r, n)) for n in r.sample(allnames, min(len(allnames), 20))]
    o2 = list(range(N)); r.shuffle(o2); mix = []
    for i in o2:
        mix.append(i)
        if r.random() < .4: mix.append(N + r.randrange(len(other)))
    runs = [("first order", child(plain, calls, order, digest)), ("another order among other calls", child(plain, calls + other, mix, False)), ("repeated", child(abused, calls, o2[::-1])), ("threads", child(threads, calls, "%s" % seed))]
    base = None; seen = set()
    for what, (st, x) in runs:
        if st != "ok": R.bad({"names": names}, "%s: %s" % (what, x[-300:])); continue
        rs = x[0] if what == "threads" else [x[0]]
        for i, m in x[1]:
            if i < N and (i, m[:40]) not in seen: seen.add((i, m[:40])); R.bad({"function": calls[i][0], "args": jsonable(calls[i][1])}, "%s: %s" % (calls[i][0], m))
        if what == "threads": R.extra["forced_switches"] = R.extra.get("forced_switches", 0) + x[2]
        for z in rs:
            if base is None: base = z; continue
            for i in range(N):
                R.evals += 1
                if i not in z: R.skipped += 1; continue
                R.judged += 1
                if z[i] != base[i]:
                    if (i, what) in seen: continue
                    seen.add((i, what))
                    R.bad({"function": calls[i][0], "args": jsonable(calls[i][1])}, "%s: %s gives %s, the first history %s" % (calls[i][0], what, z[i][:200], base[i][:200]))
    if base and len(base) == N:
        for i in range(N): R.keys.add(hash((calls[i][0], repr(calls[i][1]), seed)))
        R.samples.append({"case": "history", "args": jsonable({"calls": ["%s(%s)" % (n, ", ".join(a)) for n, a in calls[:6]]}), "observed": [base[i][:60] for i in range(min(6, N))]})
    R.extra["histories"] = 1
    return R

# ---- objects: read-only queries in any order, on several objects made from the same arguments, and from threads
def q_psd(r, o, a):
    d = getattr(o, "d_characteristic", None) or getattr(o, "d63", None)
    ds = getattr(o, "ds", None); lo, hi = (float(ds[0]), float(ds[-1])) if ds is not None and len(ds) > 1 else ((d or 1e-3)*.05, (d or 1e-3)*8)
    if not hi > lo: lo, hi = hi*.1, hi*10 + 1e-9
    x = lambda: r.uniform(lo, hi); n = lambda: r.choice((None, None, 0, 1, 2, 3))
    g = sorted(x() for _ in range(5))
    return [("pdf", (x(), n())), ("cdf", (x(), n())), ("cdf", (x(),)), ("dn", (r.uniform(.05, .95), n())), ("delta_cdf", (g[0], g[3], n())), ("ds_discrete", (g[0], g[4], r.choice((5, 12)))), ("fractions_discrete", (g, n())), ("cdf_discrete", (g,)), ("mean_size", (3, 2)), ("mean_size", (2, 0)), ("mean_size_ISO", (1, 2)), ("vssa", None), ("repr", "builtin")] + ([("di_power", (1, 2)), ("interpolated", ())] if type(o).__name__ == "ParticleSizeDistribution" else [])
def q_tank(r, o, a):
    h = lambda: r.uniform(.02, .98)*o.h_max
    return [("V_from_h", (h(),)), ("SA_from_h", (h(),)), ("h_from_V", (r.uniform(.05, .95)*o.V_total,)), ("h_from_V", (r.uniform(.05, .95)*o.V_total, "brenth")), ("A_cross_sectional", (h(),)), ("add_thickness", (.01*o.D,)), ("V_from_h", (h(), "full")), ("hash", "builtin"), ("repr", "builtin"), ("str", "builtin")] + ([("V_from_h", (h(), "chebyshev"))] if r.random() < .04 else [])
def q_tower(r, o, a): return [("diameter", (r.uniform(0, o.H_outlet),)) for _ in range(4)] + [("repr", "builtin")]
def q_atm(r, o, a): return [("density", (r.uniform(200, 400), r.uniform(1e3, 1e5))), ("viscosity", (r.uniform(200, 400),)), ("pressure_integral", (r.uniform(250, 300), r.uniform(8e4, 1e5), r.uniform(-500, 5000))), ("gravity", (r.uniform(0, 5e4),)), ("_get_ind_from_H", (r.uniform(0, 8e4),))]
def q_plain(r, o, a): return [("repr", "builtin")] + ([("plate_exchanger_identifier", None)] if hasattr(o, "plate_exchanger_identifier") else []) + ([("hash", "builtin")] if type(o).__hash__ is not object.__hash__ else [])
CLASSES = {"geometry.TANK": q_tank, "particle_size_distribution.PSDLognormal": q_psd, "particle_size_distribution.PSDGatesGaudinSchuhman": q_psd, "particle_size_distribution.PSDRosinRammler": q_psd, "particle_size_distribution.PSDInterpolated": q_psd,
    "particle_size_distribution.ParticleSizeDistribution": q_psd, "geometry.HyperbolicCoolingTower": q_tower, "atmosphere.ATMOSPHERE_1976": q_atm, "geometry.HelicalCoil": q_plain, "geometry.PlateExchanger": q_plain, "geometry.RectangularFinExchanger": q_plain, "geometry.RectangularOffsetStripFinExchanger": q_plain, "geometry.AirCooledExchanger": q_plain}
LAZY = {"basis_integrals", "table", "chebyshev", "heights", "volumes", "interp_h_from_V", "h_from_V_cheb", "V_from_h_cheb", "fun_V_from_h_cheb"}
def ask(o, q):
    n, a = q
    try:
        if a == "builtin": v = {"repr": repr, "hash": hash, "str": str}[n](o)
        elif a is None: v = getattr(o, n)
        else: v = getattr(o, n)(*copy.deepcopy(a))
    except Exception as e: return "!%s: %s" % (type(e).__name__, str(e)[:200])
    c = "=" + canon(v) if n not in ("repr", "str") else "=" + re.sub(r"0x[0-9a-f]+", "", v)
    if a not in ("builtin", None): clobber(v)
    return c
def pub(o): return {k: canon(v) for k, v in state(o).items() if k not in LAZY}
def objects(full, seed, K):
    R = Result("objects." + full); r = random.Random("o%s%s" % (full, seed)); cls = resolve(full)
    for _ in range(K):
        a = co.draw(r, full); b = co.draw(r, full)
        def build(z): return cls(**z)
        before = canon(a)
        try: o = [build(a) for _ in range(4)]
        except Exception: R.evals += 1; R.skipped += 1; continue
        try: other = build(b)
        except Exception: other = build(copy.deepcopy(a))
        try: Q = CLASSES[full](r, o[0], a)
        except Exception as e: R.evals += 1; R.skipped += 1; continue
        s0 = [pub(x) for x in o]; bad = set()
        def say(m):
            if m[:60] not in bad: bad.add(m[:60]); R.bad(jsonable(a), m)
        if s0[0] != s0[1]: say("two objects of the same arguments differ: %s" % [k for k in s0[0] if s0[0][k] != s0[1].get(k)][:5])
        base = {}
        for i, q in enumerate(Q): base[i] = ask(o[0], q)
        idx = list(range(len(Q)))
        oq = CLASSES[full](r, other, b) if True else []
        for rnd in range(2):
            r.shuffle(idx)
            for i in idx:
                if r.random() < .5: ask(other, r.choice(oq))
                R.evals += 1; R.judged += 1
                for x in (o[1], o[0]) if rnd else (o[1],):
                    got = ask(x, Q[i])
                    if got != base[i]: say("%s%s: %s in another order of queries, first %s" % (Q[i][0], Q[i][1], got[:200], base[i][:200]))
        res = []
        def work(k):
            rr = random.Random(k); j = idx[:]; rr.shuffle(j)
            for i in j:
                got = ask(o[2], Q[i])
                if got != base[i]: res.append("%s%s: %s from thread, alone %s" % (Q[i][0], Q[i][1], got[:200], base[i][:200]))
        old = sys.getswitchinterval(); sys.setswitchinterval(1e-6)
        ts = [threading.Thread(target=work, args=(k,)) for k in range(4)]
        for t in ts: t.start()
        for t in ts: t.join()
        sys.setswitchinterval(old)
        R.evals += 4*len(Q); R.judged += 4*len(Q); R.keys.add(hash(before))
        if res: say(res[0])
        for x, s, w in zip(o, s0, ("queried", "queried", "queried from threads", "left alone")):
            n = pub(x)
            if {k: v for k, v in n.items() if k in s} != s: say("attributes of the %s object changed: %s" % (w, [(k, s[k][:80], n.get(k, "gone")[:80]) for k in s if n.get(k) != s[k]][:3]))
        if canon(a) != before: say("the constructor arguments were changed from %s" % before[:200])
        if not R.samples: R.samples.append({"case": R.name, "args": jsonable(a), "observed": [base[i][:60] for i in range(min(4, len(Q)))]})
    return R
