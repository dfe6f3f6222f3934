"""P38 unit-aware interface against the plain one; the documented units are pinned in data/units.json"""
import json, os, math, re, types, copy, random
from ..dom import *
from ..engine import Raises, SKIP, Approx, Err, Spec, close
from .. import corpus as co
S = []
T = json.load(open(os.path.join(co.HERE, "data", "units.json")))
# token -> (factor to SI base units, dimensions)
def D(**k): return {a: b for a, b in k.items() if b}
UN = {}
def un(t, f, **d): UN[t] = (f, d)
for t, f in dict(m=1.0, meter=1.0, mm=1e-3, cm=.01, km=1e3, ft=.3048, foot=.3048, inch=.0254, yard=.9144, mile=1609.344).items(): un(t, f, length=1)
UN["in"] = UN["inch"]
for t, f in dict(s=1.0, second=1.0, seconds=1.0, minute=60.0, minutes=60.0, hr=3600.0, hour=3600.0, day=86400.0, ms=1e-3).items(): un(t, f, time=1)
for t, f in dict(kg=1.0, g=1e-3, lb=.45359237, tonne=1000.0, pound=.45359237).items(): un(t, f, mass=1)
for t, f in dict(K=1.0, kelvin=1.0, degR=5/9.).items(): un(t, f, temperature=1)
for t, f in dict(Pa=1.0, kPa=1e3, bar=1e5, psi=6894.757293168361, atm=101325.0, mbar=100.0, torr=101325/760.).items(): un(t, f, mass=1, length=-1, time=-2)
for t, f in dict(N=1.0, kN=1e3, lbf=4.4482216152605, dyne=1e-5).items(): un(t, f, mass=1, length=1, time=-2)
for t, f in dict(J=1.0, kJ=1e3, cal=4.184, erg=1e-7).items(): un(t, f, mass=1, length=2, time=-2)
for t, f in dict(W=1.0, kW=1e3, MW=1e6).items(): un(t, f, mass=1, length=2, time=-3)
for t, f in dict(V=1.0, kV=1e3).items(): un(t, f, mass=1, length=2, time=-3, current=-1)
for t, f in dict(A=1.0, mA=1e-3).items(): un(t, f, current=1)
for t, f in dict(mol=1.0, kmol=1e3).items(): un(t, f, substance=1)
for t, f in dict(gallons=231*.0254**3, liter=1e-3, m3=1.0).items(): un(t, f, length=3)
del UN["m3"]
for t, f in dict(Hz=1.0, kHz=1e3).items(): un(t, f, time=-1)
for t, f in dict(P=.1, cP=1e-3).items(): un(t, f, mass=1, length=-1, time=-1)
for t, f in dict(degrees=math.pi/180, degree=math.pi/180, radians=1.0, radian=1.0, revolutions=2*math.pi, turn=2*math.pi, count=1.0, dimensionless=1.0).items(): un(t, f)
un("rpm", 2*math.pi/60, time=-1)
ALT = [("m", "ft inch mm cm km yard".split()), ("s", "minute hr ms day".split()), ("kg", "g lb tonne".split()), ("K", ["degR"]), ("Pa", "kPa bar psi atm mbar torr".split()), ("N", "kN lbf dyne".split()), ("J", "kJ cal erg".split()), ("W", "kW MW".split()), ("V", ["kV"]), ("A", ["mA"]), ("mol", ["kmol"]), ("Hz", ["kHz"]), ("degrees", ["radian", "degree", "turn"]), ("radians", ["degree", "turn"]), ("inch", ["mm", "ft"]), ("in", ["mm", "ft"]), ("gallons", ["liter"]), ("g", ["kg", "lb"]), ("minute", ["s", "hr"]), ("hr", ["s", "minute"]), ("lb", ["kg"]), ("ft", ["m"]), ("rpm", ["Hz"]), ("revolutions", ["radian"])]
ALT = dict(ALT)
def parse(u):
    """unit string -> (list of (token, exponent), numeric factor) or None"""
    u = u.replace(" ", "*") if re.search(r"[\w)] [\w(]", u) else u
    toks = re.findall(r"sqrt|[A-Za-z]+|\d+\.?\d*|[-^*/()]", u); p = [0]; out = []
    def peek(): return toks[p[0]] if p[0] < len(toks) else None
    def nxt(): p[0] += 1; return toks[p[0] - 1]
    def num():
        sg = 1
        while peek() == "-": nxt(); sg = -sg
        if peek() == "(":
            nxt(); v = num()
            while peek() == "/": nxt(); v /= num()
            nxt(); return sg*v
        return sg*float(nxt())
    def atom():
        t = nxt()
        if t == "(": v = expr(); nxt(); return v
        if t == "sqrt": nxt(); v = expr(); nxt(); return [(k, e*.5) for k, e in v]
        if re.match(r"\d", t): return [(float(t), 1.0)]
        return [(t, 1.0)]
    def power():
        v = atom()
        if peek() == "^": nxt(); e = num(); v = [(k, x*e) for k, x in v]
        return v
    def expr():
        v = power()
        while peek() in ("*", "/"):
            o = nxt(); w = power(); v = v + [(k, e if o == "*" else -e) for k, e in w]
        return v
    v = expr()
    if p[0] != len(toks): raise ValueError(u)
    return v
def eff(toks):
    f = 1.0; d = {}
    for k, e in toks:
        if isinstance(k, float): f *= k**e; continue
        a, b = UN[k]; f *= a**e
        for i, j in b.items(): d[i] = d.get(i, 0) + j*e
    return f, {i: j for i, j in d.items() if abs(j) > 1e-12}
ODD = {"dB", "decibels", "(1/m)^m", "various", "base SI", "degC"}
def plain_dim(u): return u in (None, "", "-", "dimensionless") or u in ODD
def text(toks): return "*".join("%s**%r" % (k, e) if not isinstance(k, float) else "%r**%r" % (k, e) for k, e in toks)
def alt(r, u):
    """(pint unit text, factor: value in u = value in alt * factor)"""
    t = parse(u); n = []
    for k, e in t: n.append((r.choice(ALT[k]) if k in ALT and r.random() < .6 else k, e))
    return text(n), eff(n)[0]/eff(t)[0]
def dims(q):
    return {k.strip("[]"): float(v) for k, v in q.dimensionality.items() if abs(float(v)) > 1e-12}
SK = {"A_multiple_hole_cylinder", "V_multiple_hole_cylinder", "all_submodules", "C2K"}
def gen_for(full, name):
    e = T[name]
    def gen(r):
        a = co.draw(r, full); w = r.random()
        d = dict(a=a, u={}, what="call", pick=None)
        for k, v in a.items():
            u = e["inp"].get(k)
            if plain_dim(u): 
                if u in ("", "-") and type(v) is float and r.random() < .15: d["u"][k] = ("dimensionless", 1.0) if r.random() < .6 else ("mm/m", 1e-3)
                continue
            d["u"][k] = alt(r, u)
            if u == "K" and r.random() < .3: d["u"][k] = r.choice((("degC", None), ("degF", None)))
        dk = [k for k, v in a.items() if not plain_dim(e["inp"].get(k)) and type(v) in (float, int)]
        if dk and w < .12: d["what"] = r.choice(("bare", "wrong")); d["pick"] = r.choice(dk); d["off"] = r.choice(("kg", "s", "K", "m", "mol"))
        elif w < .3 and all(type(v) in (float, int, bool, str, type(None)) for v in a.values()):
            f = [k for k, v in a.items() if type(v) is float and k in d["u"] and d["u"][k][1] is not None]
            if f:
                d["what"] = "array"; s = r.sample(f, r.randint(1, len(f))); n = r.choice((1, 2, 3))
                d["arr"] = {k: [a[k]*(1 + .02*r.uniform(-1, 1)*(i > 0)) for i in range(n)] for k in s}
        elif w < .5: d["what"] = "positional"
        return d
    return gen
def qty(m, v, ut):
    s, f = ut
    import numpy as np
    if isinstance(v, (list, tuple)): v = np.array(v, dtype=float)
    if f is None: v = v - 273.15 if s == "degC" else v*1.8 - 459.67
    else: v = v/f
    return m.u.Quantity(v, s)
def order(f): 
    import inspect
    return list(inspect.signature(f).parameters)
def target_for(full, name):
    def t(a, u, what, pick, arr=None, off=None):
        import fluids, fluids.units as m
        f = getattr(fluids, name); g = getattr(m, name)
        q = {k: qty(m, v, u[k]) if k in u and v is not None else v for k, v in a.items()}
        if what == "bare": q[pick] = a[pick]
        if what == "wrong": q[pick] = m.u.Quantity(a[pick], off)
        if arr: 
            import numpy as np
            for k, v in arr.items(): q[k] = qty(m, np.array(v), u[k])
        if what == "positional":
            o = order(f); pos = []
            for k in o:
                if k in q: pos.append(q.pop(k))
                else: break
            got = g(*pos, **q)
        else: got = g(**q)
        return got
    return t
def inputs_of(full, name): return T[name]["inp"]
def plain(name, a, arr):
    import fluids; f = getattr(fluids, name)
    if not arr: return f(**a)
    n = len(next(iter(arr.values())))
    return [f(**{**a, **{k: v[i] for k, v in arr.items()}}) for i in range(n)]
def mag(q, u, where):
    """magnitude of a quantity in the documented unit, by my own factors; raises on another dimension"""
    import fluids.units as m
    if plain_dim(u):
        if isinstance(q, m.u.Quantity):
            if dims(q): raise AssertionError("%s has dimensions %r, documented %r" % (where, dims(q), u))
            return q.to_base_units().magnitude if u not in ODD else q.magnitude
        return q
    if not isinstance(q, m.u.Quantity): raise AssertionError("%s is %s, not a quantity in %s" % (where, type(q).__name__, u))
    f, d = eff(parse(u)); dq = dims(q)
    if any(abs(d.get(k, 0) - dq.get(k, 0)) > 1e-6 for k in set(d) | set(dq)): raise AssertionError("%s has dimensions %r, documented %s" % (where, dq, u))
    return q.to_base_units().magnitude/f
# solvers whose result is the input left out
def variable(name, a):
    e = T[name]["inp"]
    if name == "nu_mu_converter": return e["mu"] if "mu" not in a else e["nu"]
    if name == "differential_pressure_meter_solver": return next(e[k] for k in ("D2", "P1", "P2", "m") if k not in a or a[k] is None)
    if name == "liquid_jet_pump_ancillary": return next(e[k] for k in ("d_nozzle", "d_mixing", "Qp", "Qs", "P1", "P2") if k not in a or a[k] is None)
    if name in ("isothermal_gas", "Panhandle_A", "Panhandle_B", "Weymouth", "Spitzglass_high", "Spitzglass_low", "Oliphant", "Fritzsche", "Muller", "IGT"):
        c = ("P1", "P2", "L", "D", "m") if name == "isothermal_gas" else ("L", "D", "P1", "P2", "Q")
        return next(e[k] for k in c if k not in a or a[k] is None)
    return None
def flat(exp, outs, name, a):
    """documented (unit, value) pairs of a plain result, with a path each"""
    v = variable(name, a)
    if outs and outs[0][0] == "results": outs = outs[1:]
    if v is not None: return [("result", v, exp)]
    t = type(exp)
    if t is dict:
        m = dict(map(tuple, outs)); return [(k, m.get(k, "-"), x) for k, x in exp.items()]
    if len(outs) == 1 or not isinstance(exp, tuple): return [("result", outs[0][1] if outs else None, exp)]
    return [("result[%d]" % i, outs[i][1] if i < len(outs) else "?", x) for i, x in enumerate(exp)]
def num(x): 
    import numpy as np
    return isinstance(x, (int, float, np.number, np.ndarray)) and not isinstance(x, bool)
def same(got, exp, rtol):
    import numpy as np
    g, e = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
    if g.shape != e.shape: return "shape %r for %r" % (g.shape, e.shape)
    ok = (np.abs(g - e) <= rtol*np.abs(e)) | (g == e) | (np.isnan(g) & np.isnan(e))
    return None if ok.all() else "%r, plain %r" % (g.tolist(), e.tolist())
def rough(y): return isinstance(y, complex) or isinstance(y, (list, tuple)) and any(map(rough, y)) or isinstance(y, dict) and any(map(rough, y.values()))
def judge0(full, name, d, got):
    import fluids, fluids.units as m
    e = T[name]; a = d["a"]; what = d["what"]; arr = d.get("arr")
    if what in ("bare", "wrong"):
        if what == "wrong":
            f, q = eff(parse(e["inp"][d["pick"]])); o = UN[d["off"]][1]
            if q == o: return SKIP
            if e["inp"][d["pick"]] == "": return SKIP
        if what == "bare" and not eff(parse(e["inp"][d["pick"]]))[1] and False: return SKIP
        if isinstance(got, Err): return None if isinstance(got.e, (TypeError, ValueError)) else "raised %r for %s %s" % (got, what, d["pick"])
        return "accepted %s = %r %s" % (d["pick"], a[d["pick"]], "without a unit" if what == "bare" else "in " + d["off"])
    try: exp = plain(name, copy.deepcopy(a), arr)
    except Exception as x:
        if isinstance(got, Err): return None
        if arr or "complex" in str(x): return SKIP
        # perhaps only just outside of the domain
        rr = random.Random(3)
        for i in range(40):
            try: plain(name, {k: v*(1 + rr.choice((2e-16, 1e-15, 3e-15, 1e-13, 1e-12))*rr.choice((-1, 1))) if type(v) is float else v for k, v in a.items()}, arr); return SKIP
            except Exception: pass
        return "plain raises %r, units gives %r" % (x, got)
    if rough(exp) or (name == "liquid_jet_pump" and isinstance(got, Err) and "not solve" in str(got.e)): return SKIP
    if arr and isinstance(exp[0], (dict, str, bool, type(None), list)): return SKIP
    if isinstance(got, Err):
        if "complex" in str(got.e): return SKIP
        rr = random.Random(3)
        for _ in range(60):
            mv = lambda v: v*(1 + rr.choice((2e-16, 4e-16, 3e-15, 1e-13))*rr.choice((-1, 0, 1))) if type(v) is float else v
            try: plain(name, {k: mv(v) for k, v in a.items()}, {k: [mv(i) for i in v] for k, v in arr.items()} if arr else None)
            except Exception: return SKIP
        return "units raises %r, plain gives %r" % (got, exp)
    if arr:
        if isinstance(exp[0], tuple): exp = tuple([x[i] for x in exp] for i in range(len(exp[0])))
    try:
        F = flat(exp, e["out"], name, {**a, **(arr or {})})
        if type(exp) is dict:
            if set(got) != set(exp): return "keys %r, plain %r" % (sorted(got), sorted(exp))
            G = [got[k] for k, _, _ in F]
        elif len(F) == 1 and F[0][0] == "result": G = [got]
        else: G = list(got)
        if len(G) != len(F): return "%d results, plain %d" % (len(G), len(F))
        for (p, u, x), q in zip(F, G):
            if u == "?": return "undocumented result " + p
            if x is None or isinstance(x, (str, bool)):
                if q is not x and q != x: return "%s: %r, plain %r" % (p, q, x)
                continue
            if isinstance(x, (list, tuple)) and x and not all(num(i) for i in x):
                continue
            if not num(x) and not isinstance(x, (list, tuple)): continue
            w = mag(q, u, p); r = same(w, x, 1e-9)
            if r and name == "liquid_jet_pump": continue   # several solutions, found by a chain of solvers
            if r:
                # badly conditioned points, thresholds: the plain function at inputs moved by rounding
                rr = random.Random(7)
                for s in [2e-16, 1e-15, 3e-15]*8 + [3e-14, 3e-13, 3e-12, 1e-11]*6:
                    mv = lambda k, v: v*(1 + s*rr.choice((-1, 1))) + (rr.choice((-1, 1))*2e-13 if d["u"].get(k, (0, 0))[1] is None else 0) if type(v) is float else v
                    try: y = plain(name, {k: mv(k, v) for k, v in a.items()}, {k: [mv(k, i) for i in v] for k, v in arr.items()} if arr else None)
                    except Exception: return SKIP
                    if rough(y): return SKIP
                    if arr: y = tuple([z[i] for z in y] for i in range(len(y[0]))) if isinstance(y[0], tuple) else y
                    y = next(z for pp, _, z in flat(y, e["out"], name, {**a, **(arr or {})}) if pp == p)
                    if same(y, x, 1e-9 if s > 1e-12 else 1e-11): return SKIP
                return "%s [%s]: %s" % (p, u, r)
    except AssertionError as x: return str(x)
    return None
def judge(full, name, d, got):
    r = judge0(full, name, d, got)
    if r is None or r is SKIP or d["what"] in ("bare", "wrong"): return r
    if "UnconvergedError" in r: return SKIP
    # rounding of the conversion itself: judge again at the very floats the conversion yields, if they are those asked for
    import fluids.units as m
    def back(k, v):
        if k not in d["u"] or not num(v) or d["u"][k][0] == "mm/m" or plain_dim(T[name]["inp"].get(k)): return v
        w = float(qty(m, v, d["u"][k]).to(T[name]["inp"][k]).magnitude)
        return w if abs(w - v) <= 1e-12*abs(v) + (1e-12 if d["u"][k][1] is None else 0) else v
    e = dict(d, a={k: back(k, v) for k, v in d["a"].items()})
    if d.get("arr"): e["arr"] = {k: [back(k, i) for i in v] for k, v in d["arr"].items()}
    return r if judge0(full, name, e, got) not in (None, SKIP) else None
def build():
    by = {n.split(".")[-1]: n for n in co.corpus() if not n.startswith("numerics")}
    for name, e in sorted(T.items()):
        if name not in by or name in SK or not e["inp"] and not e["out"]: continue
        full = by[name]
        if name[0].isupper() and full.split(".")[-1] == name and name in CLASSES: continue
        S.append(Spec("units." + name, {}, None, target=target_for(full, name), gen=gen_for(full, name), post=(lambda full, name: lambda d, g: judge(full, name, d, g))(full, name), floor=0, sites=False))
CLASSES = {"TANK", "HelicalCoil", "PlateExchanger", "ATMOSPHERE_1976", "ATMOSPHERE_NRLMSISE00", "AirCooledExchanger", "RectangularFinExchanger", "HyperbolicCoolingTower", "RectangularOffsetStripFinExchanger", "Hooper2K", "Darby3K", "PSDLognormal", "PSDRosinRammler", "PSDGatesGaudinSchuhman", "PSDInterpolated", "ParticleSizeDistribution", "ParticleSizeDistributionContinuous", "PSDCustom", "Sieve", "CountryPower"}
build()
# ---- classes
DOC = ["TANK", "HelicalCoil", "PlateExchanger", "ATMOSPHERE_1976", "ATMOSPHERE_NRLMSISE00", "AirCooledExchanger", "RectangularFinExchanger", "HyperbolicCoolingTower"]
METH = dict(TANK=(("V_from_h", "m", "m^3", "h_max"), ("SA_from_h", "m", "m^2", "h_max"), ("h_from_V", "m^3", "m", "V_total")), HyperbolicCoolingTower=(("diameter", "m", "m", "H_outlet"),), ATMOSPHERE_1976=(("gravity", "m", "m/s^2", 8e4), ("viscosity", "K", "Pa*s", 400.0), ("density", "K,Pa", "kg/m^3", 400.0), ("sonic_velocity", "K", "m/s", 400.0), ("thermal_conductivity", "K", "W/m/K", 400.0)))
def class_gen(full, name):
    e = T[name]
    def gen(r):
        a = co.draw(r, full, jitter=.4); d = dict(a=a, u={}, what=r.choice(("call", "call", "positional", "bare", "wrong")), pick=None, off=r.choice(("kg", "s", "K", "mol", "V")), fr=r.random(), mu=r.random())
        for k, v in a.items():
            u = e["inp"].get(k)
            if not plain_dim(u): d["u"][k] = alt(r, u) if u not in ("10^-22 W/m^2/Hz",) else (u.replace("^", "**").replace(" ", "*"), 1.0)
        dk = [k for k, v in a.items() if k in d["u"] and type(v) in (float, int)]
        if d["what"] in ("bare", "wrong"):
            if dk: d["pick"] = r.choice(dk)
            else: d["what"] = "call"
        return d
    return gen
def class_target(full, name):
    def t(a, u, what, pick, off, fr, mu):
        import fluids.units as m, fluids
        q = {k: qty(m, v, u[k]) if k in u and v is not None else v for k, v in a.items()}; c = getattr(m, name)
        if what == "bare": q[pick] = a[pick]
        if what == "wrong": q[pick] = m.u.Quantity(a[pick], off)
        pos = []
        if what == "positional":
            for k in order(getattr(fluids, name).__init__)[1:]:
                if k in q: pos.append(q.pop(k))
                else: break
        return c(*pos, **q)
    return t
def class_judge(full, name, d, got):
    import fluids, fluids.units as m, random
    e = T[name]; a = d["a"]; w = d["what"]
    if w in ("bare", "wrong"):
        if w == "wrong" and eff(parse(e["inp"][d["pick"]]))[1] == UN[d["off"]][1]: return SKIP
        if isinstance(got, Err): return None if isinstance(got.e, (TypeError, ValueError)) else "raised %r for %s %s" % (got, w, d["pick"])
        return "accepted %s = %r, %s" % (d["pick"], a[d["pick"]], w)
    try: o = getattr(fluids, name)(**copy.deepcopy(a))
    except Exception as x: return None if isinstance(got, Err) else SKIP
    def near(i):
        q = random.Random(i); s = q.choice((2e-16, 1e-15, 3e-15, 1e-13))
        return getattr(fluids, name)(**{k: v*(1 + s*q.choice((-1, 1))) if type(v) is float else v for k, v in a.items()})
    def unstable(k, x):
        for i in range(30):
            try:
                if same(getattr(near(i), k), x, 1e-10): return True
            except Exception: return True
    if isinstance(got, Err):
        for i in range(30):
            try: near(i)
            except Exception: return SKIP
        return "units raises %r" % got
    inv = {v: k for k, v in {}.items()}
    attrs = {**{k: v for k, v in e["inp"].items()}, **e["attr"]}
    n = 0; big = max([abs(v) for k, v in a.items() if e['inp'].get(k) == 'm' and isinstance(v, float)] + [0.0])
    try: repr(o)
    except Exception as err: return 'repr raises %r' % err
    for k, u in attrs.items():
        if not hasattr(o, k): continue
        x = getattr(o, k)
        if callable(x): continue
        try: q = getattr(got, k)
        except Exception as err: return "attribute %s: %r" % (k, err)
        if x is None or isinstance(x, (str, bool)):
            if q is not x and q != x: return "attribute %s: %r, plain %r" % (k, q, x)
            continue
        if not num(x) and not (isinstance(x, (list, tuple)) and all(num(i) for i in x)): continue
        if u == "10^-22 W/m^2/Hz": continue
        try: y = mag(q, u, k)
        except AssertionError as err: return str(err)
        r = same(y, x, 1e-7)
        if r and num(x) and not isinstance(x, bool) and u == 'm' and abs(float(y) - float(x)) < 1e-9*big: r = None   # differences of large dimensions
        if r:
            if name == "TANK" and k in ("sideA_a", "sideB_a") : continue
            if unstable(k, x): continue
            return "attribute %s [%s]: %s" % (k, u, r)
        n += 1
    for f, ui, uo, top in METH.get(name, ()):
        if not hasattr(o, f): continue
        t = getattr(o, top) if isinstance(top, str) else top
        r = random.Random(d["mu"]); x = [t*d["fr"]*.98 + .01*t] + ([101325.0*d["fr"] + 1.0] if "," in ui else [])
        try: y = getattr(o, f)(*x)
        except Exception: continue
        alts = [alt(r, i) for i in ui.split(",")]
        try: g = getattr(got, f)(*[qty(m, v, s) for v, s in zip(x, alts)])
        except Exception as err: return "%s(%r %r): %r" % (f, x, alts, err)
        try: z = mag(g, uo, f)
        except AssertionError as err: return str(err)
        rr = same(z, y, 2e-6)
        if rr: return "%s: %s" % (f, rr)
        n += 1
    return None if n else SKIP
for name in DOC:
    full = next((n for n in co.corpus() if n.endswith("." + name)), None)
    if full: S.append(Spec("units.class." + name, {}, None, target=class_target(full, name), gen=class_gen(full, name), post=(lambda full, name: lambda d, g: class_judge(full, name, d, g))(full, name), floor=0, sites=False, n=.25))
# cylinders with holes, each hole in its own unit
def g_mh(r):
    n = r.randint(0, 4)
    return dict(f=r.choice("AV"), Do=r.uniform(.01, 3), L=r.uniform(.01, 5), holes=[(r.uniform(1e-3, .5), r.randint(1, 9)) for _ in range(n)], us=[alt(r, "m") for _ in range(n + 2)])
def t_mh(f, Do, L, holes, us):
    import fluids.units as m
    q = getattr(m, f + "_multiple_hole_cylinder")(qty(m, Do, us[0]), qty(m, L, us[1]), [(qty(m, d, u), n) for (d, n), u in zip(holes, us[2:])])
    return float(mag(q, "m^2" if f == "A" else "m^3", f))
def r_mh(f, Do, L, holes, us):
    from math import pi
    p = pi*Do*L + pi*Do**2/2 if f == "A" else pi/4*Do*Do*L
    q = [n*(pi*d*L - pi*d*d/2) if f == "A" else -pi/4*d*d*L*n for d, n in holes]
    return Approx(p + sum(q), 1e-10, 1e-12*(p + sum(map(abs, q))))
S.append(Spec("units.multiple_hole_cylinder", {}, r_mh, target=t_mh, gen=g_mh, floor=0, sites=False, n=.5))
