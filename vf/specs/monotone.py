"""P43: ordered pairs of calls which differ in one argument; the response has the registered direction.

Rows of `data/mono.json` are {function: {argument: {"n/j": [direction, sign]}}}: output j of n moves in `direction`
when the argument grows (ties allowed) and has `sign` (2: >0, 1: >=0, -1, -2, 0: either).  They were mined by
tools/mono_table.py inside the domain below and reviewed; EXCLUDE lists what physics or the documentation does not fix.
"""
import importlib, math, re
from vf import corpus
TOL = 1e-9
def get(name):
    name = name.partition("#")[0]
    m, f = name.rsplit(".", 1)
    try: return getattr(importlib.import_module("fluids." + m), f)
    except (ImportError, AttributeError): return None
def flat(v):
    if isinstance(v, bool) or v is None: return []
    if isinstance(v, (int, float)): return [float(v)]
    if isinstance(v, (tuple, list)):
        o = []
        for i in v:
            if isinstance(i, (int, float)) and not isinstance(i, bool): o.append(float(i))
            else: return []
        return o
    return []

# ---- domain: the physical region the documentation describes, by parameter name
def F(a, k, d=None):
    v = a.get(k, d)
    return v if isinstance(v, (int, float)) and not isinstance(v, bool) else d
FRAC = ("x", "voidage", "alpha", "eta", "sphericity", "quality", "beta", "FL", "FF", "Fd", "xT", "Kd", "Kb", "Kc", "Kw", "eta_p", "eta_s", "C")
def domain(name, a):
    m, f = name.rsplit(".", 1)
    for k, v in a.items():
        if type(v) is float:
            if not math.isfinite(v) or abs(v) > 1e30: return False
            if k in FRAC and m not in ("numerics", "core") and not (f.startswith(("V_Chezy", "C_Chezy", "API52", "erosional", "n_Manning")) and k in ("C", "x")) and m not in ("open_flow", "piping"):
                if k == "C" and m != "flow_meter": continue
                if k == "alpha" and m in ("atmosphere", "core", "solar", "optional.irradiance", "jet_pump", "numerics"): continue
                if not 0 < v < 1: return False
            if k in ("k", "gamma") and m in ("compressible", "flow_meter", "control_valve", "safety_valve", "core") and f not in ("Biot", "Nusselt", "Prandtl", "thermal_diffusivity", "Peclet_heat", "Graetz_heat", "Lewis", "Fourier_heat"):
                if not 1.02 < v < 2: return False
            if k.startswith("pow_") and not abs(v) < 2: return False
            if k in ("Z",) and not .2 < v < 1.5: return False
            if k == "angle" and m in ("fittings", "filters") and not 0 <= v <= 180: return False
            if k == "chevron_angle" and not 0 < v < 90: return False
    if F(a, "rhol") and F(a, "rhog"):
        if F(a, "rhol") <= 2*F(a, "rhog"): return False
    if F(a, "mul") and F(a, "mug") and F(a, "mul") <= F(a, "mug"): return False
    if F(a, "Pc") and F(a, "P") and F(a, "P") >= F(a, "Pc"): return False
    if f == "time_v_terminal_Stokes":       # not already within the tolerance of the final velocity
        v = 9.80665*a["D"]**2*(a["rhop"] - a["rho"])/18/a["mu"]
        if abs(a.get("V0", 0) - v) < 2*a.get("tol", 1e-14)*abs(v): return False
    if m == "safety_valve" and f == "API520_A_g" and (a.get("Kb") or 1.) != 1.: return False
    if F(a, "rhop") and F(a, "rho") and F(a, "rhop") <= F(a, "rho"): return False
    if m in ("flow_meter", "control_valve", "safety_valve") and F(a, "P1") is not None and F(a, "P2") is not None and not F(a, "P1") > F(a, "P2") > 0: return False
    if m == "compressible" and F(a, "P1") is not None and F(a, "P2") is not None:
        if F(a, "P1") <= 0 or F(a, "P2") <= 0: return False
    if f == "isentropic_work_compression" and (a.get("W") is not None or a.get("eta") is not None and not 0 < a["eta"] <= 1 or a.get("P1") is None or a.get("P2") is None): return False
    if m == "flow_meter":
        D = F(a, "D")
        for k in ("Do", "D2", "Dc", "H"):
            if D is not None and F(a, k) is not None and not .05*D < F(a, k) < .95*D and f not in ("dP_Reader_Harris_Gallagher_wet_venturi_tube",): return False
    if m == "geometry":
        D, h, ax = F(a, "D"), F(a, "h"), F(a, "a")
        if D is not None and D <= 0: return False
        if h is not None and h < 0: return False
        if "horiz" in f or "partial_circle" in f or f in ("SA_partial_cylindrical_body", "V_partial_sphere", "SA_partial_sphere"):
            if h is not None and D is not None and h > D: return False
        if "spherical" in f and "tori" not in f and ax is not None and D is not None and not .02*D <= abs(ax) <= D/2: return False
        if F(a, "f") is not None and not .55 <= F(a, "f") <= 2 or F(a, "k") is not None and not .005 < F(a, "k") <= .2: return False
        if "concave" in f and ax is not None and D is not None and not .02*D < abs(ax) < 2*D: return False
        if "concave" in f and ax is not None and h is not None and not (ax and h > 0): return False
    if m == "fittings":
        if F(a, "Di1") and F(a, "Di2"):
            if f.startswith("diffuser") and F(a, "Di1") >= F(a, "Di2"): return False
            if f.startswith("contraction") and F(a, "Di1") <= F(a, "Di2"): return False
        if F(a, "D1") and F(a, "D2") and f.startswith("K_") and F(a, "D1") > F(a, "D2"): return False
    if m == "friction":
        Re, eD = F(a, "Re"), F(a, "eD")
        if Re is not None and Re <= 0: return False
        if f in TURB and not (3e3 <= Re <= 1e8 and 0 <= (eD or 0) <= .05): return False
        if F(a, "Di") and F(a, "Dc") and not F(a, "Di") < .5*F(a, "Dc"): return False
        if F(a, "D") and F(a, "roughness") and F(a, "roughness") > .05*F(a, "D"): return False
    if m in ("two_phase", "two_phase_voidage") and F(a, "rhol") and F(a, "rhog"):
        if not F(a, "rhol") > 5*F(a, "rhog") or not (F(a, "mul") is None or F(a, "mug") is None or F(a, "mul") < 300*F(a, "mug")): return False
        if F(a, "x") is not None and not .01 < F(a, "x") < .95: return False
        if F(a, "m") and F(a, "D") and not 1 < F(a, "m")/(F(a, "D")**2*math.pi/4) < 3000: return False
    if m == "two_phase" and F(a, "D") and F(a, "roughness") and F(a, "roughness") > .05*F(a, "D"): return False
    return G.get(f, lambda a: True)(a)
TURB = {"Alshul_1952", "Avci_Karagoz_2009", "Barr_1981", "Blasius", "Brkic_2011_1", "Brkic_2011_2", "Buzzelli_2008", "Chen_1979",
        "Churchill_1973", "Churchill_1977", "Clamond", "Colebrook", "Eck_1973", "Fang_2011", "Haaland", "Jain_1976", "Manadilli_1997", "Moody",
        "Papaevangelo_2010", "Prandtl_von_Karman_Nikuradse", "Rao_Kumar_2007", "Romeo_2002", "Round_1980", "Serghides_1", "Serghides_2",
        "Shacham_1980", "Sonnad_Goudar_2006", "Swamee_Jain_1976", "Tsal_1989", "Wood_1966", "Zigrang_Sylvester_1", "Zigrang_Sylvester_2"}
G = {"COV_motionless_mixer": lambda a: F(a, "pipe_diameters", 1) < 100 and .1 < F(a, "Ki", .5) < 1, "gravity": lambda a: abs(F(a, "H", 0)) < 1e5, "Colebrook": lambda a: a.get("tol") in (None,),
     "P_stagnation": lambda a: F(a, "Tst", 0) > F(a, "T", 0), "T_stagnation": lambda a: F(a, "Pst", 0) > F(a, "P", 0),
     "isentropic_T_rise_compression": lambda a: F(a, "P2", 1) > F(a, "P1", 1) and F(a, "eta", 1) > 0,
     "isentropic_work_compression": lambda a: F(a, "P2", 1) > F(a, "P1", 1),
     "API520_A_steam": lambda a: F(a, "P1") < 2e7, "density_two_phase": lambda a: 0 < F(a, "alpha", .5) < 1,
     "cdf_Gates_Gaudin_Schuhman": lambda a: a.get("d", 1) > 0, "circle_segment_h_from_A": lambda a: F(a, "A", 1) < .999*math.pi/4*F(a, "D", 1)**2,
     "Q_weir_rectangular_SIA": lambda a: F(a, "b", 1) < F(a, "b1", F(a, "b", 1)*2), "two_phase_dP_acceleration": lambda a: F(a, "xi", 0) < F(a, "xo", 1),
     "K_ball_valve_Crane": lambda a: F(a, "D1", 1) <= F(a, "D2", 1),
     }
DROP = re.compile(r"err|to_int|toint|^numerics|_lit$|basis_integral|optional|psd_spacing|material_roughness|tank_from_two|stagnation_energy_err|integrate_drag|H_for_P|Reynolds_factor|convert_flow|VDI_3732|C_Reader|C_venturi|C_ISA|C_long|C_quarter|C_Miller|liquid_jet_pump|pitch_angle|circle_segment_area_inner|solar|^units|^vectorized|^constants")
X = set()                    # "function:argument" or "function:argument:n/j" rows left out after review
def excluded(name, k=None, c=None):
    name = name.partition("#")[0]
    if k is None: return bool(DROP.search(name))
    return f"{name}:{k}" in X or f"{name}:{k}:{c}" in X or f"*:{k}" in X
STEP = ("NPS", "schedule")
def kind(v):
    if isinstance(v, str): return v
    if v is None or isinstance(v, bool): return str(v)
    return "*"
_SH = {}
def shapes(name):
    """recorded calls grouped by which arguments are given and by the values of their string arguments"""
    if name not in _SH:
        d = {}
        for e in corpus.entries(name):
            d.setdefault(";".join(f"{k}={kind(v)}" for k, v in sorted(e.items()) if kind(v) != "None"), []).append(e)
        _SH[name] = d
    return _SH[name]
def draw(r, name, shape):
    if shape is None: return corpus.draw(r, name, jitter=.8)
    E = shapes(name)[shape]; a = {k: corpus.dec(v) for k, v in r.choice(E).items()}; o = r.choice(E)
    for k in a:
        if r.random() < .15 and k in o: a[k] = corpus.dec(o[k])
    if r.random() < .8:
        s = 10**r.uniform(-5, -.7)
        for k, v in a.items():
            if type(v) is float and math.isfinite(v) and r.random() < .7: a[k] = v*(1 + s*r.uniform(-1, 1))
    return a
def pair(r, name, k):
    name, _, shape = name.partition("#")
    a = draw(r, name, shape or None)
    if type(a.get(k)) is not float or a[k] == 0 or not math.isfinite(a[k]): return None
    if r.random() < .5:
        for q, v in a.items():
            if type(v) is float and r.random() < .6 and math.isfinite(v):
                w = v*10**r.uniform(-1, 1)
                if domain(name, {**a, q: w}): a[q] = w
    t = r.random()
    fac = 1 + 10**r.uniform(-6, -.2) if t < .5 else r.uniform(1, 4) if t < .8 else 10**r.uniform(0, 2)
    b = dict(a); b[k] = a[k]*fac
    if a[k] < 0: a, b = b, a
    if not (domain(name, a) and domain(name, b)): return None
    return a, b

# ---- the check
import json, os, random, warnings
from ..engine import Result, jsonable, Err
from ..engine import call as mcall
T = {}
_p = os.path.join(corpus.HERE, "data", "mono.json")
if os.path.exists(_p): T = json.load(open(_p))
def fmt(a): return {k: v for k, v in a.items()}
def row(name, seed, K):
    """all registered rows of one function (one shape of its arguments)"""
    warnings.simplefilter("ignore")
    R = Result("direction." + name); f = get(name)
    if f is None: R.skipped += 1; R.evals += 1; return R
    for k, Q in sorted(T[name].items()):
        r = random.Random("%s/%s/%s" % (seed, name, k)); told = set()
        for _ in range(K):
            p = pair(r, name, k)
            if p is None: continue
            x = mcall(f, p[0]); y = mcall(f, p[1]); R.evals += 1
            X = None if isinstance(x, Err) else flat(x); Y = None if isinstance(y, Err) else flat(y)
            n = {int(c.split("/")[0]) for c in Q}
            if all(q[2] for q in Q.values()) and (not X or not Y or len(X) not in n or len(Y) not in n):
                if "raise" not in told:
                    told.add("raise"); R.bad(jsonable(p[0] if not X or len(X) not in n else p[1]), "no finite answer in the domain: %r" % ((x if not X or len(X) not in n else y),))
                continue
            if not X or not Y or len(X) != len(Y): R.skipped += 1; continue
            R.judged += 1; R.keys.add(hash((k, repr(p[1][k]), repr(p[0][k]))))
            for c, (d, g, w) in Q.items():
                n, j = map(int, c.split("/"))
                if n != len(X) or c in told: continue
                u, v = X[j], Y[j]; m = None
                if g:
                    for q, z, o in ((p[0], u, v), (p[1], v, u)):
                        if z == 0 and abs(o) < 1e-60: continue      # underflow
                        if name.startswith("geometry.") and abs(z) < 1e-14*max([abs(t) for t in q.values() if type(t) is float] + [0])**3: continue      # rounding of a nearly empty volume
                        if not math.isfinite(z): m = "result %r is not finite"
                        elif g == 2 and not z > 0 or g == 1 and not z >= 0 or g == -2 and not z < 0 or g == -1 and not z <= 0: m = "result %r has the wrong sign"
                        if m: m %= z; R.bad(jsonable(q), "output %d: %s" % (j, m)); told.add(c); break
                if m is None and d and math.isfinite(u) and math.isfinite(v):
                    if (v - u)*d < -TOL*max(abs(u), abs(v)):
                        told.add(c); R.bad(jsonable({**p[0], "raised": {k: p[1][k]}}), "output %d %s from %r to %r when %s grows from %r to %r" % (j, "falls" if d > 0 else "rises", u, v, k, p[0][k], p[1][k]))
        if len(R.samples) < 2 and R.judged: R.samples.append({"case": R.name, "args": jsonable(p[0]) if p else {}, "observed": "%s: %s" % (k, Q)})
    return R

# ---- ordered sequences that need more than one recorded call: levels of a tank, grains of a distribution, altitude, duty
def ladder(R, who, args, ask, xs, d, tol=1e-9, scale=0., sign=None, strict=False):
    """ask over increasing xs must move in direction d"""
    prev = None
    for x in xs:
        y = mcall(ask, {"v": x}); R.evals += 1
        if isinstance(y, Err): prev = None; R.skipped += 1; continue
        if not (isinstance(y, (int, float)) and math.isfinite(y)): R.bad(jsonable(args), "%s at %r: %r is not finite" % (who, x, y)); return
        R.judged += 1
        if sign and y*sign < 0: R.bad(jsonable(args), "%s at %r: %r has the wrong sign" % (who, x, y)); return
        if prev is not None and ((y - prev[1])*d < -tol*max(abs(y), abs(prev[1])) - scale or strict and y == prev[1]):
            R.bad(jsonable(args), "%s %s from %r to %r between %r and %r" % (who, "falls" if d > 0 else "rises", prev[1], y, prev[0], x)); return
        prev = (x, y)
def steps(r, lo, hi, n):
    u = [r.uniform(lo, hi) for _ in range(n)]
    u += [min(hi, v + (hi - lo)*10**r.uniform(-6, -2)) for v in u[:n//3]]
    return sorted(u)
def s_tank(r, R):
    from vf.specs import tanks
    import fluids.geometry as g
    for _ in range(4):
        kw = tanks.kw(tanks.tank(r))
        try: t = g.TANK(**kw)
        except Exception: R.skipped += 1; R.evals += 1; continue
        if "guppy" in (t.sideA, t.sideB): n = 5
        else: n = 9
        xs = steps(r, 0., t.h_max, n); R.keys.add(hash(repr(sorted(kw.items(), key=str))))
        ladder(R, "TANK.V_from_h", kw, lambda v: t.V_from_h(v), xs, 1, 1e-6, 1e-7*t.V_total, 1)
        ladder(R, "TANK.SA_from_h", kw, lambda v: t.SA_from_h(v), xs, 1, 1e-6, 1e-5*t.A, 1)
        if r.random() < .3:
            try: ladder(R, "TANK.h_from_V", kw, lambda v: t.h_from_V(v), steps(r, .02*t.V_total, .98*t.V_total, 4), 1, 1e-6, 1e-6*t.h_max, 1)
            except Exception: R.skipped += 1
def s_psd(r, R):
    import fluids.particle_size_distribution as p
    for _ in range(6):
        t = r.random()
        if t < .4: kw = dict(d_characteristic=10**r.uniform(-6, -3), s=r.uniform(.1, 1.2)); o = p.PSDLognormal(**kw)
        elif t < .6: kw = dict(d_characteristic=10**r.uniform(-6, -3), m=r.uniform(.6, 4)); o = p.PSDGatesGaudinSchuhman(**kw)
        elif t < .8: kw = dict(k=10**r.uniform(-1, 4), m=r.uniform(.6, 4)); o = p.PSDRosinRammler(**kw)
        else:
            ds = [10**r.uniform(-6, -5)]
            for _ in range(r.randint(4, 12)): ds.append(ds[-1]*r.uniform(1.1, 2))
            kw = dict(ds=ds, fractions=[r.uniform(.01, 1) for _ in ds[1:]]); z = sum(kw["fractions"]); kw["fractions"] = [v/z for v in kw["fractions"]]
            o = p.ParticleSizeDistribution(**kw)
        R.keys.add(hash(repr(kw)))
        d1, d9 = o.dn(.02) if t < .8 else kw["ds"][0], o.dn(.98) if t < .8 else kw["ds"][-1]
        for n in (None, 0, 1, 2) if t < .4 else (None,):
            ladder(R, "%s.cdf(n=%s)" % (type(o).__name__, n), kw, lambda v: o.cdf(v, n=n), steps(r, d1, d9, 12), 1, 1e-8, 1e-8, 1)
        ladder(R, type(o).__name__ + ".dn", kw, lambda v: o.dn(v), steps(r, .03, .97, 8), 1, 1e-7, 0, 1)
        ladder(R, type(o).__name__ + ".pdf sign", kw, lambda v: (0. if o.pdf(v) >= 0 else -1.), steps(r, d1, d9, 8), 1, 0, 0, 1)
        k = r.uniform(1.01, 3)
        ladder(R, type(o).__name__ + ".delta_cdf by upper end", kw, lambda v: o.delta_cdf(d1, v), steps(r, d1, d9, 8), 1, 1e-8, 1e-8, 1)
def s_atm(r, R):
    import fluids.atmosphere as at
    dT = r.choice([0., r.uniform(-30, 30)])
    xs = steps(r, 0, 80000., 40); R.keys.add(hash(repr(xs)))
    for k, d in (("P", -1), ("rho", -1)): ladder(R, "ATMOSPHERE_1976." + k, {"dT": dT}, lambda v: getattr(at.ATMOSPHERE_1976(v, dT), k), xs, d if (dT == 0 or k == "P") else d, 1e-9, 0, 1)
    for k in ("T", "k", "mu", "v_sonic", "g"): ladder(R, "ATMOSPHERE_1976.%s positive" % k, {"dT": dT}, lambda v: (0. if getattr(at.ATMOSPHERE_1976(v, dT), k) > 0 else -1.), xs, 1, 0, 0, 1)
    ladder(R, "ATMOSPHERE_1976.g", {"dT": dT}, lambda v: at.ATMOSPHERE_1976(v, dT).g, xs, -1, 1e-12)
    ladder(R, "pressure_integral", {}, lambda v: at.ATMOSPHERE_1976.pressure_integral(288.15, 101325., v), steps(r, 10., 9000., 4), 1, 1e-6)
    kw = dict(latitude=r.uniform(-80, 80), longitude=r.uniform(-180, 180), day=r.randint(1, 365), seconds=r.uniform(0, 86400))
    xs = steps(r, 0., 3e5, 8)
    ladder(R, "ATMOSPHERE_NRLMSISE00.rho", kw, lambda v: at.ATMOSPHERE_NRLMSISE00(Z=v, **kw).rho, xs, -1, 1e-9, 0, 1)
    ladder(R, "ATMOSPHERE_NRLMSISE00.P", kw, lambda v: at.ATMOSPHERE_NRLMSISE00(Z=v, **kw).P, xs, -1, 1e-3, 0, 1)
def s_valve(r, R):
    import fluids.control_valve as cv
    for _ in range(10):
        P1 = 10**r.uniform(5.3, 7); x = r.uniform(.05, .9)
        kw = dict(rho=r.uniform(500, 1500), Psat=r.choice([100., .3*P1, .8*P1]), Pc=2.2e7, mu=10**r.uniform(-4, -2.5), P1=P1, P2=P1*(1 - x))
        if r.random() < .5: kw.update(FL=r.uniform(.5, .95))
        R.keys.add(hash(repr(kw)))
        ladder(R, "size_control_valve_l by Q", kw, lambda v: cv.size_control_valve_l(Q=v, **kw), steps(r, .001, .2, 6), 1, 1e-9, 0, 1)
        k2 = {k: v for k, v in kw.items() if k != "P2"}
        ladder(R, "size_control_valve_l by P2", kw, lambda v: cv.size_control_valve_l(Q=.01, P2=v, **k2), steps(r, .1*P1, .98*P1, 6), 1, 1e-9, 0, 1)
        kg = dict(T=r.uniform(200, 800), MW=r.uniform(2, 80), mu=10**r.uniform(-5.3, -4.3), gamma=r.uniform(1.1, 1.66), Z=r.uniform(.5, 1.05), P1=P1)
        if r.random() < .5: kg.update(xT=r.uniform(.2, .85))
        R.keys.add(hash(repr(kg)))
        ladder(R, "size_control_valve_g by Q", kg, lambda v: cv.size_control_valve_g(Q=v, P2=P1*(1 - x), **kg), steps(r, .01, 2, 6), 1, 1e-9, 0, 1)
        ladder(R, "size_control_valve_g by P2", kg, lambda v: cv.size_control_valve_g(Q=.2, P2=v, **kg), steps(r, .05*P1, .98*P1, 6), 1, 1e-9, 0, 1)
        for q, lo, hi, d in (("T", 200, 900, 1), ("Z", .4, 1.1, 1), ("MW", 2, 90, 1)):
            k3 = {k: v for k, v in kg.items() if k != q}
            ladder(R, "size_control_valve_g by " + q, kg, lambda v: cv.size_control_valve_g(Q=.2, P2=P1*(1 - x), **{q: v}, **k3), steps(r, lo, hi, 4), d, 1e-9, 0, 1)
        D1, d = r.uniform(.05, .3), 0
        kp = dict(kw, Q=r.uniform(.005, .05), d=D1*r.uniform(.5, 1), D1=D1)
        ladder(R, "size_control_valve_l with reducers, by Q", kp, lambda v: cv.size_control_valve_l(**{**kp, "Q": v, "D2": D1}), steps(r, .005, .03, 4), 1, 1e-9, 0, 1)
def s_drag(r, R):
    import fluids.drag as dr
    M = [None, "Clift_Gauvin", "Haider_Levenspiel", "Morrison", "Cheng", "Swamee_Ojha", "Barati", "Mikhailov_Freire", "Stokes", "Song_Xu"]   # continuous in Re
    for m in M:
        D = 10**r.uniform(-5, -2.3); kw = dict(rhop=r.uniform(1200, 8000), rho=r.choice([1.2, 1000., r.uniform(1, 1100)]), mu=10**r.uniform(-5, -2)); R.keys.add(hash(repr((m, kw))))
        ladder(R, "v_terminal(%s) by D" % m, dict(kw), lambda v: dr.v_terminal(D=v, Method=m, **kw), steps(r, 1e-5, 1e-3, 4), 1, 1e-7, 0, 1)
        k2 = {k: v for k, v in kw.items() if k != "rhop"}
        ladder(R, "v_terminal(%s) by rhop" % m, dict(kw, D=D), lambda v: dr.v_terminal(D=D*.1, rhop=v, Method=m, **k2), steps(r, 1.1*kw["rho"] + 100, 9000, 4), 1, 1e-7, 0, 1)
    for _ in range(3):
        kw = dict(D=10**r.uniform(-4.5, -2.5), rhop=r.uniform(1500, 8000), rho=r.choice([1.2, 1000.]), mu=10**r.uniform(-5, -3), V=0.)
        ladder(R, "integrate_drag_sphere by t", kw, lambda v: dr.integrate_drag_sphere(t=v, **kw), steps(r, .001, 1., 4), 1, 1e-5, 0, 1)
def s_gas(r, R):
    import fluids.compressible as c
    E = ("Panhandle_A", "Panhandle_B", "Weymouth", "Spitzglass_high", "Spitzglass_low", "Oliphant", "Muller", "IGT")
    for n in E:
        f = getattr(c, n)
        P1 = 10**r.uniform(5.5, 7.2)
        kw = dict(SG=r.uniform(.5, 1.2), Tavg=r.uniform(270, 340), L=10**r.uniform(2, 5.2), D=r.uniform(.05, 1.2), P1=P1, P2=P1*r.uniform(.5, .95))
        if n == "Spitzglass_low": kw.update(P1=101325. + 6000, P2=101325. + r.uniform(500, 5000))
        if n in ("Muller", "IGT"): kw["mu"] = 1.1e-5
        R.keys.add(hash((n, repr(kw))))
        def ask(q):
            k = {a: b for a, b in kw.items() if a != q}
            return lambda v: f(**{q: v}, **k)
        for q, lo, hi, d in (("L", 100., 1e5, -1), ("D", .05, 1.5, 1), ("SG", .4, 1.5, -1), ("Tavg", 250., 350., -1), ("P2", kw["P1"]*.4 if n != "Spitzglass_low" else 101400., kw["P1"]*.999, -1)):
            ladder(R, "%s by %s" % (n, q), kw, ask(q), steps(r, lo, hi, 5), d, 1e-9, 0, 1)
        Q = f(**kw); k = {a: b for a, b in kw.items() if a != "P2"}
        ladder(R, n + " outlet pressure by Q", dict(k, Q=Q), lambda v: f(Q=v, **k), steps(r, .05*Q, Q, 4), -1, 1e-9)
        k = {a: b for a, b in kw.items() if a != "D"}
        ladder(R, n + " diameter by Q", dict(k, Q=Q), lambda v: f(Q=v, **k), steps(r, .05*Q, 5*Q, 4), 1, 1e-9, 0, 1)
        k = {a: b for a, b in kw.items() if a != "L"}
        ladder(R, n + " length by Q", dict(k, Q=Q), lambda v: f(Q=v, **k), steps(r, .05*Q, 5*Q, 4), -1, 1e-9, 0, 1)
    kw = dict(rho=11.3, fd=r.uniform(.002, .03), P1=1e6, L=1000., D=r.uniform(.2, .6))
    ladder(R, "isothermal_gas m by P2", kw, lambda v: c.isothermal_gas(P2=v, **kw), steps(r, 8e5, 9.99e5, 6), -1, 1e-9, 0, 1)
    m = c.isothermal_gas(P2=9e5, **kw)
    ladder(R, "isothermal_gas P2 by m", dict(kw, m=m), lambda v: c.isothermal_gas(m=v, **kw), steps(r, .05*m, m, 5), -1, 1e-9, 0, 1)
def s_pipe(r, R):
    """round-up selections never shrink as the duty grows, and never undershoot it"""
    import fluids.piping as pi, fluids.pump as pu, fluids.safety_valve as sv
    for sch in r.sample(["40", "80", "10", "STD", "XS", "20", "160", "5S", "80S", "10S"], 4):
        for q in ("Di", "Do"):
            for i in (1, 2): ladder(R, "nearest_pipe(%s)[%d] schedule %s" % (q, i, sch), {}, lambda v: pi.nearest_pipe(schedule=sch, **{q: v})[i], steps(r, .012, .5, 12), 1, 1e-12, 0, 1)
            i = 1 if q == "Di" else 2
            ladder(R, "nearest_pipe(%s) margin schedule %s" % (q, sch), {}, lambda v: 0. if pi.nearest_pipe(schedule=sch, **{q: v})[i] >= v*(1 - 1e-9) else -1., steps(r, .012, .5, 12), 1, 0, 0, 1)
    ladder(R, "motor_round_size", {}, pu_r := (lambda v: pu.motor_round_size(v)), steps(r, 100., 1.8e5, 30), 1, 0, 0, 1)
    ladder(R, "motor_round_size margin", {}, lambda v: 0. if pu_r(v) >= v*(1 - 1e-9) else -1., steps(r, 100., 1.8e5, 30), 1, 0, 0, 1)
    ladder(R, "API520_round_size", {}, lambda v: sv.API520_round_size(v), steps(r, 1e-5, .016, 30), 1, 0, 0, 1)
    ladder(R, "API520_round_size margin", {}, lambda v: 0. if sv.API520_round_size(v) >= v*(1 - 1e-9) else -1., steps(r, 1e-5, .016, 30), 1, 0, 0, 1)
    for s in ("BWG", "SWG", "AWG"):
        ladder(R, "t_from_gauge " + s, {}, lambda v: pi.t_from_gauge(int(v), schedule=s), list(range(1, 31)), -1, 0, 0, 1)
SEQ = {f.__name__[2:]: f for f in (s_tank, s_psd, s_atm, s_valve, s_drag, s_gas, s_pipe)}
def sequence(name, seed, K):
    warnings.simplefilter("ignore"); R = Result("sequence." + name)
    for i in range(K): SEQ[name](random.Random("%s/%s/%s" % (seed, name, i)), R)
    if not R.samples: R.samples.append({"case": R.name, "args": {}, "observed": "%d ordered values" % R.judged})
    return R
