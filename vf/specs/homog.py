"""P42 invariance under a change of the coherent system of units; what each function is invariant under is pinned in data/homog.json"""
import json, os, math, random, inspect, copy
from ..engine import SKIP, Err, Spec
from .. import corpus as co
from .unitsif import T, CLASSES, plain_dim, parse, eff, rough, variable
BY = {n.split(".")[-1]: n for n in co.corpus() if not n.startswith("numerics")}
DIMS = ("length", "mass", "time", "temperature", "substance", "current")
S = []
def scale(v, f):
    import numpy as np
    if isinstance(v, np.ndarray): return v*f
    if isinstance(v, (list, tuple)): return type(v)(scale(i, f) for i in v)
    return v*f if isinstance(v, (int, float)) and not isinstance(v, bool) else v
FIX = {("pdf_lognormal", "out"): {"length": -1}, ("pdf_Rosin_Rammler", "out"): {"length": -1}, ("pdf_Gates_Gaudin_Schuhman", "out"): {"length": -1}, ("pdf_Rosin_Rammler", "k"): None}
def udims(u): return {} if plain_dim(u) else eff(parse(u))[1]
def fac(u, lam):
    f = 1.0
    for k, e in (u if isinstance(u, dict) else udims(u)).items(): f *= lam.get(k, 1.0)**e
    return f
def full_args(name, a):
    """omitted parameters with a documented unit and a number as default are passed explicitly, so that they scale too"""
    import fluids; a = dict(a)
    for k, p in inspect.signature(getattr(fluids, name)).parameters.items():
        if k not in a and isinstance(p.default, (int, float)) and not isinstance(p.default, bool) and udims(T[name]["inp"].get(k)): a[k] = float(p.default)
    return a
# modes: constants of nature left in the formula
def draw_lam(r, dims, mode, P=0):
    lam = {k: 1.0 for k in DIMS}
    ch = [.25, .5, 2., 4., .125, 16., .0625, 8.] + [3., 1/7., 1.1]*(r.random() < .4)
    if "g" in mode:
        dims = set(dims)
        if "length" in dims: t = r.choice((.25, .5, 2., 4.)); lam["time"] = t; lam["length"] = t*t
        dims -= {"length", "time"}
    for k in dims: lam[k] = r.choice(ch)
    if len(dims) > 1 and r.random() < .3:
        one = r.choice(sorted(dims))
        for k in dims:
            if k != one: lam[k] = 1.0
    if "R" in mode: lam["temperature"] = lam["mass"]*lam["length"]**2/lam["time"]**2/lam["substance"]
    return lam
def gen_for(name, h):
    def gen(r):
        a = full_args(name, co.draw(r, BY[name]))
        return {"a": a, "lam": draw_lam(r, h["dims"], h["mode"])}
    return gen
def call(name, a):
    import fluids
    return getattr(fluids, name)(**a)
def scaled(name, a, lam): return {k: scale(v, fac(T[name]["inp"].get(k), lam)) for k, v in a.items()}
def target_for(name):
    def t(a, lam): return call(name, scaled(name, a, lam))
    return t
def pairs(name, a, y0, y1):
    outs = T[name]["out"]
    if name in CLASSES:
        return [(u, getattr(y0, k, None), getattr(y1, k, None), k) for k, u in T[name]["attr"].items()]
    if isinstance(y0, dict): m = dict(map(tuple, outs)); return [(m.get(k, "-"), y0[k], y1.get(k), k) for k in y0]
    if isinstance(y0, tuple) and len(outs) == len(y0): return [(o[1], p, q, o[0]) for o, p, q in zip(outs, y0, y1)]
    v = variable(name, a)
    return [(FIX.get((name, "out")) or (v if v is not None else outs[0][1] if outs else "-"), y0, y1, "result")]
def differ(w, q, rtol):
    """None when same"""
    import numpy as np
    if isinstance(w, (list, tuple, np.ndarray)):
        if not isinstance(q, (list, tuple, np.ndarray)) or len(q) != len(w): return True
        return any(differ(i, j, rtol) for i, j in zip(w, q))
    if isinstance(w, bool) or isinstance(w, str) or w is None: return w != q
    if isinstance(w, (int, float)):
        if not isinstance(q, (int, float)): return True
        return not (w == q or (w != w and q != q) or abs(w - q) <= rtol*abs(w) or abs(w) < 1e-290)
    return False
def compare(name, a, lam, y0, y1, rtol):
    if type(y0) is not type(y1) and not (isinstance(y0, (int, float)) and isinstance(y1, (int, float))): return "type %s against %s" % (type(y1).__name__, type(y0).__name__)
    for u, p, q, lab in pairs(name, a, y0, y1):
        w = scale(p, fac(u, lam))
        if differ(w, q, rtol): return "%s: %r in scaled units, %r expected (%r unscaled)" % (lab, q, w, p)
def judge(name, h, d, got):
    a, lam = d["a"], d["lam"]; rtol = h.get("rtol", 1e-8)
    try: y0 = call(name, copy.deepcopy(a))
    except Exception as x: y0 = Err(x)
    if isinstance(y0, Err) and isinstance(got, Err): return None
    odd = any(math.frexp(v)[0] != .5 for v in lam.values())   # not only exact powers of two: every product rounds
    if odd: rtol = max(rtol, 1e-5)
    if odd and name[:2] in ("V_", "SA"): return SKIP      # volumes near 0 by cancellation
    if odd and (isinstance(y0, Err) or isinstance(got, Err)) or any(isinstance(y, Err) and "complex" in str(y.e) for y in (y0, got)): return SKIP
    if (isinstance(y0, Err) or isinstance(got, Err)) and name == "Stichlmair_flood": return SKIP  # Newton starts from a guess in SI
    if isinstance(y0, Err) or isinstance(got, Err): r = "unscaled %r, scaled %r" % (y0, got)
    else:
        if rough(y0) or rough(got): return SKIP
        r = compare(name, a, lam, y0, got, rtol)
    if r is None: return None
    # a threshold or a badly conditioned point: the unscaled function moved by rounding
    rr = random.Random(5)
    for s in [3e-16, 1e-15, 1e-14, 1e-13, 1e-12]*8:
        b = {k: v*(1 + s*rr.choice((-1, 1))) if type(v) is float else v for k, v in a.items()}
        try: y = call(name, b)
        except Exception as x:
            if isinstance(y0, Err): continue
            return SKIP
        if isinstance(y0, Err): return SKIP
        if rough(y) or type(y) is not type(y0): return SKIP
        for u, p, q, lab in pairs(name, a, y0, y):
            if differ(p, q, rtol): return SKIP
    return r
def build():
    p = os.path.join(co.HERE, "data", "homog.json")
    if not os.path.exists(p): return
    H = json.load(open(p))
    for name in sorted(H["functions"]):
        h = H["functions"][name]
        S.append(Spec("homogeneous." + name, {}, None, target=target_for(name), gen=gen_for(name, h), post=(lambda n, h: lambda d, got: judge(n, h, d, got))(name, h), floor=0, sites=False))
build()
