"""P23/P24 particle size distributions: moments, conversions and quantiles from their definitions"""
from math import *
from ..dom import *
from ..lib import adder
from ..engine import Raises, SKIP, Approx, Err, Spec, Within, close
S, T = [], []
s = adder(S, "particle_size_distribution")
def fm():
    import fluids.particle_size_distribution as m
    return m
def Phi(x):
    from scipy.special import ndtr
    return float(ndtr(x))
def ginc(a, x):
    from scipy.special import gammainc
    return float(gammainc(a, x))
def gincc(a, x):
    from scipy.special import gammaincc
    return float(gammaincc(a, x))
class Logn:
    def __init__(s, d_characteristic, s_): s.dc, s.s = d_characteristic, s_
    def pdf(s, d): return exp(-.5*(log(d/s.dc)/s.s)**2)/(d*s.s*sqrt(2*pi)) if d > 0 else 0.0
    def mom(s, n, a, b):
        f = lambda x: -inf if x <= 0 else (log(x/s.dc) - n*s.s*s.s)/s.s if x < inf else inf
        p, q = f(a), f(b)
        return s.dc**n*exp(.5*(n*s.s)**2)*(Phi(q) - Phi(p) if p < 0 else Phi(-p) - Phi(-q))
    def top(s): return inf
    def ok(s, n): return abs(n)*s.s < 9
class GGS:
    def __init__(s, dc, m): s.dc, s.m = dc, m
    def pdf(s, d): return s.m*d**(s.m - 1)/s.dc**s.m if d <= s.dc else 0.0
    def mom(s, n, a, b):
        a, b = min(a, s.dc), min(b, s.dc)
        return s.m/(s.m + n)*(b**(s.m + n) - (a**(s.m + n) if a > 0 else 0))/s.dc**s.m
    def top(s): return s.dc
    def ok(s, n): return s.m + n > .3
class RR:
    def __init__(s, k, m): s.k, s.m = k, m
    def pdf(s, d): return s.k*s.m*d**(s.m - 1)*exp(-s.k*d**s.m)
    def mom(s, n, a, b):
        c = 1 + n/s.m
        f = lambda x: 0.0 if x <= 0 else 1.0 if x == inf else ginc(c, s.k*x**s.m)
        h = lambda x: 1.0 if x <= 0 else 0.0 if x == inf else gincc(c, s.k*x**s.m)
        return s.k**(-n/s.m)*gamma(c)*(f(b) - f(a) if f(a) < .5 else h(a) - h(b))
    def top(s): return inf
    def ok(s, n): return .45 < 1 + n/s.m < 40
def make(fam, par):
    return {"L": Logn, "G": GGS, "R": RR}[fam](*par)
LD, LS, LM = L(1e-7, 1e-1), L(.05, 2.0), L(.2, 6)
s("pdf_lognormal", lambda d, d_characteristic, s: Logn(d_characteristic, s).pdf(d), d=Z(1, 1e-8), d_characteristic=LD, s=LS, _n=.4)
s("cdf_lognormal", lambda d, d_characteristic, s: Approx(Logn(d_characteristic, s).mom(0, 0, d), 1e-8, 1e-15), d=Z(1, 1e-8), d_characteristic=LD, s=LS, _n=.4)
s("pdf_Gates_Gaudin_Schuhman", lambda d, d_characteristic, m: GGS(d_characteristic, m).pdf(d), d=L(1e-8, 1), d_characteristic=LD, m=LM, _n=.4)
s("cdf_Gates_Gaudin_Schuhman", lambda d, d_characteristic, m: min(1.0, d/d_characteristic)**m, d=Z(1, 1e-8), d_characteristic=LD, m=LM, _n=.4)
s("pdf_Rosin_Rammler", lambda d, k, m: RR(k, m).pdf(d), d=L(1e-8, 1), k=L(1e-2, 1e6), m=LM, _n=.4)
s("cdf_Rosin_Rammler", lambda d, k, m: -expm1(-k*d**m), d=Z(1, 1e-8), k=L(1e-2, 1e6), m=LM, _n=.4, _atol=3e-16)
def bi(nm, fam, names):
    """the *_basis_integral functions are antiderivatives: only their differences are specified"""
    def tgt(a, b, p, n):
        f = getattr(fm(), nm)
        return f(b, *p, n) - f(a, *p, n)
    def gen(r):
        if fam == "L": p = [LD.sample(r), r.uniform(.05, 1.6)]; c = p[0]
        elif fam == "G": p = [LD.sample(r), LM.sample(r)]; c = p[0]*.5
        else: m = LM.sample(r); c = LD.sample(r); p = [c**-m, m]
        a = 0.0 if r.random() < .3 else c*exp(r.gauss(0, 1)); b = c*exp(r.gauss(0, 1))
        return dict(a=min(a, b), b=max(a, b), p=p, n=r.choice((-3, -2, -1, 0, 1, 2, 3, r.uniform(-3, 4))))
    def ref(a, b, p, n):
        o = make(fam, p)
        if not o.ok(n) or b > o.top(): return SKIP
        w = o.mom(n, a, b); tot = o.mom(n, 0, o.top())
        return Approx(w, 1e-7, (1e-7 if fam == 'R' else 1e-11)*tot)
    S.append(Spec("particle_size_distribution." + nm, {}, ref, target=tgt, gen=gen, n=.6))
bi("pdf_lognormal_basis_integral", "L", 0); bi("pdf_Gates_Gaudin_Schuhman_basis_integral", "G", 0); bi("pdf_Rosin_Rammler_basis_integral", "R", 0)
# ---- spacing
SIEVES = {"ISO 3310-1": 1, "ISO 3310-1 R20": 1, "ISO 3310-1 R20/3": 1, "ISO 3310-1 R40/3": 1, "ISO 3310-1 R10": 1, "ASTM E11": 1}
from .psd_tables import OPEN
def spacing(d_min, d_max, pts, method):
    if method == "logarithmic":
        if d_min is None or d_max is None: return Raises(ValueError)
        return [d_min*(d_max/d_min)**(i/(pts - 1.0)) for i in range(pts)]
    if method == "linear":
        if d_min is None or d_max is None: return SKIP
        return [d_min + (d_max - d_min)*(i/(pts - 1.0)) for i in range(pts)]
    if method[0] in "Rr":
        if (d_min is None) == (d_max is None): return Raises(ValueError)
        q = 10**(1/float(method[1:]))
        return [d_min*q**i for i in range(pts)] if d_min is not None else [d_max/q**i for i in range(pts - 1, -1, -1)]
    if method in OPEN:
        if d_min is None or d_max is None: return Raises(ValueError)
        return [d for d in sorted(OPEN[method]) if d_min <= d <= d_max]
    return Raises(ValueError)
def gsp(r):
    a, b = sorted((exp(r.uniform(-12, -2)), exp(r.uniform(-12, -2))))
    if r.random() < .3: a = r.choice(OPEN["ISO 3310-1"])
    if r.random() < .3: b = r.choice(OPEN["ASTM E11"])
    m = r.choice(("logarithmic", "linear", "R10", "r5", "R40", "R2.5", "logarithmic", "Bad") + tuple(OPEN))
    if m[0] in "Rr" and r.random() < .9:
        if r.random() < .5: a = None
        else: b = None
    elif r.random() < .08:
        if r.random() < .5: a = None
        else: b = None
    return dict(d_min=a, d_max=b, pts=r.randint(2, 60), method=m)
S.append(Spec("particle_size_distribution.psd_spacing", {}, spacing, gen=gsp, n=.8))
# ---- continuous distributions: a sequence of questions to one object
def gq(r, o, lo, hi, c):
    """one question"""
    n = r.choice((None, 0, 1, 2, 3, 3, -1, 4))
    d = r.choice((c*exp(r.gauss(0, 1.2)), c*exp(r.gauss(0, .4)), lo or c, hi if hi < inf else c, c*1e4, c*1e-4))
    k = r.choice(("pdf", "cdf", "delta_cdf", "dn", "mean_size", "mean_size_ISO", "vssa", "fractions_discrete", "cdf_discrete", "ds_discrete", "cdf", "pdf"))
    if k in ("pdf", "cdf"): return [k, d, n]
    if k == "delta_cdf": return [k, d*r.random(), d, n]
    if k == "dn": return [k, r.choice((r.random(), 10**r.uniform(-6, -1), 1 - 10**r.uniform(-6, -1), 0.0, 1.0, -.1, 1.1)), n]
    if k in ("mean_size", "mean_size_ISO"):
        return [k, r.randint(-3, 6), r.randint(-2, 4)]
    if k == "vssa": return [k]
    if k == "ds_discrete": return [k, r.choice((1e-9, 1e-3, .05)), r.randint(2, 12)]
    return [k, sorted(c*exp(r.gauss(0, 1)) for _ in range(r.randint(1, 6))), n]
CLS = {"L": "PSDLognormal", "G": "PSDGatesGaudinSchuhman", "R": "PSDRosinRammler"}
def gcont(r):
    fam = r.choice("LLGR")
    if fam == "L": p = [LD.sample(r), r.uniform(.05, 1.2)]; c = p[0]
    elif fam == "G": p = [LD.sample(r), L(.3, 8).sample(r)]; c = p[0]*.7
    else: m = L(.5, 6).sample(r); c = LD.sample(r); p = [c**-m, m]
    kw = {}
    if r.random() < .7: kw["order"] = r.choice((0, 1, 2, 3))
    if r.random() < .35: kw["d_min"] = c*exp(r.uniform(-2, -.1))
    if r.random() < .35: kw["d_max"] = c*exp(r.uniform(.1, 2))
    qs = [gq(r, None, kw.get("d_min", 0), kw.get("d_max", inf), c) for _ in range(r.randint(1, 6))]
    return dict(fam=fam, p=p, kw=kw, qs=qs)
def ask(o, q):
    k = q[0]
    try:
        if k == "vssa": return o.vssa
        if k == "ds_discrete": return o.ds_discrete(limit=q[1], pts=q[2])
        if k in ("pdf", "cdf", "dn", "fractions_discrete", "cdf_discrete"): return getattr(o, k)(q[1]) if q[2] is None else getattr(o, k)(q[1], n=q[2])
        if k == "delta_cdf": return o.delta_cdf(q[1], q[2]) if q[3] is None else o.delta_cdf(q[1], q[2], n=q[3])
        return getattr(o, k)(*q[1:])
    except AttributeError: raise
    except Exception as e: return Err(e)
def tcont(fam, p, kw, qs):
    nm = {"L": ("d_characteristic", "s"), "G": ("d_characteristic", "m"), "R": ("k", "m")}[fam]
    o = getattr(fm(), CLS[fam])(**dict(zip(nm, p)), **kw)
    out = [ask(o, q) for q in qs]
    return out
class Oracle:
    def __init__(s, o, order, a, b):
        s.o, s.r, s.a, s.b = o, order, a, b
    def M(s, n, x=None):
        x = s.b if x is None else min(max(x, s.a), s.b)
        return s.o.mom(n, s.a, x)
    def ok(s, n):
        if n is None or n == s.r: return True
        return s.o.ok(n - s.r)
    def share(s, n):
        """the part of the untruncated moment that lies inside the truncation: the code subtracts two untruncated integrals"""
        n = 0 if n is None else n - s.r
        return s.M(n)/s.o.mom(n, 0, s.o.top())
    def pdf(s, d, n):
        if not s.a <= d <= s.b: return 0.0
        n = s.r if n is None else n
        return d**(n - s.r)*s.o.pdf(d)/s.M(n - s.r)
    def cdf(s, d, n):
        n = s.r if n is None else n
        return s.M(n - s.r, d)/s.M(n - s.r)
    def mean(s, p, q):
        h = 1e-4
        if p != q: return (s.M(p - s.r)/s.M(q - s.r))**(1.0/(p - q))
        return exp((log(s.M(p - s.r + h)) - log(s.M(p - s.r - h)))/(2*h))
def judge(q, got, O):
    """None | reason | SKIP for one answered question"""
    k = q[0]
    ca = 1e-10 if not isinstance(O.o, RR) else 1e-7 # the zero limit of that integral is taken at a small diameter
    if k not in ("mean_size", "mean_size_ISO", "vssa"):
        sh = O.share(q[-1] if k != "ds_discrete" else None)
        if sh < 1e-6: return SKIP
        ca /= sh
    n = q[-1] if k in ("pdf", "cdf", "dn", "delta_cdf", "fractions_discrete", "cdf_discrete") else None
    if not O.ok(n): return SKIP
    if k == "pdf":
        w = O.pdf(q[1], n)
        if O.a and abs(q[1]/O.a - 1) < 1e-12 or O.b < inf and abs(q[1]/O.b - 1) < 1e-12: return SKIP
        return close(got, Approx(w, 1e-7, 0), 0, 0)
    if k == "cdf": return close(got, Approx(O.cdf(q[1], n), 1e-9, ca), 0, 0)
    if k == "delta_cdf": return close(got, Approx(O.cdf(q[2], n) - O.cdf(q[1], n), 1e-9, 2*ca), 0, 0)
    if k == "dn":
        f = q[1]
        if f < 0 or f > 1: return None if isinstance(got, Err) and isinstance(got.e, ValueError) else "dn(%r) was not refused: %r" % (f, got)
        if isinstance(got, Err): return "dn raised %r" % got
        if f == 0: return close(got, O.a, 1e-12, 0)
        if not (got > 0 and O.a*(1 - 1e-9) <= got <= (O.b if O.b < inf else 1e300)*(1 + 1e-9)): return "quantile %r outside the distribution" % got
        e = O.cdf(got, n)
        return None if abs(e - f) < 2e-9 + 2*ca else "cdf(dn(%r)) = %r" % (f, e)
    if k in ("mean_size", "mean_size_ISO", "vssa"):
        if k == "vssa": a, b = 3, 2
        elif k == "mean_size": a, b = q[1], q[2]
        else: a, b = q[1] + q[2], q[2]
        if not (O.o.ok(a - O.r) and O.o.ok(b - O.r) and O.o.ok(a - O.r - .01)): return SKIP
        sh = min(O.share(a), O.share(b))
        if sh < (1e-3 if a == b else 1e-6): return SKIP
        w = O.mean(a, b)
        if k == "vssa": w = 6/w
        return close(got, Approx(w, 2e-5 + 1e-6/sh if a == b else 1e-7, 0), 0, 0)
    if k == "cdf_discrete": return close(got, [Approx(O.cdf(d, n), 1e-9, ca) for d in q[1]], 0, 0)
    if k == "fractions_discrete":
        c = [O.cdf(d, n) for d in q[1]]
        return close(got, [Approx(b - a, 1e-9, 2*ca) for a, b in zip([0.0] + c, c)], 0, 0)
    if k == "ds_discrete":
        if isinstance(got, Err): return "ds_discrete raised %r" % got
        if len(got) != q[2]: return "wrong number of points %d" % len(got)
        if abs(O.cdf(got[0], None) - q[1]) > 1e-10 + 1e-6*q[1] or abs(O.cdf(got[-1], None) - (1 - q[1])) > 1e-9: return "mesh ends at cdf %r, %r" % (O.cdf(got[0], None), O.cdf(got[-1], None))
        w = [got[0]*(got[-1]/got[0])**(i/(q[2] - 1.0)) for i in range(q[2])]
        return close(got, w, 1e-9, 0)
def pcont(a, got):
    if isinstance(got, Err): return "raised %r" % got
    o = make(a["fam"], a["p"]); kw = a["kw"]
    O = Oracle(o, kw.get("order", 3), kw.get("d_min", 0.0), min(kw.get("d_max", inf), o.top()))
    if O.a >= O.b or O.M(0) < 1e-6: return SKIP
    n = 0
    for q, g in zip(a["qs"], got):
        if q[0] in ("pdf", "cdf") and a["fam"] == "G" and q[1] > o.dc*.999999 and q[1] < o.dc*1.000001: continue
        try: r = judge(q, g, O)
        except (ZeroDivisionError, OverflowError, ValueError): continue
        if r is SKIP: continue
        n += 1
        if r: return "%r: %s" % (q, r)
    return None if n else SKIP
S.append(Spec("particle_size_distribution.continuous", {}, None, target=tcont, gen=gcont, post=pcont, n=6))
# ---- user supplied scipy distribution
def gcust(r):
    d = gcont(r)
    while d["fam"] != "L": d = gcont(r)
    d["p"][1] = r.uniform(.15, .6)
    d["kw"].pop("d_min", None); d["kw"].pop("d_max", None)
    c = d["p"][0]
    # the moment integrals are quadratures up to d_excessive: keep that near the distribution
    d["kw"]["d_excessive"] = c*r.uniform(30, 60)
    if r.random() < .3: d["kw"]["d_max"] = c*exp(r.uniform(.2, 1))
    d["qs"] = [q for q in d["qs"] if q[0] not in ("dn", "ds_discrete") or q[-1] is None or r.random() < .1][:3] or [["cdf", c, 0]]
    return d
def tcust(fam, p, kw, qs):
    from scipy.stats import lognorm
    o = fm().PSDCustom(lognorm(s=p[1], scale=p[0]), **kw)
    return [ask(o, q) for q in qs]
def pcust(a, got):
    if isinstance(got, Err): return "raised %r" % got
    o = make("L", a["p"]); kw = a["kw"]
    O = Oracle(o, kw.get("order", 3), 0.0, min(kw.get("d_max", inf), kw["d_excessive"]))
    n = 0
    for q, g in zip(a["qs"], got):
        if q[0] in ("dn", "ds_discrete", "mean_size", "mean_size_ISO", "vssa", "fractions_discrete", "cdf_discrete", "delta_cdf"): 
            if q[0] in ("mean_size", "mean_size_ISO", "vssa"):
                x, y = (3, 2) if q[0] == "vssa" else (q[1], q[2]) if q[0] == "mean_size" else (q[1] + q[2], q[2])
                if x == y: continue
                w = O.mean(x, y)
                if q[0] == "vssa": w = 6/w
                r = close(g, Approx(w, 1e-5), 0, 0)
            else: continue
        elif q[0] == "cdf": r = close(g, Approx(O.cdf(q[1], q[2]), 1e-5, 1e-5), 0, 0) if q[1] < O.b else None
        else: r = close(g, Approx(O.pdf(q[1], q[2]), 1e-5, 0), 0, 0) if q[1] < O.b else None
        n += 1
        if r: return "%r: %s" % (q, r)
    return None if n else SKIP
S.append(Spec("particle_size_distribution.custom", {}, None, target=tcust, gen=gcust, post=pcust, n=.3))
# ---- sieve standards
def sieves(which):
    L = fm().sieve_spacing_options[which]
    return [[x.designation, x.opening, x.d_wire, x.d_wire_min, x.d_wire_max, x.max_opening, x.opening_inch] for x in L]
def psieve(a, got):
    if isinstance(got, Err): return SKIP
    des = [g[0] for g in got]
    for de, op, w, wl, wh, mo, oi in got:
        if abs(op - float(de)*1e-3) > 1e-12: return "opening of %s is %r m" % (de, op)
    if [g[1] for g in got] != sorted((g[1] for g in got), reverse=True): return "openings are not in descending order"
    if sorted(g[1] for g in got) != sorted(OPEN[a["which"]]): return "series differs from the standard"
    return None
def pwire(a, got):
    if isinstance(got, Err): return SKIP
    bad = []
    for de, op, w, wl, wh, mo, oi in got:
        if w is not None and not (wl <= w <= wh and .05*op < w < 3*op): bad.append(de + ":wire")
        if mo is not None and not op <= mo <= 1.8*op: bad.append(de + ":max")
        if oi is not None and abs(oi*.0254/op - 1) > .05: bad.append(de + ":inch")
    return "sieve attributes not in their documented units: %s" % " ".join(bad) if bad else None
from .psd_tables import WIREBAD
def wb(a, got):
    r = pwire(a, got)
    return isinstance(r, str) and set(r.split(": ")[1].split()) <= set(WIREBAD[a["which"]])
S.append(Spec("particle_size_distribution.sieves", dict(which=C(*OPEN)), None, target=sieves, post=psieve, n=.02, floor=3))
S.append(Spec("particle_size_distribution.sieve_attributes", dict(which=C(*OPEN)), None, target=sieves, post=pwire, n=.02, floor=3, known=[("P23-sieve-attribute-units", wb)]))
# ---- P24: discrete distributions
def gdisc(r):
    N = r.randint(2, 12) if r.random() < .93 else r.randint(13, 80); cls = r.random() < .5
    d0 = L(1e-7, 1e-1).sample(r)
    ds = [d0]
    for _ in range(N - 1 + cls): ds.append(ds[-1]*(1 + exp(r.uniform(-3, .7))*min(1, 12/N)))
    if cls and r.random() < .1: ds[0] = 0.0
    f = [0.0 if r.random() < .1 else r.random() for _ in range(N)]
    if sum(f) == 0: f[0] = 1.0
    cdf = r.random() < .3
    order = r.choice((0, 1, 2, 3))
    if cdf:
        t = sum(f); c = 0; f2 = []
        for x in f: c += x/t; f2.append(c)
        f2[-1] = 1.0; f = f2
    elif r.random() < .5: f = [x*100 for x in f]
    elif r.random() < .4: t = sum(f)*r.choice((1, 1, 1 + 1e-5, 1 - 3e-7, 1 - 1e-3)); f = [x/t for x in f]
    kw = {}
    if cdf: kw["cdf"] = True
    if order != 3 or r.random() < .5: kw["order"] = order
    if r.random() < .3: f = [int(x*50) + 1 for x in f] if not cdf else f
    qs = []
    for _ in range(r.randint(1, 6)):
        k = r.choice(("mean_size", "mean_size_ISO", "vssa", "di_power", "cdf", "pdf", "cdfnode", "monotone", "int", "Dis", "dn"))
        if k in ("mean_size", "mean_size_ISO"): qs.append([k, r.randint(-3, 6), r.randint(-2, 4)])
        elif k == "di_power": qs.append([k, r.randrange(N), r.choice((-3, -2, -1, 0, 1, 2, 3, 4))])
        elif k in ("cdf", "pdf"): qs.append([k, r.choice((ds[0]*r.random(), ds[-1]*(1 + r.random()), r.uniform(ds[0], ds[-1]), ds[-1], ds[0])), r.choice((None, 3, 0, 1, 2))])
        elif k == "cdfnode": qs.append([k, r.randrange(N)])
        elif k == "monotone": qs.append([k, r.choice((None, 3, 0, 1, 2)), sorted(r.uniform(0, 1.2*ds[-1]) for _ in range(12))])
        elif k == "int": qs.append([k] + sorted((r.uniform(ds[0], ds[-1]), r.uniform(ds[0], ds[-1]))))
        elif k == "dn": qs.append([k, r.random()])
        else: qs.append([k])
    return dict(ds=ds, f=f, kw=kw, qs=qs, np=r.random() < .3)
def tdisc(ds, f, kw, qs, np):
    if np:
        import numpy
        ds, f = numpy.array(ds), numpy.array(f)
    o = fm().ParticleSizeDistribution(ds, f, **kw)
    out = []
    for q in qs:
        k = q[0]
        try:
            if k in ("vssa", "Dis"): v = getattr(o, k)
            elif k in ("cdf", "pdf"): v = getattr(o, k)(q[1]) if q[2] is None else getattr(o, k)(q[1], n=q[2])
            elif k == "cdfnode": i = q[1] + (1 if o.size_classes else 0); v = o.cdf(ds[i])
            elif k == "monotone": v = [o.cdf(d) if q[1] is None else o.cdf(d, n=q[1]) for d in q[2]]
            elif k == "int":
                v = [o.delta_cdf(q[1], q[2]), gint(o.pdf, q[1], q[2], ds)]
            else: v = getattr(o, k)(*q[1:])
        except AttributeError: raise
        except Exception as e: v = Err(e)
        out.append(v)
    return [[list(map(float, x)) for x in (o.fractions, o.number_fractions, o.length_fractions, o.area_fractions, o.fraction_cdf, o.area_cdf, o.length_cdf, o.number_cdf)], o.N, o.size_classes, out]
GL = None
def gint(f, a, b, knots):
    """exact for the piecewise quadratic pdf"""
    ks = [a] + [float(k) for k in knots if a < k < b] + [b]
    t = 0.0
    for x, y in zip(ks, ks[1:]):
        m, h = .5*(x + y), .5*(y - x)
        g = h*sqrt(.6)
        t += h*(5*f(m - g) + 8*f(m) + 5*f(m + g))/9
    return t
def pdisc(a, got):
    if isinstance(got, Err):
        if a["ds"][0] == 0: return SKIP
        return "raised %r" % got
    ds, f, kw = a["ds"], a["f"], a["kw"]
    N = len(f); cls = len(ds) == N + 1
    if kw.get("cdf"): f = [f[0]] + [y - x for x, y in zip(f, f[1:])]
    else: t = fsum(f); f = [x/t for x in f]
    def dp(i, p):
        if not cls: return ds[i]**p
        lo, hi = ds[i], ds[i + 1]
        if p == -1: return log(hi/lo)/(hi - lo)
        return (hi**(p + 1) - lo**(p + 1))/((hi - lo)*(p + 1))
    # the integer number density of each class is what defines every basis
    r = kw.get("order", 3)
    if ds[0] == 0 and not cls: return SKIP
    # documented chain: given order -> volume basis -> other bases, through the powers of the bin diameters
    v = [dp(i, 3 - r)*x if r != 3 else x for i, x in enumerate(f)]
    t = fsum(v); v = [x/t for x in v] if r != 3 else v
    B = {3: v}
    for n in (0, 1, 2):
        w = [x/dp(i, 3 - n) for i, x in enumerate(v)]; t = fsum(w); B[n] = [x/t for x in w]
    fr, n_, c_, out = got
    if n_ != N or c_ != cls: return "N, size_classes = %r" % ((n_, c_),)
    for nm, g, n in (("fractions", fr[0], 3), ("number_fractions", fr[1], 0), ("length_fractions", fr[2], 1), ("area_fractions", fr[3], 2)):
        why = close(g, [Approx(x, 1e-9, 1e-14) for x in B[n]], 0, 0)
        if why: return nm + ": " + why
    for nm, g, n in (("fraction_cdf", fr[4], 3), ("area_cdf", fr[5], 2), ("length_cdf", fr[6], 1), ("number_cdf", fr[7], 0)):
        c, e = 0.0, []
        for x in B[n]: c += x; e.append(Approx(c, 1e-9, 1e-14))
        why = close(g, e, 0, 0)
        if why: return nm + ": " + why
    nf = B[0]
    for q, g in zip(a["qs"], out):
        k = q[0]
        why = None
        if ds[0] == 0 and k in ("mean_size", "mean_size_ISO", "di_power"): continue
        if k in ("mean_size", "mean_size_ISO"):
            p, s_ = (q[1], q[2]) if k == "mean_size" else (q[1] + q[2], q[2])
            try:
                if p != s_: e = (fsum(dp(i, p)*x for i, x in enumerate(nf))/fsum(dp(i, s_)*x for i, x in enumerate(nf)))**(1.0/(p - s_))
                else: e = exp(fsum(log(dp(i, 1))*dp(i, p)*x for i, x in enumerate(nf))/fsum(dp(i, p)*x for i, x in enumerate(nf)))
            except (ZeroDivisionError, OverflowError): continue
            why = close(g, Approx(e, 1e-8), 0, 0)
        elif k == "di_power": why = close(g, Approx(dp(q[1], q[2]), 1e-9), 0, 0)
        elif k == "Dis": why = close(g, [Approx(dp(i, 1), 1e-12) for i in range(N)], 0, 0)
        elif k == "vssa": why = close(g, Approx(6*fsum(x/dp(i, 1) for i, x in enumerate(B[3])), 1e-9), 0, 0)
        elif isinstance(g, Err): why = "raised %r" % g
        elif k == "cdf":
            if not -1e-12 <= g <= 1 + 1e-9: why = "cdf %r" % g
            elif q[1] >= ds[-1] and abs(g - 1) > 1e-9: why = "cdf %r at or above the largest diameter" % g
            elif cls and q[1] < ds[0] and q[2] in (None, 3) and g != 0: why = "cdf %r below the smallest diameter" % g
        elif k == "pdf":
            if not g >= 0: why = "pdf %r" % g
            elif (q[1] > ds[-1] or q[1] < 0) and g != 0: why = "pdf %r above the largest diameter" % g
            elif cls and q[1] < ds[0] and g != 0: why = "pdf %r below the smallest diameter" % g
        elif k == "cdfnode": why = close(g, Approx(fsum(B[3][:q[1] + 1]), 1e-9, 1e-12), 0, 0)
        elif k == "monotone":
            if q[1] in (None, 3):
                if any(y < x - 1e-12 for x, y in zip(g, g[1:])): why = "cdf decreases: %r" % (g,)
            else:
                # other bases: splines through the bins, extrapolated only below the second diameter
                z = [y for x, y in zip(q[2], g) if x >= ds[1]]
                if any(y < x - 1e-12 for x, y in zip(z, z[1:])): why = "cdf decreases: %r" % (g,)
        elif k == "int": why = close(g[0], Approx(g[1], 1e-7, 1e-9), 0, 0)
        elif k == "dn":
            pass
        if why: return "%r: %s" % (q, why)
    return None
def conv(a, got):
    """the violation concerns a pdf or cdf asked for in another order only"""
    b = dict(a); keep = [not (q[0] in ("cdf", "pdf", "monotone") and (q[2] if q[0] != "monotone" else q[1]) not in (None, 3)) for q in a["qs"]]
    if isinstance(got, Err) or all(keep): return False
    b["qs"] = [q for q, k in zip(a["qs"], keep) if k]
    return pdisc(b, got[:3] + [[g for g, k in zip(got[3], keep) if k]]) is None
T.append(Spec("particle_size_distribution.discrete", {}, None, target=tdisc, gen=gdisc, post=pdisc, n=6, known=[("P24-interpolated-conversion", conv)]))
# quantiles of the interpolated curve, and independence of earlier questions
def ginterp(r):
    d = gdisc(r)
    d["qs"] = [gq(r, None, d["ds"][0], d["ds"][-1], d["ds"][len(d["ds"])//2]) for _ in range(r.randint(2, 6))]
    d["inner"] = r.random() < .5
    return d
def tinterp(ds, f, kw, qs, np, inner):
    mk = lambda: (lambda o: o.interpolated if inner else o)(fm().ParticleSizeDistribution(list(ds), list(f), **kw))
    o = mk()
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return [ask(o, q) for q in qs], [ask(mk(), q) for q in qs], [mk().cdf(x) for x in ds]
def pinterp(a, got):
    if isinstance(got, Err): return SKIP if a["ds"][0] == 0 else "raised %r" % got
    for q, g, h in zip(a["qs"], got[0], got[1]):
        if isinstance(g, Err) and isinstance(h, Err): continue
        if isinstance(g, float) and isnan(g) and isnan(h): continue
        why = close(g, h, 1e-6, 1e-12)
        if why: return "%r: the answer depends on earlier questions: %s" % (q, why)
        if q[0] == "dn" and q[2] in (None, 3) and 0 < q[1] < 1 and not isinstance(g, Err):
            if not a["ds"][0]*0 <= g <= a["ds"][-1]*(1 + 1e-12): return "quantile %r outside the bins" % g
            ks = [0.0] + list(a["ds"]) if len(a["ds"]) == len(a["f"]) else list(a["ds"])
            cs = [0.0] + list(got[2]) if len(a["ds"]) == len(a["f"]) else list(got[2])
            for x0, x1, c0, c1 in zip(ks, ks[1:], cs, cs[1:]):
                if x0*(1 + 1e-9) < g < x1*(1 - 1e-9) and not c0 - 1e-9 <= q[1] <= c1 + 1e-9: return "dn(%r) = %r lies in a bin whose cdf runs from %r to %r" % (q[1], g, c0, c1)
    return None
T.append(Spec("particle_size_distribution.history", {}, None, target=tinterp, gen=ginterp, post=pinterp, n=2))

# fitting a distribution to binned data: never worse than where it started, and the objective it reports is that of its answer
NM = {"L": "lognormal", "G": "GGS", "R": "RR"}; CN = {"L": "PSDLognormal", "G": "PSDGatesGaudinSchuhman", "R": "PSDRosinRammler"}
def gfit(r):
    fam = r.choice("LLGR"); dc, N = exp(r.uniform(-14, -4)), r.randint(3, 14)
    par = {"L": (dc, r.uniform(.2, 1.2)), "G": (dc, r.uniform(.5, 3)), "R": (exp(r.uniform(-2, 4)), r.uniform(.5, 1.5))}[fam]
    if fam == "R": dc = par[0]**(-1/par[1])
    ds = [dc*exp(r.uniform(-3, -.5))]
    for _ in range(N): ds.append(ds[-1]*(1 + r.uniform(.1, .7)))
    f = [r.random() for _ in range(N)]
    return dict(fam=fam, ds=ds, f=f, par=par, exact=r.random() < .5, x0=r.choice((None, None, [p*exp(r.uniform(-.3, .3)) for p in par])) if fam != "R" else [p*exp(r.uniform(-.3, .3)) for p in par])
def tfit(fam, ds, f, par, exact, x0):
    import warnings
    m = fm()
    if exact: f = [max(make(fam, par).mom(0, a, b), 1e-12) for a, b in zip(ds, ds[1:])]
    o = m.ParticleSizeDistribution(list(ds), list(f))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = o.fit(x0, distribution=NM[fam]) if x0 is not None else o.fit(distribution=NM[fam]) if fam != "L" else o.fit()
    return [float(x) for x in g.x], float(g.fun), [float(x) for x in o.fractions]
def pfit(a, got):
    # the minimizer may step to parameters for which no distribution exists
    if isinstance(got, Err): return SKIP if isinstance(got.e, (ArithmeticError, ValueError)) else "raised %r" % got
    x, fun, fr = got; ds, fam = a["ds"], a["fam"]
    ref = a["f"] if not a["exact"] else [max(make(fam, a["par"]).mom(0, p, q), 1e-12) for p, q in zip(ds, ds[1:])]
    t = fsum(ref); ref = [v/t for v in ref]
    if any(abs(p - q) > 1e-9 for p, q in zip(ref, fr)): return "fractions %r are not %r" % (fr, ref)
    def obj(p):
        try: return fsum(abs(make(fam, p).mom(0, u, v) - w) for u, v, w in zip(ds, ds[1:], ref))
        except (ValueError, ZeroDivisionError, OverflowError): return None
    x0 = a["x0"] or [fsum(w*(u + v)/2 for u, v, w in zip(ds, ds[1:], ref)), {"L": .4, "G": 1.5}[fam]]
    o0, o1 = obj(x0), obj(x)
    if o0 is None or o1 is None or min(x) <= 0 or max(map(abs, x)) > 1e6: return SKIP
    if abs(o1 - fun) > 1e-6*(1 + abs(o1)): return "reported objective %r at %r is not %r" % (fun, x, o1)
    if fun > o0*(1 + 1e-6) + 1e-9: return "fitted %r with objective %r, worse than the start %r with %r" % (x, fun, x0, o0)
    return None
T.append(Spec("particle_size_distribution.fit", {}, None, target=tfit, gen=gfit, post=pfit, n=.15, floor=5))
