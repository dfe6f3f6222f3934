"""P21 tank volumes, wetted areas and the TANK class, against tankref's first-principles integrals"""
from math import *
from ..dom import *
from ..lib import adder
from ..engine import Raises, SKIP, Approx, Err, Spec
from . import tankref as T
S = []
s = adder(S, "geometry")
BAD = Raises(ValueError)
DD = C(1.0, 2.0, .1, 3.7, 12.5, 100.0)
HR = Mix(-.02, 1.1, 0.0, .5, 1.0, 1e-3, .999, .25, 1e-5, 1 - 1e-5)
AR = MixL(2e-4, 2, .5, .25, .01, .0099, .5000001, .4999999, .1)     # a/D
AS = MixL(2e-4, .5, .5, .25, .01, .0099, .00999999, .4999999, .1)
FR, KR = Mix(.55, 1.6, 1.0, .9, .8), Mix(.01, .3, .06, .1, .154, .17)
def fg():
    import fluids.geometry as g
    return g
def clampV(v, full, rt=2e-7): return Approx(v, rt, 1e-10*abs(full))
def fkfix(a):
    # a dish radius of at least R, and a knuckle smaller than both
    if not (a["k"] < .5 and a["f"] > max(a["k"] + .02, .5) and (1 - 2*a["k"])/(2*(a["f"] - a["k"])) < .999): return None
    return a
# ---- partial volumes, horizontal
def mkh(kind, name):
    def target(D, ar, hr, L, headonly=False):
        return getattr(fg(), name)(D, L, ar*D, hr*D, headonly=headonly)
    def ref(D, ar, hr, L, headonly=False):
        a, h = ar*D, hr*D
        if h <= 0: return 0.0
        shallow = kind == "spherical" and ar < .0101      # there the library integrates numerically a difference of large terms
        if shallow and (hr < .05 or hr > .99) or hr < 1e-6 or 0 < 1 - hr < 1e-6 or kind == "spherical" and 0 < abs(ar - .5) < 1e-5: return SKIP
        v = T.V_head_h(kind, D, a, h)
        at = 3e-8 if shallow else 1e-9
        return Approx(v, 1e-6, 2e-9*D**3 + at) if headonly else Approx(2*v + L*T.seg(D/2, h), 1e-6, 2e-9*(D**3 + L*D*D) + 2*at)
    s(name, ref, _target=target, _hull=False, D=DD, ar=AS if kind == "spherical" else AR, hr=HR, L=Z(50, .1), headonly=O(C(True, False), .2))
for k in ("conical", "ellipsoidal", "guppy", "spherical"): mkh(k, "V_horiz_" + k)
def vht(D, f, k, hr, L, headonly=False): return fg().V_horiz_torispherical(D, L, f, k, hr*D, headonly=headonly)
def rht(D, f, k, hr, L, headonly=False):
    h = hr*D
    if h <= 0: return 0.0
    if hr < 1e-9: return SKIP
    v, full = T.V_head_h("torispherical", D, 0, h, f, k), T.V_head_h("torispherical", D, 0, D, f, k)
    return Approx(v, 1e-5, 1e-7*full + 1e-9) if headonly else Approx(2*v + L*T.seg(D/2, h), 1e-5, 1e-7*(full + L*D*D) + 1e-9)
s("V_horiz_torispherical", rht, _target=vht, _fix=fkfix, _hull=False, _n=.12, D=DD, f=FR, k=KR, hr=HR, L=Z(50, .1), headonly=O(C(True, False), .2))
# ---- vertical volumes
HV = Mix(-.02, 3, 0.0, 1.0, .5, 1e-3, .999999, 1.000001)     # h over head depth
def mkv(kind):
    def t(D, ar, hr): return getattr(fg(), "V_vertical_" + kind)(D, ar*D, hr*ar*D)
    def r(D, ar, hr):
        a, h = ar*D, hr*ar*D
        if h <= 0: return 0.0
        return clampV(T.V_head_v(kind, D, a, min(h, a)) + pi/4*D*D*max(h - a, 0), D*D*a, 1e-10)
    s("V_vertical_" + kind, r, _target=t, _hull=False, D=DD, ar=AS if kind == "spherical" else AR, hr=HV, _n=.6)
    def t2(D, ar, hr): return getattr(fg(), "V_vertical_" + kind + "_concave")(D, -ar*D, hr*ar*D)
    def r2(D, ar, hr):
        a, h = ar*D, hr*ar*D
        if h <= 0: return 0.0
        return clampV(pi/4*D*D*h - T.V_head_v(kind, D, a, a) + (T.V_head_v(kind, D, a, a - h) if h < a else 0), D*D*a, 1e-9)
    s("V_vertical_" + kind + "_concave", r2, _target=t2, _hull=False, D=DD, ar=AS if kind == "spherical" else AR, hr=HV, _n=.6)
    def t3(D, ar, hr): return getattr(fg(), "SA_partial_vertical_" + kind + "_head")(D, ar*D, hr*ar*D)
    def r3(D, ar, hr): return clampV(T.SA_head_v(kind, D, ar*D, hr*ar*D), D*D, 1e-8)
    s("SA_partial_vertical_" + kind + "_head", r3, _target=t3, _known=[("P21-vertical-ellipsoid-near-sphere", lambda a, got: kind == "ellipsoidal" and 0 < abs(a["ar"] - .5) < 1e-5 and (isinstance(got, Err) or abs(got) < 10*a["D"]**2))], _hull=False, D=DD, ar=MixL(2e-4, .5, 0.0, .5, .25, .1) if kind == "spherical" else MixL(2e-4, 2, 0.0, .5, .25, .501, .499, .1), hr=HV, _n=.6)
for k in ("conical", "ellipsoidal", "spherical"): mkv(k)
def dep(D, f, k): return sum(T.tori(D, f, k)[1:])
def vt(D, f, k, hr): return fg().V_vertical_torispherical(D, f, k, hr*dep(D, f, k))
def rvt(D, f, k, hr):
    a = dep(D, f, k); h = hr*a
    return 0.0 if h <= 0 else clampV(T.V_head_v("torispherical", D, a, min(h, a), f, k) + pi/4*D*D*max(h - a, 0), D*D*a, 1e-9)
FK = dict(_fix=fkfix, _hull=False, D=DD, f=FR, k=KR)
s("V_vertical_torispherical", rvt, _target=vt, hr=HV, _n=.6, **FK)
def vtc(D, f, k, hr): return fg().V_vertical_torispherical_concave(D, f, k, hr*dep(D, f, k))
def rvtc(D, f, k, hr):
    a = dep(D, f, k); h = hr*a
    if abs(hr - 1) < 1e-9: return SKIP
    W = lambda x: T.V_head_v("torispherical", D, a, x, f, k)
    return 0.0 if h <= 0 else clampV(pi/4*D*D*h - W(a) + (W(a - h) if h < a else 0), D*D*a, 1e-8)
s("V_vertical_torispherical_concave", rvtc, _target=vtc, hr=HV, _n=.6, **FK)
def svt(D, f, k, hr): return fg().SA_partial_vertical_torispherical_head(D, f, k, hr*dep(D, f, k))
s("SA_partial_vertical_torispherical_head", lambda D, f, k, hr: clampV(T.SA_head_v("torispherical", D, 0, hr*dep(D, f, k), f, k), D*D, 1e-8), _target=svt, hr=HV, _n=.6, **FK)
# ---- wetted areas, horizontal
def mks(kind):
    n = "SA_partial_horiz_" + kind + "_head"
    def t(D, ar, hr): return getattr(fg(), n)(D, ar*D, hr*D)
    def r(D, ar, hr):
        if kind == "conical": return Approx(hypot(ar, .5)/.5*T.seg(D/2, min(max(hr, 0), 1)*D), 3e-8, 1e-7*D*D)   # constant slope
        return Approx(T.SA_head_h(kind, D, ar*D, hr*D), 1e-6 if kind != "guppy" else 3e-4 if hr > .9999 else 3e-6, 1e-8*D*D + 5e-9)
    kn = [("P21-guppy-hemisphere", lambda a, got: a["ar"] == .5 and abs(got - pi*.5*a["D"]*a["hr"]*a["D"]) < 1e-9*a["D"]**2)] if kind == "guppy" else []
    s(n, r, _target=t, _hull=False, _known=kn, D=DD, ar=AS if kind == "spherical" else AR, hr=HR, _n=1 if kind == "conical" else .35)
for k in ("conical", "ellipsoidal", "spherical", "guppy"): mks(k)
def sht(D, f, k, hr): return fg().SA_partial_horiz_torispherical_head(D, f, k, hr*D)
def rsht(D, f, k, hr):
    g = f*(1 - 2*k)/(2*(f - k))
    if min(abs(.5 - g - hr), abs(.5 + g - hr)) < 1e-7: return SKIP     # exactly at the knuckle: a removable singularity
    return Approx(T.SA_head_h("torispherical", D, 0, hr*D, f, k), 2e-4 if abs(hr - .5) < .01 else 2e-5, 1e-6*D*D)
s("SA_partial_horiz_torispherical_head", rsht, _target=sht, hr=HR, _n=.3, **FK)
s("SA_partial_cylindrical_body", lambda L, D, hr: Approx(L*D*acos(1 - 2*min(max(hr, 0), 1)), 1e-8, 1e-7*L*D), _target=lambda L, D, hr: fg().SA_partial_cylindrical_body(L, D, hr*D), _hull=False, L=globals()["L"](.1, 50), D=DD, hr=HR, _n=.4)
s("A_partial_circle", lambda D, hr: Approx(T.seg(D/2, hr*D), 1e-7, 1e-13*D*D), _target=lambda D, hr: fg().A_partial_circle(D, hr*D), _hull=False, D=DD, hr=HR, _n=.5)
def chf(D, hr): return fg().circle_segment_h_from_A(T.seg(D/2, hr*D), D)
def pchf(a, got):
    if isinstance(got, Err): return "raised %r" % got
    D, h = a["D"], a["hr"]*a["D"]
    if not 0 <= got <= D*(1 + 1e-12): return "h = %r outside the circle" % got
    A = T.seg(D/2, h)
    return None if abs(T.seg(D/2, got) - A) <= 1e-8*A + 1e-12*D*D else "segment of height %r has area %r, asked for %r" % (got, T.seg(D/2, got), A)
s("circle_segment_h_from_A", None, _target=chf, _post=pchf, D=DD, hr=Mix(1e-5, 1 - 1e-5, .5, 1.0, .501, .999), _fix=lambda a: a if 1e-6 < a["hr"] < 1 - 1e-6 or a["hr"] == 1 else None, _n=.6)
def sp(D, hr): return fg().SA_partial_sphere(D, hr*D)
s("SA_partial_sphere", lambda D, hr: pi*D*D*min(max(hr, 0), 1), _target=sp, D=DD, hr=HR, _n=.3, _atol=1e-12)
s("V_partial_sphere", lambda D, hr: Approx(pi*(min(max(hr, 0), 1)*D)**2*(D/2 - min(max(hr, 0), 1)*D/3), 1e-9), _target=lambda D, hr: fg().V_partial_sphere(D, hr*D), D=DD, hr=HR, _n=.3)
# ---- full head areas
s("SA_ellipsoidal_head", lambda D, ar: Approx(T.SA_head_v("ellipsoidal", D, ar*D, 9e9), 1e-7), _target=lambda D, ar: fg().SA_ellipsoidal_head(D, ar*D), _hull=False, D=DD, ar=MixL(1e-9, 5, .5, .25, .4999, .5001), _n=.5)
s("SA_conical_head", lambda D, ar: pi*D/2*hypot(ar*D, D/2), _target=lambda D, ar: fg().SA_conical_head(D, ar*D), D=DD, ar=AR, _n=.2)
s("SA_guppy_head", lambda D, ar: pi*D/4*hypot(D, ar*D) + pi*D/2*ar*D, _target=lambda D, ar: fg().SA_guppy_head(D, ar*D), D=DD, ar=AR, _n=.2)
s("SA_torispheroidal", lambda D, f, k: Approx(T.SA_head_v("torispherical", D, 0, 9e9, f, k), 1e-9), _n=.3, **FK)
s("a_torispherical", lambda D, f, k: dep(D, f, k), _n=.3, **FK)
# ---- assembled tanks
KIND = (None, "conical", "ellipsoidal", "torispherical", "spherical", "guppy")
def head(r, D, hor):
    k = r.choice(KIND if hor else KIND[:5])
    if k is None: return (None, 0.0, None, None)
    if k == "torispherical":
        f, kk = r.choice(((1.0, .06), (.9, .17), (.8, .1), (.8, .154), (r.uniform(.7, 1.4), r.uniform(.03, .2)), (r.uniform(.7, 1.4), .06), (1.0, r.uniform(.03, .2))))
        return (k, dep(D, f, kk), f, kk)
    return (k, D*r.choice((.25, .5, exp(r.uniform(log(.01), log(.5 if k == "spherical" else 1.5))))), None, None)
def tank(r):
    D, hor = r.choice((1.0, .1, 3.0, exp(r.uniform(-2, 3)))), r.random() < .5
    A = head(r, D, hor); B = A if r.random() < .3 else head(r, D, hor)
    return D, D*exp(r.uniform(-1.5, 2.5)), hor, A, B
def hmax(D, L, hor, A, B): return D if hor else L + A[1] + B[1]
def fill(r, t):
    D, L, hor, A, B = t
    hm = hmax(*t)
    if hor: return D*r.choice((r.random(), r.random(), 10**-r.uniform(0, 2.6), .5, 1.0, 1e-3, .999, 1.2))
    return r.choice((hm*r.random(), hm*r.random(), A[1], A[1] + L, hm, A[1]*r.random(), A[1] + L + B[1]*r.random(), (A[1] + L)*(1 + 1e-9), 1.1*hm))
def kw(t, A=True):
    D, L, hor, a, b = t
    d = dict(D=D, L=L, horizontal=hor, sideA=a[0], sideB=b[0], sideA_a=a[1], sideB_a=b[1])
    for n, x in (("A", a), ("B", b)):
        if x[2]: d["side%s_f" % n], d["side%s_k" % n] = x[2:]
    return d
def gen_h(r):
    t = tank(r)
    a = kw(t); a["h"] = fill(r, t)
    if r.random() < .02: a[r.choice(("sideA", "sideB"))] = "cubical"
    return a
def tup(a): return (a["D"], a["L"], a["horizontal"], (a["sideA"], a["sideA_a"], a.get("sideA_f"), a.get("sideA_k")), (a["sideB"], a["sideB_a"], a.get("sideB_f"), a.get("sideB_k")))
def bad(a): return "cubical" in (a["sideA"], a["sideB"])
def near_top(a): return not a["horizontal"] and a["sideB_a"] == 0 and abs(a["h"] - a["sideA_a"] - a["L"]) < 1e-12*a["h"]
def rV(**a): return BAD if bad(a) else Approx(T.V_h(*tup(a), a["h"]), 1e-5, 1e-9 + 1e-9*a["D"]**2*(a["L"] + a["D"]))
def rSA(**a): return BAD if bad(a) else Approx(T.SA_h(*tup(a), a["h"]), 1e-5, 1e-6*a["D"]**2)
def guppyR(a, got): return (a["sideA"] == "guppy" and 2*a["sideA_a"] == a["D"] or a["sideB"] == "guppy" and 2*a["sideB_a"] == a["D"])
def guppy_exact(a, got):
    """the wrong area is exactly the hemisphere formula for that head"""
    if not guppyR(a, got) or not a["horizontal"]: return False
    h, tot = min(a["h"], a["D"]), 0.0
    D, L, hor, A, B = tup(a)
    for x in (A, B): tot += pi*D/2*h if x[0] == "guppy" and 2*x[1] == D else T.SA_head_h(x[0], D, x[1], h, *x[2:])
    tot += L*D*acos(max(-1, 1 - 2*h/D))
    return abs(got - tot) <= 1e-5*tot
s("V_from_h", rV, _gen=gen_h, _n=1)
s("SA_from_h", rSA, _gen=gen_h, _n=.5, _known=[("P21-guppy-hemisphere", guppy_exact)])
def gen_t(r):
    a = kw(tank(r))
    if r.random() < .02: a[r.choice(("sideA", "sideB"))] = "cubical"
    return a
def rtot(**a):
    if bad(a): return BAD
    D, L, hor, A, B = tup(a)
    v = [T.V_head_h(x[0], D, x[1], D, *x[2:]) if hor else T.V_head_v(x[0], D, x[1], 9e9, *x[2:]) for x in (A, B)]
    l = pi/4*D*D*L
    return [Approx(x, 1e-6) for x in (sum(v) + l, *v, l)]
s("V_tank", rtot, _gen=gen_t, _n=.6)
def SAfull(x, D):
    return pi*D/4*hypot(D, x[1]) + pi*D/2*x[1] if x[0] == "guppy" else T.SA_head_v(x[0], D, x[1], 9e9, *x[2:])
def gen_st(r):
    a = gen_t(r); del a["horizontal"]
    return a
def rsat(**a):
    a["horizontal"] = True
    if bad(a): return SKIP
    D, L, hor, A, B = tup(a)
    v = [SAfull(x, D) for x in (A, B)]
    l = pi*D*L
    return [Approx(x, 1e-8) for x in (sum(v) + l, *v, l)]
s("SA_tank", rsat, _gen=gen_st, _n=.6)
# ---- the TANK object: construction variants, state, and every query against the same integrals
def gen_obj(r):
    t = tank(r); D, L, hor, A, B = t
    if r.random() < .12:
        # two dished ends, one of them by default
        f, k = r.choice(((.9, .17), (.8, .154), (1.0, .1), (1.2, .06)))
        q = [("torispherical", dep(D, f, k), f, k), ("torispherical", dep(D, 1.0, .06), 1.0, .06)]
        if r.random() < .5: q.reverse()
        A, B = q; t = D, L, hor, A, B
    d = dict(horizontal=hor)
    for n, x in (("A", A), ("B", B)):
        if x[0] is None: continue
        d["side" + n] = x[0]
        if x[0] == "torispherical":
            # either parameter has its own default
            if x[2] != 1.0 or r.random() < .4: d["side%s_f" % n] = x[2]
            if x[3] != .06 or r.random() < .4: d["side%s_k" % n] = x[3]
        elif x[1] == .25*D and r.random() < .5: pass
        elif r.random() < .5: d["side%s_a" % n] = x[1]
        else: d["side%s_a_ratio" % n] = x[1]/D
    if A[0] and A is B and r.random() < .5:
        n = r.choice("AB")
        for k in [k for k in d if k.startswith("side" + n)]: del d[k]
        d["side" + n] = "same"
    mode = r.choice(("DL", "DL", "DR", "LR", "VD", "VL", "VR"))
    fixed_a = any(k.endswith("_a") for k in d)
    if mode == "VL" and fixed_a: mode = "DL"
    if mode in ("VR", "VL") and fixed_a: mode = "DR"
    if mode in ("DL", "DR", "VD"): d["D"] = D
    if mode in ("DL", "LR", "VL"): d["L"] = L
    if mode in ("DR", "LR", "VR"): d["L_over_D"] = L/D
    if mode[0] == "V": d["V"] = T.V_h(D, L, hor, A, B, hmax(*t))
    ops = []
    for _ in range(r.randint(2, 5)):
        op = r.choice(("V", "V", "SA", "A", "hb", "hb", "hs", "hs", "thick", "table", "badm"))
        if op == "thick" and "spherical" in (A[0], B[0]): ops.append([op, D*r.uniform(.001, .1), None, None])    # a dish stays at most a hemisphere
        elif op == "thick": ops.append([op, D*r.uniform(.001, .1), *r.choice(((None, None), (D*r.uniform(.001, .1), None), (None, D*.02), (D*.01, D*.03)))])
        elif op == "table": ops.append([op, r.choice((10, 50, 300, 1/r.uniform(4, 60), 1/12.5))])
        else: ops.append([op, min(fill(r, t)/hmax(*t), 1.0)])
    if r.random() < .06: ops.append(["cheb", r.random()])
    if mode in ("DL", "DR", "LR"):
        # a depth given outright takes precedence over a depth ratio
        for n in "AB":
            if "side%s_a" % n in d and r.random() < .2: d["side%s_a_ratio" % n] = r.choice((.25, .1, r.uniform(.05, 1)))
    return dict(kwargs=d, ops=ops, t=[D, L, hor, list(A), list(B)])
def t_obj(kwargs, ops, t):
    g = fg()
    o = g.TANK(**kwargs)
    out = dict(D=o.D, L=o.L, L_over_D=o.L_over_D, R=o.R, h_max=o.h_max, V_total=o.V_total, V_sideA=o.V_sideA, V_sideB=o.V_sideB, V_lateral=o.V_lateral,
               A=o.A, A_sideA=o.A_sideA, A_sideB=o.A_sideB, A_lateral=o.A_lateral, A_sideA_extra=o.A_sideA_extra, A_sideB_extra=o.A_sideB_extra,
               sideA_a=o.sideA_a, sideB_a=o.sideB_a, sideA_a_ratio=o.sideA_a_ratio, sideB_a_ratio=o.sideB_a_ratio, vertical=o.vertical,
               orientation=o.orientation, res=[])
    before = dict(vars(o))
    for op in ops:
        k = op[0]
        h = op[1]*o.h_max
        if k == "V": r = o.V_from_h(h)
        elif k == "SA": r = o.SA_from_h(h)
        elif k == "A": r = o.A_cross_sectional(h)
        elif k == "hb": r = o.h_from_V(o.V_total*op[1], "brenth")
        elif k == "hs": r = o.h_from_V(o.V_total*op[1])
        elif k == "cheb": r = (o.V_from_h(h, "chebyshev"), o.h_from_V(o.V_total*op[1], "chebyshev"))
        elif k == "table": o.set_table(n=op[1]) if op[1] >= 1 else o.set_table(dx=op[1]*o.h_max); r = (list(o.heights), list(o.volumes))
        elif k == "thick":
            n = o.add_thickness(*[x for x in op[1:] if x is not None] if op[3] is None else op[1:])
            r = (n.D, n.L, n.sideA_a, n.sideB_a, n.V_total, n.A)
        elif k == "badm":
            r = 0
            for f in (o.V_from_h, o.SA_from_h, o.h_from_V):
                try: f(h, "nosuch"); r += 1
                except ValueError: pass
        out["res"].append(r)
    ch = [k for k in before if before[k] is not getattr(o, k) and before[k] != getattr(o, k) and k not in ("table", "chebyshev")]
    if hash(o) != hash(g.TANK(**kwargs)): ch.append("hash")
    out["changed"] = [k for k in ch if k not in ("heights", "volumes", "interp_h_from_V")]
    return out
def p_obj(a, got):
    t = [*a["t"][:3], tuple(a["t"][3]), tuple(a["t"][4])]
    D, L, hor, A, B = t
    if isinstance(got, Err): return "TANK failed: %r" % got
    tol = 2e-7
    if "V" in a["kwargs"] and "D" not in a["kwargs"]:
        # the solved dimensions need only reproduce the volume
        D, L = got["D"], got["L"]
        A, B = [(x[0], x[1]*D/a["t"][0], *x[2:]) for x in (A, B)]
        t = [D, L, hor, A, B]
    def eq(n, g, e, rt, at=0.0):
        return None if abs(g - e) <= rt*abs(e) + at else "%s = %r, expected %r" % (n, g, e)
    hm, Vt = hmax(*t), T.V_h(*t, 9e9)
    sV = D*D*(L + D)
    v = [T.V_head_h(x[0], D, x[1], D, *x[2:]) if hor else T.V_head_v(x[0], D, x[1], 9e9, *x[2:]) for x in (A, B)]
    sa = [SAfull(x, D) for x in (A, B)]
    chk = [("D", D, 1e-7), ("L", L, 1e-6 if "V" in a["kwargs"] else 1e-9), ("L_over_D", L/D, 1e-6), ("R", D/2, 1e-7), ("h_max", hm, 1e-6), ("V_total", Vt, 1e-6), ("V_lateral", pi/4*D*D*L, 1e-6),
           ("A", sum(sa) + pi*D*L, 1e-6), ("A_lateral", pi*D*L, 1e-6)]
    for n, x, vv, ss in (("A", A, v[0], sa[0]), ("B", B, v[1], sa[1])):
        chk += [("V_side" + n, vv, 1e-6), ("A_side" + n, ss, 1e-7), ("side%s_a" % n, x[1], 1e-7), ("side%s_a_ratio" % n, x[1]/D, 1e-7)]
        r = eq("A_side%s_extra" % n, got["A_side%s_extra" % n], ss - pi/4*D*D, 1e-7, 1e-9*D*D)
        if r: return r
    for n, e, rt in chk:
        r = eq(n, got[n], e, rt, 1e-12*sV if n.startswith("V") else 0)
        if r: return r
    if "V" in a["kwargs"]:
        r = eq("V_total (solved)", got["V_total"], a["kwargs"]["V"], 1e-9)
        if r: return r
    if got["vertical"] is hor or got["orientation"] != ("horizontal" if hor else "vertical"): return "orientation %r" % got["orientation"]
    if got["changed"]: return "queries changed the tank: %r" % got["changed"]
    tab = 100
    for op, r in zip(a["ops"], got["res"]):
        k, fr = op[0], op[1]
        h = fr*hm
        if k == "V": m = eq("V_from_h(%r)" % h, r, T.V_h(*t, h), 1e-6, 1e-8*sV)
        elif k == "SA":
            if not hor and abs(h - A[1] - L) < 1e-6*hm: continue
            if not hor and any(x[0] == "ellipsoidal" and abs(2*g_a/got["D"] - 1) < 1e-6 for x, g_a in ((A, got["sideA_a"]), (B, got["sideB_a"]))): continue    # P21-vertical-ellipsoid-near-sphere is judged on the function itself
            m = eq("SA_from_h(%r)" % h, r, T.SA_h(*t, h), 1e-5, 1e-5*D*(D + (L if not hor else L)))
            if m and hor and any(x[0] == "guppy" and 2*x[1] == D for x in (A, B)): return "KNOWN-GUPPY"
        elif k == "A":
            if min(fr, 1 - fr) < 2e-3 or not hor and min(abs(h - A[1]), abs(h - A[1] - L)) < 1e-5*hm: continue
            m = eq("A_cross_sectional(%r)" % h, r, T.A_cross(*t, h), 1e-3, 1e-3*D*(L + D) if hor else 1e-3*D*D)
        elif k == "hb":
            if not -1e-9 <= r <= hm*(1 + 1e-9): return "h_from_V = %r outside the tank" % r
            m = eq("V at h_from_V(brenth)", T.V_h(*t, r), fr*Vt, 1e-6, 1e-7*Vt)
        elif k == "hs":
            if r != r:
                if fr >= 1 - 1e-12: continue     # V rounded above the table's last volume
                return "h_from_V = nan at %r of the volume" % fr
            # monotone interpolation between table points: the answer lies in the bracketing interval
            hs = [i*hm/(tab - 1) for i in range(tab)]
            lo = max([x for x in hs if T.V_h(*t, x) <= fr*Vt*(1 + 1e-7)] or [0.0]) if tab <= 100 else 0
            m = None if lo - 1e-6*hm <= r <= lo + hm/(tab - 1)*(1 + 1e-6) + 1e-6*hm or tab > 100 else "h_from_V(spline) = %r outside its table interval [%r, %r]" % (r, lo, lo + hm/(tab - 1))
            if m is None and .02 < fr < .98 and tab >= 100 and L > .3*D: m = eq("V at h_from_V(spline)", T.V_h(*t, r), fr*Vt, 0, 2e-3*Vt)
        elif k == "cheb":
            m = eq("V_from_h(chebyshev)", r[0], T.V_h(*t, h), 0, .01*Vt) or eq("V at h_from_V(chebyshev)", T.V_h(*t, min(max(r[1], 0), hm)), fr*Vt, 0, .03*Vt)
        elif k == "table":
            if fr < 1:      # by spacing: as many equal intervals as fit
                fr = len(r[0])
                if abs(fr - 1/op[1]) > 1.01: return "table of %d heights for a spacing of h_max/%r" % (fr, 1/op[1])
            tab = fr
            m = "table length %d" % len(r[0]) if len(r[0]) != fr or len(r[1]) != fr else eq("heights[0]", r[0][0], 0, 0, 1e-12) or eq("heights[-1]", r[0][-1], hm, 1e-9)
            for i in range(0, fr, max(1, fr//7)):
                m = m or eq("heights[%d]" % i, r[0][i], i*hm/(fr - 1), 1e-9, 1e-12) or eq("volumes[%d]" % i, r[1][i], T.V_h(*t, i*hm/(fr - 1)), 1e-6, 1e-8*sV)
        elif k == "thick":
            th, ta, tb = op[1], op[2] if op[2] is not None else op[1], op[3] if op[3] is not None else op[1]
            if op[3] is not None and op[2] is None: ta = th
            D2, L2 = D + 2*th, L + ta + tb
            H2 = [(x[0], dep(D2, *x[2:]) if x[0] == "torispherical" else x[1] + e, *x[2:]) for x, e in ((A, ta), (B, tb))]
            if any(x[0] == "spherical" and x[1] > D2/2 for x in H2): continue
            V2 = [T.V_head_h(x[0], D2, x[1], D2, *x[2:]) if hor else T.V_head_v(x[0], D2, x[1], 9e9, *x[2:]) for x in H2]
            m = eq("add_thickness D", r[0], D2, 1e-7) or eq("L", r[1], L2, 1e-6) or eq("sideA_a", r[2], H2[0][1], 1e-6) or eq("sideB_a", r[3], H2[1][1], 1e-6) or eq("V_total", r[4], sum(V2) + pi/4*D2*D2*L2, 1e-6) or eq("A", r[5], sum(SAfull(x, D2) for x in H2) + pi*D2*L2, 1e-6)
        elif k == "badm": m = "%d unknown methods accepted" % r if r else None
        if m: return "%s after %r" % (m, a["ops"][:a["ops"].index(op)])
    return None
S.append(Spec("geometry.TANK", {}, None, target=t_obj, gen=gen_obj, post=p_obj, n=.25, known=[("P21-guppy-hemisphere", lambda a, got: p_obj(a, got) == "KNOWN-GUPPY")]))
# a full tank's wetted area is its total surface area
def gen_full(r):
    t = tank(r); d = kw(t)
    return dict(kwargs=d)
def t_full(kwargs):
    o = fg().TANK(**{k: v for k, v in kwargs.items() if not (kwargs.get(k[:5]) == "torispherical" and k.endswith("_a"))})
    return o.SA_from_h(o.h_max), o.A, o.V_from_h(o.h_max), o.V_total, o.D
def p_full(a, got):
    if isinstance(got, Err): return repr(got)
    if abs(got[2] - got[3]) > 1e-6*got[3]: return "V_from_h(h_max) = %r, V_total = %r" % got[2:4]
    if abs(got[0] - got[1]) > 2e-5*got[1]: return "SA_from_h(h_max) = %r, A = %r" % got[:2]
S.append(Spec("geometry.TANK(full)", {}, None, target=t_full, gen=gen_full, post=p_full, n=.3, known=[("P21-guppy-area", lambda a, got: "guppy" in (a["kwargs"]["sideA"], a["kwargs"]["sideB"]) and abs(got[2] - got[3]) <= 1e-6*got[3])]))
# two indirect specifications
def gen_two(r):
    while True:
        t = tank(r)
        if .05 < t[0] < 20: break
    D, L, hor, A, B = t
    d = kw(t); d.pop("D"); d.pop("L")
    for n, x in (("A", A), ("B", B)):
        if x[0] == "torispherical" or x[0] is None: d.pop("side%s_a" % n)
        else: d["side%s_a_ratio" % n] = d.pop("side%s_a" % n)/D
    n0, n1 = r.sample(("V", "SA", "V_partial", "SA_partial", "A_cross"), 2)
    h = hmax(*t)*r.uniform(.05, .9)
    return dict(kwargs=d, n0=n0, n1=n1, h=h, t=[D, L, hor, list(A), list(B)])
def t_two(kwargs, n0, n1, h, t):
    g = fg()
    D, L = t[:2]
    o = g.TANK(D=D, L=L, **kwargs)
    def val(o, n): return dict(V=lambda: o.V_total, SA=lambda: o.A, V_partial=lambda: o.V_from_h(h), SA_partial=lambda: o.SA_from_h(h), A_cross=lambda: o.A_cross_sectional(h))[n]()
    s0, s1 = val(o, n0), val(o, n1)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        n = g.TANK.from_two_specs(s0, s1, n0, n1, h=h, **kwargs)
    return s0, s1, val(n, n0), val(n, n1), n.D, n.L, n.h_max

def fix_two(a):
    return a
def p_two(a, got):
    if isinstance(got, Err): return None if type(got.e).__name__ == "UnconvergedError" else repr(got)
    s0, s1, v0, v1, D, L, hm = got
    if not hm > 0: return "no tank: %r" % (got,)
    if abs(v0 - s0) > 1e-4*abs(s0) or abs(v1 - s1) > 1e-4*abs(s1): return "%s=%r, %s=%r asked for; the tank has %r, %r (D=%r L=%r)" % (a["n0"], s0, a["n1"], s1, v0, v1, D, L)
S.append(Spec("geometry.TANK.from_two_specs", {}, None, target=t_two, gen=gen_two, post=p_two, n=.1))
