"""P34 double-double arithmetic against exact rationals / 80-digit arithmetic; special functions against mpmath"""
import math, cmath
from fractions import Fraction as F
import mpmath
from mpmath import mp, mpf, mpc
from ..dom import *
from ..engine import Raises, SKIP, Approx, Err, Spec
from .solve import lg, N
S = []
E100 = mpf(2)**-100
def pair(r, big=60, pos=False):
    k = r.random()
    x = r.uniform(-5, 5) if k < .4 else r.choice((-1, 1))*lg(r, -big, big) if k < .7 else float(r.randint(-9, 9)) if k < .9 else r.choice((-1, 1))*2.0**r.randint(-40, 40)
    if pos: x = abs(x) or 1.0
    e = x*2.0**-54*r.choice((0.0, 0.0, r.uniform(-1, 1), r.uniform(-1, 1), 2.0**-r.randint(0, 60)))
    h = x + e
    return [h, e - (h - x)]
def M(p): return mpf(p[0]) + mpf(p[1])
def mpx(f):
    """run with 80 digits"""
    def g(*a):
        o = mp.dps; mp.dps = 80
        try: return f(*a)
        finally: mp.dps = o
    return g
BIN = {"add_dd": lambda a, b: (a + b, abs(a) + abs(b)), "mul_dd": lambda a, b: (a*b, abs(a*b)), "div_dd": lambda a, b: (a/b, abs(a/b))}
UN = {"square_dd": lambda a: a*a, "cube_dd": lambda a: a**3, "sqrt_dd": lambda a: mpmath.sqrt(a), "cbrt_dd": lambda a: mpmath.cbrt(a), "cbrt_explicit_dd": lambda a: mpmath.cbrt(a), "exp_dd": mpmath.exp, "log_dd": mpmath.log}
CMP = {"eq_dd": lambda a, b: a == b, "neq_dd": lambda a, b: a != b, "lt_dd": lambda a, b: a < b, "le_dd": lambda a, b: a <= b, "gt_dd": lambda a, b: a > b, "ge_dd": lambda a, b: a >= b}
CB = ("mul_imag_dd", "mul_imag_noerrors_dd", "add_imag_dd", "div_imag_dd")
CU = ("imag_inv_dd", "sqrt_imag_dd", "cbrt_imag_dd")
def g_dd(r):
    op = r.choice(list(BIN)*2 + list(UN) + list(CMP) + list(CB) + list(CU) + ["mul_noerrors_dd", "intpow_dd", "pow_dd", "intpow_dd"])
    d = dict(op=op)
    if op in BIN or op in CMP:
        a, b = pair(r), pair(r)
        if r.random() < .4:
            b = [a[0], a[1]*r.choice((1.0, -1.0, .5, 0.0))]
            if r.random() < .3: b = [math.nextafter(a[0], r.choice((-inf_, inf_))), b[1]*.4]
        if op == "div_dd" and b[0] == 0: b = [3.0, 1e-17]
        if op == "add_dd" and r.random() < .3: b = [-b[0], -b[1]]
        d["a"] = [a, b]
    elif op in UN:
        a = pair(r, pos=op not in ("square_dd", "cube_dd", "exp_dd"))
        if op == "exp_dd": a = [r.uniform(-300, 300), 0.0] if r.random() < .5 else [r.choice((0.5, -0.5, 1.5, 0.0, 2.0, r.uniform(-1, 1))), 0.0]; a[1] = a[0]*2.0**-54*r.uniform(-1, 1)
        if op == "log_dd": a = [lg(r, -100, 100) if r.random() < .6 else 1 + r.choice((-1, 1))*lg(r, -12, -1), 0.0]; a[1] = a[0]*2.0**-54*r.uniform(-1, 1)
        if op == "sqrt_dd" and r.random() < .05: a = [0.0, 0.0]
        d["a"] = [a]
    elif op == "mul_noerrors_dd": d["a"] = [pair(r)[:1], pair(r)[:1]]
    elif op == "intpow_dd": d["a"] = [pair(r, 3, True)]; d["n"] = r.randint(-40, 40); d["a"][0] = [v*r.choice((1, -1)) for v in d["a"][0]]
    elif op == "pow_dd": d["a"] = [pair(r, 3, True), r.choice(([float(r.randint(-12, 12)), 0.0], [r.randint(-12, 12), 0.0], [float(r.uniform(-8, 8)), 1e-18], [0.5, 0.0], [3.0, 1e-17]))]
    elif op in CB: d["a"] = [pair(r, 8) for _ in range(4)]
    else: d["a"] = [pair(r, 8), pair(r, 8)]
    if op in CU and r.random() < .3: d["a"][1] = [0.0, 0.0]
    if op in CU and r.random() < .2: d["a"][1] = [v*1e-18 for v in d["a"][1]]
    if op == "div_imag_dd" and d["a"][2][0] == 0 and d["a"][3][0] == 0: d["a"][2] = [1.5, 0.0]
    if op in CU and d["a"][0][0] == 0 and d["a"][1][0] == 0: d["a"][0] = [1.5, 0.0]
    return d
inf_ = math.inf
def t_dd(op, a, n=None):
    from fluids.numerics import doubledouble as m
    f = getattr(m, op)
    if op == "mul_imag_noerrors_dd": return f(*[p[0] for p in a])
    fl = [v for p in a for v in p]
    return f(*fl, n) if op == "intpow_dd" else f(*fl)
@mpx
def p_dd(d, g):
    op, a = d["op"], d["a"]
    if op == "intpow_dd" and a[0][0] and abs(d["n"])*abs(math.log2(abs(a[0][0]))) > 900: return SKIP   # the exact splitting overflows
    if isinstance(g, Err): return repr(g)
    if op in CMP:
        e = CMP[op](M(a[0]), M(a[1]))
        # the pairs are normalised, so equal values have equal parts
        return None if g is e or g == e else "%r instead of %r" % (g, e)
    def norm(h, l):
        if math.isnan(h) or math.isnan(l): return "nan"
        if h + l != h: return "pair %r is not normalised" % ((h, l),)
    def one(o, e, mag, u=4, what=""):
        w = norm(*o)
        if w: return what + w
        if abs(M(o) - e) > u*E100*mag + mpf(2)**-1000: return "%s%r is off by %s 2^-100" % (what, o, mpmath.nstr(abs(M(o) - e)/E100/(mag or 1), 5))
    if op in BIN: return one(g, *BIN[op](M(a[0]), M(a[1])))
    if op == "mul_noerrors_dd":
        if F(g[0]) + F(g[1]) != F(a[0][0])*F(a[1][0]): return "product %r is not exact" % (g,)
        return norm(*g)
    if op in UN:
        x = M(a[0]); e = UN[op](x)
        if op == "exp_dd": return one(g, e, abs(e), 60 + 2*abs(x))
        if op == "log_dd": return one(g, e, max(abs(e), mpf(1)), 60 + 2*abs(e))
        return one(g, e, abs(e), 400 if "cbrt" in op else 16)
    if op == "intpow_dd":
        e = M(a[0])**d["n"]
        return one(g, e, abs(e), 4*(abs(d["n"]) + 2))
    if op == "pow_dd":
        x, n = M(a[0]), M(a[1])
        e = x**n
        return one(g, e, abs(e), 16*(abs(n) + 2)*(4 + abs(mpmath.log(x))) + 300)
    noerr = op == "mul_imag_noerrors_dd"
    if noerr: a = [[p[0], 0.0] for p in a]
    x = mpc(M(a[0]), M(a[1])); y = mpc(M(a[2]), M(a[3])) if len(a) > 2 else None
    o = ((g[0], g[1]), (g[2], g[3]))
    if op in CU:
        e = {"imag_inv_dd": lambda: 1/x, "sqrt_imag_dd": lambda: mpmath.sqrt(x), "cbrt_imag_dd": lambda: mpmath.cbrt(x) if not (x.imag == 0 and x.real < 0) else abs(mpmath.cbrt(-x.real))*mpmath.expj(mpmath.pi/3)}[op]()
        mr, mi = abs(e.real), abs(e.imag)
        if op == "cbrt_imag_dd":
            mr = mi = abs(e)
            if x.imag < 0 and abs(x.imag) < 1e-14*abs(x.real) and x.real < 0: return SKIP   # next to the cut
        u = 400 if op == "cbrt_imag_dd" else 32; return one(o[0], e.real, mr, u, "real part ") or one(o[1], e.imag, mi, u, "complex part ")
    if op == "add_imag_dd": e = x + y; mr, mi = abs(x.real) + abs(y.real), abs(x.imag) + abs(y.imag)
    else:
        w = y if op != "div_imag_dd" else mpmath.conj(y)/(abs(y)**2)
        e = x*w; mr = abs(x.real*w.real) + abs(x.imag*w.imag); mi = abs(x.real*w.imag) + abs(x.imag*w.real)
    u = 400 if op == "cbrt_imag_dd" else 32; return one(o[0], e.real, mr, u, "real part ") or one(o[1], e.imag, mi, u, "complex part ")
S.append(Spec("doubledouble.ops", {}, None, target=t_dd, gen=g_dd, post=p_dd, n=10))
# ---- special functions
def rc(r):
    f = lambda: r.choice((r.uniform(-3, 3), r.choice((-1, 1))*lg(r, -8, 8), 0.0, 1.0, -1.0))
    return [f(), f()]
SF = ("py_hypot", "py_cacos", "py_catan", "py_catanh", "py_factorial", "py_comb", "factorial", "comb", "py_lambertw", "lambertw", "polylog2", "cbrt", "roots")
def g_sf(r):
    op = r.choice(SF); d = dict(op=op)
    if op in ("py_hypot",): d["a"] = [r.choice((0.0, r.choice((-1, 1))*lg(r, -200, 200), r.uniform(-3, 3))) for _ in range(2)]
    elif op in ("py_cacos", "py_catan", "py_catanh"):
        d["a"] = rc(r)
        if op == "py_catanh" and r.random() < .1: d["a"] = [r.choice((1.0, -1.0)), r.choice((-1, 1))*lg(r, -200, -150)]
        if op == "py_catanh" and r.random() < .1: d["a"] = [r.choice((-1, 1))*lg(r, 150, 300), r.choice((-1, 1))*lg(r, 150, 300)]
    elif op in ("py_factorial", "factorial"): d["a"] = [r.choice((0, 1, 2, r.randint(0, 60), -1))]
    elif op in ("py_comb", "comb"):
        n = r.randint(0, 40); d["a"] = [n, r.choice((0, n, r.randint(0, n), r.randint(0, 45), 1))]
    elif op in ("py_lambertw", "lambertw"):
        k = r.choice((0, 0, -1)) if op == "lambertw" or r.random() < .95 else 2
        y = r.choice((r.uniform(-.3678, 5), lg(r, -12, 300), -r.uniform(.001, .3678))) if k != -1 else -r.choice((r.uniform(.0001, .3678), lg(r, -90, -.5)))
        d["a"] = [y, k]
    elif op == "polylog2": d["a"] = [r.choice((r.uniform(0, 1), r.uniform(0, 1), 1 - lg(r, -5, -1), lg(r, -8, -1), 0.0, .7, .99, -r.random(), 1 + r.random(), .7 + r.uniform(-1e-3, 1e-3), 1.0))]
    elif op == "cbrt": d["a"] = [r.choice((-1, 1, 1))*lg(r, -100, 100)]
    else: d["a"] = [r.uniform(0, 5), r.uniform(0.01, .99)]
    return d
def t_sf(op, a):
    n = N(); from fluids.numerics import special as m
    if op in ("py_cacos", "py_catan", "py_catanh"): return getattr(m, op)(complex(*a))
    if op == "roots": return [float(n.ellipe(a[1])), float(n.gammaincc(a[0] + .1, a[1])), float(n.i0(a[0])), float(n.i1(a[0])), float(n.k0(a[1])), float(n.k1(a[1])), float(n.iv(2.5, a[0])), float(n.hyp2f1(.3, 1.2, 2.5, a[1])), float(n.ellipkinc(a[0], a[1])), float(n.ellipeinc(a[0], a[1])), float(n.erf(a[0]))]
    if op in ("py_lambertw", "lambertw", "polylog2", "cbrt"):
        return getattr(n, op)(*a) if hasattr(n, op) else getattr(m, op)(*a)
    return getattr(m, op)(*a)
def p_sf(d, g):
    op, a = d["op"], d["a"]
    if op in ("py_factorial", "factorial") and a[0] < 0: return None if isinstance(g, Err) and isinstance(g.e, ValueError) else "negative factorial"
    if op == "polylog2" and not 0 <= a[0] <= 1: return None if isinstance(g, Err) and isinstance(g.e, ValueError) else "%r outside of the range" % (g,)
    if op == "py_lambertw" and a[1] == 2: return None if isinstance(g, Err) and isinstance(g.e, ValueError) else "branch 2 gave %r" % (g,)
    z = complex(*a) if op in ("py_cacos", "py_catan", "py_catanh") else None
    if isinstance(g, Err):
        if op == "py_catan" and a[0] == 0 and abs(a[1]) == 1: return None
        return repr(g)
    if op == "py_hypot": return None if abs(g - math.hypot(*a)) <= 1e-15*math.hypot(*a)*2 else "%r" % g
    if op == "py_cacos":
        e = cmath.acos(z)
        if z.imag == 0 and abs(z.real) >= 1: return None if abs(abs(e.imag) - abs(g.imag)) + abs(e.real - g.real) < 1e-12*(1 + abs(e)) else "%r instead of %r" % (g, e)
        return None if abs(g - e) <= 1e-13*(1 + abs(e)) else "%r instead of %r" % (g, e)
    if op == "py_catan":
        if abs(z*z + 1) < 1e-6: return SKIP
        e = cmath.atan(z)
        if z.real == 0 and abs(z.imag) > 1 or abs(z.real) < 1e-6 and abs(z.imag) > 1 or abs(z) > 1e6: return None if abs(abs(g.real) - abs(e.real)) < 1e-9 and abs(g.imag - e.imag) < 1e-8 else "%r instead of %r" % (g, e)
        return None if abs(g - e) <= 1e-10*(1 + abs(e)) else "%r instead of %r" % (g, e)
    if op == "py_catanh":
        if abs(z.real) == 1 and z.imag == 0: return None if g.real == math.copysign(inf_, z.real) else "%r" % (g,)
        e = cmath.atanh(z)
        if z.imag == 0 and abs(z.real) > 1: return None if abs(abs(g.imag) - abs(e.imag)) + abs(g.real - e.real) < 1e-13 else "%r instead of %r" % (g, e)
        return None if abs(g.real - e.real) <= 4e-15*abs(e.real) + 1e-300 and abs(g.imag - e.imag) <= 4e-15*abs(e.imag) + 1e-300 else "%r instead of %r" % (g, e)
    if op in ("py_factorial", "factorial"): return None if g == math.prod(range(1, a[0] + 1)) else "%r" % g
    if op in ("py_comb", "comb"):
        n, k = a; e = 0 if k > n else math.prod(range(n - k + 1, n + 1))//math.prod(range(1, k + 1))
        return None if g == e else "%r instead of %r" % (g, e)
    if op in ("py_lambertw", "lambertw"):
        y = mpf(a[0])
        if y < -mpmath.exp(-1) + mpf("1e-6"): return SKIP
        e = mpmath.lambertw(y, a[1])
        tol = (4e-12 if op == "py_lambertw" else 1e-14) + 4e-15*abs(e) + 4e-16/abs(1 + e)
        return None if abs(mpc(complex(g)) - e) <= tol else "%r instead of %s" % (g, mpmath.nstr(e, 17))
    if op == "polylog2":
        e = float(mpmath.polylog(2, a[0])) if a[0] else 0.0
        t = 1e-7 if a[0] < .99999 else 3e-6
        return None if abs(g - e) <= max(t*e, 2e-12) else "%r instead of %r" % (g, e)
    if op == "cbrt":
        e = math.copysign(float(mpmath.cbrt(mpf(abs(a[0])))), a[0])
        return None if abs(g - e) <= 1e-15*abs(e) else "%r instead of %r" % (g, e)
    x, m = map(mpf, a)
    e = [mpmath.ellipe(m), mpmath.gammainc(x + mpf(".1"), m, regularized=True), mpmath.besseli(0, x), mpmath.besseli(1, x), mpmath.besselk(0, m), mpmath.besselk(1, m), mpmath.besseli(2.5, x), mpmath.hyp2f1(mpf(".3"), mpf("1.2"), 2.5, m), mpmath.ellipf(x, m), mpmath.ellipe(x, m), mpmath.erf(x)]
    for i, (u, v) in enumerate(zip(g, e)):
        if abs(u - v) > 1e-10*abs(v): return "wrapper %d: %r instead of %s" % (i, u, mpmath.nstr(v, 15))
S.append(Spec("numerics.special", {}, None, target=t_sf, gen=g_sf, post=p_sf, n=3))
