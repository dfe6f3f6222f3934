"""P35 interpolation, splines, quadrature, finite differences and Chebyshev objects"""
import math
from fractions import Fraction as F
from ..dom import *
from ..engine import Raises, SKIP, Approx, Err, Spec, close
from .solve import lg, N
S = []
def inc(r, n, a=-10, b=10):
    x = r.uniform(a, b); o = [x]
    for _ in range(n - 1):
        x += r.choice((1.0, r.uniform(.01, 3), r.uniform(.5, 1.5))); o.append(x)
    return o
def pt(r, xs):
    return r.choice((r.uniform(xs[0], xs[-1]), r.uniform(xs[0], xs[-1]), r.choice(xs), xs[0], xs[-1], xs[0] - r.uniform(0, 5), xs[-1] + r.uniform(0, 5), math.nextafter(r.choice(xs), r.choice((-1e9, 1e9)))))
def val(r): return r.choice((r.uniform(-5, 5), r.uniform(-5, 5), 0.0, 1.0, -lg(r, -6, 6)))
def near(g, e, mag, rel=1e-12, what=""):
    if isinstance(g, Err): return what + repr(g)
    if not (abs(float(g) - float(e)) <= rel*max(float(mag), 1e-300)): return "%s%r instead of %r" % (what, g, float(e))
# ---- piecewise linear
def lin(x, xs, ys, extrap):
    """(value, magnitude) by exact arithmetic"""
    n = len(xs)
    if x < xs[0] or x > xs[-1]:
        if not extrap: y = ys[0] if x < xs[0] else ys[-1]; return F(y), abs(F(y))
        i = 0 if x < xs[0] else n - 2
    else: i = max([j for j in range(n - 1) if xs[j] <= x])
    s = (F(ys[i + 1]) - F(ys[i]))/(F(xs[i + 1]) - F(xs[i]))
    e = s*(F(x) - F(xs[i])) + F(ys[i])
    return e, (abs(F(ys[i])) + abs(F(ys[i + 1])))*(1 + abs((F(x) - F(xs[i]))/(F(xs[i + 1]) - F(xs[i]))))
def g_interp(r):
    n = r.choice((2, 2, 3, 5, 9, 30, 60, 120)); xs = inc(r, n)
    d = dict(kind=r.choice(("interp", "interp", "interp2d", "tck2d")), x=pt(r, xs), xs=xs)
    if d["kind"] == "interp":
        d["ys"] = [val(r) for _ in xs]; d["left"] = r.choice((None, None, 7.5, 0.0)); d["right"] = r.choice((None, None, -2.5, 0.0)); d["extrapolate"] = r.choice((True, False)); d["np"] = r.random() < .1
    else:
        d["ys"] = inc(r, r.choice((2, 3, 6))); d["y"] = pt(r, d["ys"]); d["z"] = [[val(r) for _ in xs] for _ in d["ys"]]
    return d
def t_interp(kind, x, xs, ys, left=None, right=None, extrapolate=False, y=None, z=None, np=False):
    n = N()
    if kind == "interp":
        if np:
            import numpy; xs, ys = numpy.array(xs), numpy.array(ys)
        kw = {}
        if left is not None: kw["left"] = left
        if right is not None: kw["right"] = right
        return n.interp(x, xs, ys, extrapolate=extrapolate, **kw)
    if kind == "interp2d": return n.interp2d_linear(x, y, xs, ys, z)
    tck = n.tck_interp2d_linear(xs, ys, z)
    if xs is None or not isinstance(tck, tuple): return "tck is %r" % (type(tck),)
    return [float(n.bisplev(x, y, tck)), float(n.py_bisplev(x, y, tck))]
def p_interp(d, g):
    x, xs, ys = d["x"], d["xs"], d["ys"]
    if isinstance(g, Err): return repr(g)
    if d["kind"] == "interp":
        if x < xs[0] and d["left"] is not None: return None if g == d["left"] else "left value %r" % g
        if x > xs[-1] and d["right"] is not None: return None if g == d["right"] else "right value %r" % g
        e, m = lin(x, xs, ys, d["extrapolate"]); return near(g, e, m)
    y = d["y"]
    if d["kind"] == "tck2d": x = min(max(x, xs[0]), xs[-1]); y = min(max(y, ys[0]), ys[-1])
    row = [lin(x, xs, z, True) for z in d["z"]]
    e, m = lin(y, ys, [v for v, _ in row], True)
    m = max(m, max(w for _, w in row)*(1 + max(abs(y - ys[0]), abs(y - ys[-1]))/min(b - a for a, b in zip(ys, ys[1:]))))
    if d["kind"] == "interp2d": return near(g, e, m, 1e-11)
    if isinstance(g, str): return g
    return near(g[0], e, m, 1e-11, "bisplev ") or near(g[1], e, m, 1e-11, "py_bisplev ")
S.append(Spec("numerics.interpolation", {}, None, target=t_interp, gen=g_interp, post=p_interp, n=3))
# ---- B splines against scipy's FITPACK
def knots(r, k):
    n = r.choice((0, 1, 2, 5, 12)); x = inc(r, n + 2)
    if n > 2 and k > 1 and r.random() < .3: x[2] = x[1]   # a repeated interior knot
    return [x[0]]*k + x + [x[-1]]*k
def g_spl(r):
    d = dict(two=r.random() < .4, k=r.randint(1, 5)); d["t"] = knots(r, d["k"])
    if r.random() < .1 and not d["two"]: d["t"] = inc(r, len(d["t"]))   # knots which are not clamped
    d["x"] = pt(r, d["t"])
    if d["two"]:
        d["ky"] = r.randint(1, 5); d["ty"] = knots(r, d["ky"]); d["y"] = pt(r, d["ty"])
        d["c"] = [val(r) for _ in range((len(d["t"]) - d["k"] - 1)*(len(d["ty"]) - d["ky"] - 1))]
    else: d["c"] = [val(r) for _ in range(len(d["t"]) - d["k"] - 1)]; d["ext"] = r.choice((0, 0, 1, 2, 3))
    return d
def t_spl(two, k, t, x, c, ext=0, ky=None, ty=None, y=None):
    n = N()
    if two: return float(n.py_bisplev(x, y, [t, ty, c, k, ky]))
    return float(n.py_splev(x, [t, c, k], ext=ext))
def p_spl(d, g):
    import numpy as np
    from scipy.interpolate import splev, bisplev
    k, t, c, x = d["k"], d["t"], d["c"], d["x"]
    if d["two"]:
        e = float(bisplev(x, d["y"], (np.array(t), np.array(d["ty"]), np.array(c), k, d["ky"])))
        return near(g, e, max(map(abs, c)) or 1, 1e-11)
    out = x < t[k] or x > t[-k - 1]
    if out and d["ext"] == 2: return None if isinstance(g, Err) and isinstance(g.e, ValueError) else "%r outside of the knots" % (g,)
    if out and d["ext"] == 1: return None if g == 0.0 else "%r outside of the knots" % (g,)
    e = float(splev(x, (np.array(t), np.array(c + [0.0]*(k + 1)), k), ext=0 if d["ext"] == 2 else d["ext"]))
    # extrapolation amplifies the coefficients
    h = min([b - a for a, b in zip(t, t[1:]) if b > a]); far = max(0.0, t[k] - x, x - t[-k - 1]) if d["ext"] != 3 else 0.0
    return near(g, e, (max(map(abs, c)) or 1)*(1 + 2*far/h)**k, 1e-11)
S.append(Spec("numerics.splines", {}, None, target=t_spl, gen=g_spl, post=p_spl, n=3))
# ---- quadrature
FNS = {
 "poly": (lambda x, c: sum(v*x**i for i, v in enumerate(c)), None),
 "exp": (lambda x, c: math.exp(c[0]*x), lambda a, b, c: (math.exp(c[0]*b) - math.exp(c[0]*a))/c[0] if c[0] else b - a),
 "sin": (lambda x, c: math.sin(c[0]*x + c[1]), lambda a, b, c: (math.cos(c[0]*a + c[1]) - math.cos(c[0]*b + c[1]))/c[0]),
 "rat": (lambda x, c: 1.0/(1.0 + (x - c[1])**2), lambda a, b, c: math.atan(b - c[1]) - math.atan(a - c[1])),
 "sqrt": (lambda x, c: math.sqrt(abs(x) + 1.0), None)}
def g_quad(r):
    kind = r.choice(("gk", "gk", "adaptive", "adaptive", "lazy", "nquad", "dblquad"))
    fn = r.choice(("poly", "poly", "exp", "sin", "rat"))
    a, b = r.uniform(-4, 4), r.uniform(-4, 4)
    if r.random() < .15: b = -a   # symmetric
    if r.random() < .05: b = a
    c = [r.uniform(-2, 2) for _ in range(r.randint(1, 20 if kind == "gk" else 9))] if fn == "poly" else [r.choice((-1, 1))*r.uniform(.2, 6 if fn == "sin" else 1.5), r.uniform(-3, 3)]
    if fn == "poly" and r.random() < .1: c = [0.0, 1.0]   # odd on a symmetric range
    d = dict(kind=kind, fn=fn, a=a, b=b, c=c)
    if kind in ("nquad", "dblquad"):
        d["hi"] = [r.uniform(.1, 2), r.uniform(-1, 1)]; d["lo"] = [r.uniform(-2, -.1), r.uniform(-.5, .5)]; d["m"] = r.uniform(-1, 1)
    return d
def t_quad(kind, fn, a, b, c, hi=None, lo=None, m=None):
    n = N(); f = FNS[fn][0]
    if kind == "gk": return list(n.fixed_quad_Gauss_Kronrod(f, a, b, n.kronrod_points[10], n.kronrod_weights[10], n.legendre_weights[10], (c,)))
    if kind == "adaptive": return list(n.quad_adaptive(f, a, b, (c,)))
    if kind == "lazy": return list(n.quad(f, a, b, (c,)))[:2]
    # inner variable x over lo(y)..hi(y), outer variable y over a..b; the integrand is 1 + m x y plus f(y)
    g = lambda x, y, c: (1.0 + m*x*y)*f(y, c)
    h = lambda y, c: lo[0] + lo[1]*y
    k = lambda y, c: hi[0] + hi[1]*y
    if kind == "dblquad": return list(n.dblquad(g, a, b, h, k, (c,), epsrel=1e-9, epsabs=1e-9))
    return list(n.nquad(g, [lambda y, c: (lo[0] + lo[1]*y, hi[0] + hi[1]*y), lambda c: (a, b)], (c,)))
def p_quad(d, g):
    if isinstance(g, Err): return repr(g)
    a, b, c, fn = d["a"], d["b"], d["c"], d["fn"]
    if d["kind"] in ("nquad", "dblquad"):
        from scipy.integrate import quad
        f, lo, hi, m = FNS[fn][0], d["lo"], d["hi"], d["m"]
        def inner(y):
            l, h = lo[0] + lo[1]*y, hi[0] + hi[1]*y
            return f(y, c)*((h - l) + .5*m*y*(h*h - l*l))
        e = quad(inner, a, b, epsabs=1e-12, epsrel=1e-12)[0]; mag = 1 + quad(lambda y: abs(inner(y)), min(a, b), max(a, b), limit=200, epsabs=1e-6)[0]
        return near(g[0], e, mag, 1e-6)
    if fn == "poly":
        e = sum(F(v)*(F(b)**(i + 1) - F(a)**(i + 1))/(i + 1) for i, v in enumerate(c))
        mag = sum(abs(F(v))*max(abs(F(b)), abs(F(a)))**i for i, v in enumerate(c))*abs(F(b) - F(a))
    else: e = FNS[fn][1](a, b, c); mag = abs(b - a)*(math.exp(abs(c[0])*max(abs(a), abs(b))) if fn == "exp" else 1.0)
    if d["kind"] == "gk":
        # the 21 point rule is exact to degree 31, its Gauss part to degree 19
        return near(g[0], e, mag + F(1, 10**300), 1e-12 if fn == "poly" else 1e-4) or (near(g[1], 0.0, mag, 1e-12, "error estimate ") if fn == "poly" else None)
    if fn in ("rat",) and abs(b - a) > 6: return SKIP
    return near(g[0], e, max(mag, 1), 2e-8) or (None if abs(g[1]) <= 1e-6*max(float(mag), 1) else "error estimate %r" % g[1])
S.append(Spec("numerics.quadrature", {}, None, target=t_quad, gen=g_quad, post=p_quad, n=3))
# ---- finite differences
def g_der(r):
    kind = r.choice(("derivative", "derivative", "vector", "weights", "jacobian", "hessian", "trapz", "limits"))
    d = dict(kind=kind)
    if kind in ("derivative", "vector", "limits"):
        n = r.randint(1, 3); o = r.choice([v for v in (3, 5, 7, 9, 11) if v > n] + [2, 4] + [n])
        d.update(n=n, order=o, dx=r.choice((.5, 1.0, .25, r.uniform(.1, 1))), x0=r.uniform(-2, 2), c=[r.uniform(-2, 2) for _ in range(r.randint(1, max(o, 1)))])
        if kind == "limits":
            d["order"] = o = o if o % 2 and o > n else 5
            w = (o//2)*d["dx"]; d["side"] = r.choice(("low", "high", "none")); s = r.uniform(0, 1.5)*w
            d["lim"] = [d["x0"] - s if d["side"] == "low" else -99.0, d["x0"] + s if d["side"] == "high" else 99.0]
    elif kind == "weights": d["points"] = r.randint(1, 13); d["n"] = r.randint(1, 4)
    elif kind in ("jacobian", "hessian"):
        m = r.randint(1, 4); d.update(x0=[r.choice((0.0, r.uniform(-3, 3), r.uniform(1, 3))) for _ in range(m)], scalar=r.random() < .5, A=[[[r.uniform(-2, 2) for _ in range(m)] for _ in range(m)] for _ in range(3)], b=[[r.uniform(-2, 2) for _ in range(m)] for _ in range(3)], base=r.random() < .5, full=r.random() < .6)
        if not all(abs(v) > .3 or v == 0 for v in d["x0"]): d["x0"] = [0.0]*m
    else:
        n = r.randint(0, 12); d.update(y=[r.uniform(-3, 3) for _ in range(n)], x=r.choice((None, inc(r, n) if n else [], [r.uniform(-3, 3) for _ in range(n)])), dx=r.choice((None, r.uniform(.1, 2))))
        if r.random() < .05 and n > 1: d["x"] = [0.0]*(n - 1)
    return d
def quadf(A, b, x): return sum(b[i]*x[i] for i in range(len(x))) + .5*sum(A[i][j]*x[i]*x[j] for i in range(len(x)) for j in range(len(x)))
def t_der(kind, **d):
    n = N()
    if kind in ("derivative", "vector", "limits"):
        c = d["c"]; pts = []
        def f(x, s=0.0):
            pts.append(x)
            y = sum(v*x**i for i, v in enumerate(c)) + s
            return [y, 2*y, x*0 + 1] if kind == "vector" else y
        if kind == "limits": return [n.derivative(f, d["x0"], dx=d["dx"], n=d["n"], order=d["order"], lower_limit=d["lim"][0], upper_limit=d["lim"][1]), pts]
        return n.derivative(f, d["x0"], dx=d["dx"], n=d["n"], order=d["order"], scalar=kind != "vector", args=(3.0,))
    if kind == "weights": return list(n.central_diff_weights(d["points"], d["n"]))
    if kind == "trapz": return n.cumulative_trapezoid(d["y"], d["x"], d["dx"])
    A, b, sc = d["A"], d["b"], d["scalar"]
    f = (lambda x: quadf(A[0], b[0], x)) if sc else (lambda x: [quadf(A[i], b[i], x) for i in range(3)])
    x0 = list(d["x0"]); base = f(x0) if d["base"] else None; f0, moved = f, []
    def f(x):
        if x0 != d["x0"]: moved.append(list(x0))   # the caller's own list, as seen by the function it passed
        return f0(x)
    o = n.jacobian(f, x0, scalar=sc, perturbation=1e-7, base=base) if kind == "jacobian" else n.hessian(f, x0, scalar=sc, perturbation=1e-4, zero_offset=1e-4, full=d["full"], base=base)
    if moved: return "the caller's point was %r during a call" % moved[0]
    return o if x0 == d["x0"] else "the point was changed to %r" % x0
def dpoly(c, x, n):
    e = F(0)
    for i, v in enumerate(c):
        if i >= n: e += F(v)*math.perm(i, n)*F(x)**(i - n)
    return e
def p_der(d, g):
    kind = d["kind"]
    if kind in ("derivative", "vector"):
        if d["order"] % 2 == 0 or d["order"] < d["n"] + 1: return None if isinstance(g, Err) and isinstance(g.e, ValueError) else "order %r gave %r" % (d["order"], g)
        if isinstance(g, Err): return repr(g)
        e = dpoly(d["c"], d["x0"], d["n"])   # exact: the degree is below the order
        R = abs(d["x0"]) + d["order"]*d["dx"]; m = (3 + sum(abs(v)*R**i for i, v in enumerate(d["c"])))/d["dx"]**d["n"]
        if kind == "derivative": return near(g, e, m)
        return "length %r" % len(g) if len(g) != 3 else near(g[0], e, m) or near(g[1], 2*e, 2*m) or near(g[2], 0, m)
    if isinstance(g, Err) and kind not in ("weights", "trapz"): return repr(g)
    if kind == "limits":
        lo, hi = d["lim"]; w = (d["order"]//2)*d["dx"]
        if min(g[1]) < lo - 1e-12 or max(g[1]) > hi + 1e-12: return "evaluated at %r..%r outside of the limits" % (min(g[1]), max(g[1]))
        free = d["x0"] - w >= lo and d["x0"] + w <= hi
        c = .5*(min(g[1]) + max(g[1])); e = dpoly(d["c"], d["x0"] if free else c, d["n"])
        R = abs(d["x0"]) + 2*d["order"]*d["dx"]; m = (3 + sum(abs(v)*R**i for i, v in enumerate(d["c"])))/d["dx"]**d["n"]
        return near(g[0], e, m, 1e-11)
    if kind == "weights":
        p, n = d["points"], d["n"]
        if p < n + 1 or p % 2 == 0: return None if isinstance(g, Err) and isinstance(g.e, ValueError) else "%r points gave %r" % (p, g)
        if isinstance(g, Err): return repr(g)
        h = p//2
        if len(g) != p: return "%r weights" % len(g)
        for k in range(p):   # moments
            t = sum(F(w)*(i - h)**k for i, w in enumerate(g)); m = sum(abs(w)*abs(i - h)**k for i, w in enumerate(g))
            if abs(t - (math.factorial(n) if k == n else 0)) > 1e-13*max(m, 1): return "moment %d is %r" % (k, float(t))
        return None
    if kind == "trapz":
        y, x, dx = d["y"], d["x"], d["dx"]
        if len(y) < 2: return None if g == [] else "%r" % (g,)
        if (x is None and dx is None) or (x is not None and len(x) != len(y)): return None if isinstance(g, Err) and isinstance(g.e, ValueError) else "%r" % (g,)
        if isinstance(g, Err): return repr(g)
        if len(g) != len(y) - 1: return "length %d" % len(g)
        t = m = 0.0
        for i in range(len(y) - 1):
            h = dx if x is None else x[i + 1] - x[i]
            t += .5*(y[i] + y[i + 1])*h; m += abs(.5*(y[i] + y[i + 1])*h) + 1e-300
            w = near(g[i], t, m)
            if w: return w
        return None
    if isinstance(g, str): return g
    A, b, x, n = d["A"], d["b"], d["x0"], len(d["x0"])
    H = [[[.5*(a[i][j] + a[j][i]) for j in range(n)] for i in range(n)] for a in A]
    J = [[b[m][i] + sum(H[m][i][j]*x[j] for j in range(n)) for i in range(n)] for m in range(3)]
    X = 1 + sum(map(abs, x))
    if kind == "jacobian":
        e = J[0] if d["scalar"] else J
        return close(g, e, 0.0, 2e-6*X**2)
    e = [[(H[0][i][j] if d["scalar"] else [H[m][i][j] for m in range(3)]) for j in range(n if d["full"] else i + 1)] for i in range(n)]
    return close(g, e, 0.0, 3e-5*X**2)
S.append(Spec("numerics.finite_differences", {}, None, target=t_der, gen=g_der, post=p_der, n=3))
# ---- Chebyshev objects
OPS = ("call", "add", "sub", "mul", "scalar", "sum", "integrate", "diff", "roots", "dot", "restrict", "poly", "range", "build", "solve", "basis", "pow", "neg", "eq")
def g_cheb(r):
    a = r.uniform(-5, 5); d = dict(op=r.choice(OPS), dom=[a, a + r.choice((1.0, 2.0, r.uniform(.3, 6)))])
    d["c"] = [r.uniform(-2, 2) for _ in range(r.randint(1, 12))]; d["c2"] = [r.uniform(-2, 2) for _ in range(r.randint(1, 9))]
    if r.random() < .2: d["c"] = [r.uniform(-2, 2) for _ in range(2)]
    d["c"][-1] = r.choice((-1, 1))*r.uniform(.2, 1); d["c2"][-1] = r.choice((-1, 1))*r.uniform(.2, 1)
    d["x"] = [r.uniform(*d["dom"]) for _ in range(3)] + d["dom"]; d["n"] = r.randint(1, 3); d["s"] = r.uniform(-2, 2)
    return d
def t_cheb(op, dom, c, c2, x, n, s):
    import numpy as np
    from fluids.optional import pychebfun as pc
    f = pc.Chebfun.from_coeff(np.array(c), dom); h = pc.Chebfun.from_coeff(np.array(c2), dom); x = np.array(x)
    v = lambda q: [float(t) for t in np.asarray(q(x))]
    if op == "call": return [v(f), [float(t) for t in f.coefficients()], int(f.size())]
    if op == "add": return v(f + h)
    if op == "sub": return v(f - h)
    if op == "mul": return v(f*h)
    if op == "neg": return v(-f)
    if op == "pow": return v(f**2)
    if op == "scalar": return [v(f + s), v(s - f), v(f*s), v(s*f), v(f - s)]
    if op == "sum": return float(f.sum())
    if op == "integrate": return v(f.integrate())
    if op == "diff": return v(f.differentiate(n))
    if op == "roots": return sorted(float(t) for t in f.roots())
    if op == "dot": return [float(f.dot(h)), float(f.norm())]
    if op == "restrict":
        q = f.restrict(sorted([float(x[0]), float(x[1])])); m = np.linspace(*sorted(x[:2]), 4)
        return [[float(t) for t in q(m)], [float(t) for t in m]]
    if op == "poly": return [pc.chebfun_to_poly(f), pc.cheb_to_poly(f), pc.chebfun_to_poly(c, dom), pc.chebfun_to_poly(c, dom, text=True)]
    if op == "range": return [list(pc.cheb_range_simplifier(*dom)), pc.cheb_range_simplifier(*dom, text=True)]
    p = lambda t: float(np.polynomial.chebyshev.chebval((2*t - dom[0] - dom[1])/(dom[1] - dom[0]), c))
    if op == "build": return v(pc.build_pychebfun(p, dom, N=15))
    if op == "solve":
        rt, q = pc.build_solve_pychebfun(p, s, dom, N=15, find_roots=1); return [sorted(float(t) for t in rt), v(q)]
    if op == "basis": return [[float(t) for t in pc.Chebfun.basis(n)(x/10)], [float(t) for t in pc.Chebfun.identity(dom)(x)]]
    return [bool(f == h), bool(f == f), bool(f != h), bool(f)]
def p_cheb(d, g):
    import numpy as np
    from numpy.polynomial import chebyshev as C
    if isinstance(g, Err): return repr(g)
    a, b = d["dom"]; c, c2, x, op, s = np.array(d["c"]), np.array(d["c2"]), np.array(d["x"]), d["op"], d["s"]
    u = (2*x - a - b)/(b - a); k = 2/(b - a); m = float(np.sum(abs(c)) + np.sum(abs(c2)) + 2)
    v = lambda q, t=u: C.chebval(t, q)
    def cmp(g, e, mag=m, rel=1e-11, what=""):
        g, e = np.asarray(g, float), np.asarray(e, float)
        if g.shape != e.shape: return "%sshape %r instead of %r" % (what, g.shape, e.shape)
        if not np.all(abs(g - e) <= rel*mag): return "%s%r instead of %r" % (what, g.tolist(), e.tolist())
    if op == "call": return cmp(g[0], v(c)) or cmp(g[1], c, what="coefficients ") or (None if g[2] == len(c) else "size %r" % g[2])
    if op == "add": return cmp(g, v(c) + v(c2))
    if op == "sub": return cmp(g, v(c) - v(c2))
    if op == "mul": return cmp(g, v(c)*v(c2), m*m)
    if op == "neg": return cmp(g, -v(c))
    if op == "pow": return cmp(g, v(c)**2, m*m)
    if op == "scalar": return cmp(g[0], v(c) + s) or cmp(g[1], s - v(c)) or cmp(g[2], v(c)*s, 3*m) or cmp(g[3], v(c)*s, 3*m) or cmp(g[4], v(c) - s)
    I = C.chebint(c)/k
    if op == "sum": return cmp(g, v(I, 1.0) - v(I, -1.0), m*(b - a))
    if op == "integrate": return cmp(g, v(I) - v(I, -1.0), m*(b - a))
    if op == "diff": return cmp(g, v(C.chebder(c, d["n"]))*k**d["n"] if len(c) > d["n"] else 0*x, m*(k*(len(c) + 1)**2)**d["n"])
    if op in ("roots", "solve"):
        if op == "solve":
            w = cmp(g[1], v(c), what="built ")
            if w: return w
            c = c.copy(); c[0] -= s; g = g[0]
        mag = float(np.sum(abs(c)))
        D = C.chebder(c) if len(c) > 1 else np.array([0.0])
        for t in g:   # every reported root is a root
            uu = (2*t - a - b)/(b - a)
            if abs(uu) > 1 + 1e-12: return "root %r outside of the domain" % t
            # allowance for the imaginary part accepted by the algorithm
            if abs(v(c, uu)) > 1e-8*mag + 1e-6*abs(v(D, uu))*0: return "root %r has value %r" % (t, v(c, uu))
        # every sign change inside has a root
        grid = np.linspace(-.999999, .999999, 401); y = v(c, grid); n = int(np.sum((y[1:]*y[:-1] < 0)))
        return None if len(g) >= n else "%d roots but %d sign changes" % (len(g), n)
    if op == "dot":
        P = lambda p, q: (lambda i: v(i, 1.0) - v(i, -1.0))(C.chebint(C.chebmul(p, q)))/k
        return cmp(g[0], P(c, c2), m*m*(b - a)) or cmp(g[1]**2, P(c, c), m*m*(b - a))
    if op == "restrict": return cmp(g[0], v(c, (2*np.array(g[1]) - a - b)*k/2))
    if op == "poly":
        mp = max(float(np.sum(abs(C.cheb2poly(c)))), 1)
        if "horner(coeffs, " not in g[3]: return "text %r" % g[3]
        from fluids.numerics import horner, chebval
        ns = dict(horner=horner); l = g[3].split("\n"); exec(l[0], ns)
        for xx, uu, e in zip(x.tolist(), u.tolist(), v(c).tolist()):
            if abs(np.polyval(g[0], uu) - e) > 1e-11*mp or abs(np.polyval(g[2], uu) - e) > 1e-11*mp: return "chebfun_to_poly differs at %r" % xx
            if abs(eval(l[1], dict(ns, x=xx)) - e) > 1e-11*mp: return "text form differs at %r" % xx
            q = np.array(g[1]); mm = float(np.polyval(abs(q), abs(xx)))
            if abs(np.polyval(q, xx) - e) > 1e-11*max(mm, mp)*(1 + (abs(a + b)/(b - a)))**len(c): return "cheb_to_poly differs at %r" % xx
        return None
    if op == "range":
        k0, f0 = g[0]; w = cmp(f0*(x + k0), u, 10 + 10*abs(a + b)/(b - a))
        if w: return w
        from fluids.numerics import chebval
        return cmp([eval(g[1], dict(chebval=chebval, x=t, coeffs=d["c"])) for t in d["x"]], v(c), m*(1 + len(c)**2*10*(1 + abs(a + b)/(b - a))))
    if op == "build": return cmp(g, v(c))
    if op == "basis":
        e = np.zeros(d["n"] + 1); e[-1] = 1; return cmp(g[0], v(e, x/10), 10 + np.max(abs(x))**4) or cmp(g[1], x, 20)
    same = len(c) == len(c2) and np.allclose(c, c2)
    return None if g == [same, True, not same, True] else "equality %r" % (g,)
S.append(Spec("pychebfun.objects", {}, None, target=t_cheb, gen=g_cheb, post=p_cheb, n=2))
