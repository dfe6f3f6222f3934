"""P31 polynomial evaluation: power series arithmetic at 60 digits, tolerance from the sum of |terms|"""
import math
from mpmath import mp, mpf
import mpmath
from ..dom import *
from ..engine import Raises, SKIP, Approx, Err, Spec, close
from .solve import lg, N
mp.dps = 60
S = []
K = 5
# ---- truncated series in t = x' - x
def sadd(a, b): return [p + q for p, q in zip(a, b)]
def smul(a, b): return [sum((a[i]*b[k - i] for i in range(k + 1)), mpf(0)) for k in range(K)]
def sc(c): return [mpf(c)] + [mpf(0)]*(K - 1)
def slog(a):
    o = [mpmath.log(a[0])]
    for k in range(1, K):
        o.append((a[k] - sum((mpf(i)/k*o[i]*a[k - i] for i in range(1, k)), mpf(0)))/a[0])
    return o
def sexp(a):
    o = [mpmath.exp(a[0])]
    for k in range(1, K): o.append(sum((mpf(i)/k*a[i]*o[k - i] for i in range(1, k + 1)), mpf(0)))
    return o
def spoly(c, y):
    o = sc(0)
    for v in c: o = sadd(smul(o, y), sc(v))
    return o
def cheb_to_poly(c):
    """ascending Chebyshev -> descending power basis, exact"""
    from fractions import Fraction as F
    n = len(c)
    T = [[F(1)], [F(0), F(1)]]
    while len(T) < n:
        a = [F(0)] + [2*v for v in T[-1]]
        for i, v in enumerate(T[-2]): a[i] -= v
        T.append(a)
    o = [F(0)]*max(n, 1)
    for k, v in enumerate(c):
        for i, t in enumerate(T[k]): o[i] += F(v)*t
    return [mpf(v.numerator)/v.denominator for v in o[::-1]]
def aabs(a): return [abs(v) for v in a]
def jets(d):
    """(series, magnitude series) of the form described by d"""
    x = mpf(d["x"])
    if d["tau"]:
        if d["x"] >= d["Tc"]: return [mpf(0)]*K, [mpf(0)]*K
        y = slog([1 - x/mpf(d["Tc"]), -1/mpf(d["Tc"])] + [mpf(0)]*(K - 2))
        tau = 1 - x/mpf(d["Tc"])
        ey = aabs(y); ey[0] += 1 + 1/tau  # rounding of tau
    else: y = [x, mpf(1)] + [mpf(0)]*(K - 2); ey = aabs(y)
    if d["aff"]:
        y = sadd(sc(d["off"]), [mpf(d["scl"])*v for v in y])
        ey = sadd(sc(abs(d["off"])), [abs(mpf(d["scl"]))*v for v in ey])
    c = cheb_to_poly(d["c"]) if d["cheb"] else d["c"]
    p = spoly(c, y)
    if d["cheb"]:
        # |T_k| grows with |y|; use sum |c_k| |T_k|(i y) by replacing T with its absolute power form only when y is outside of [-1, 1]
        m = sc(0)
        for k, v in enumerate(d["c"]): m = sadd(m, [abs(mpf(v))*t for t in spoly(aabs(cheb_to_poly([0.0]*k + [1.0])), ey)])
    else: m = spoly(aabs(c), ey)
    if d.get("logc") is not None:
        l = slog([x, mpf(1)] + [mpf(0)]*(K - 2))
        p = sadd(p, [mpf(d["logc"])*v for v in l]); m = sadd(m, [abs(mpf(d["logc"]))*v for v in aabs(l)])
    if d["exp"]:
        q = sexp(p)
        w = aabs(p); w0 = w[0]; w[0] = mpf(0)
        # magnitude: val*(1 + |p| terms); every factor may carry the relative error of its magnitude
        mm = sexp([mpf(0)] + [v for v in m[1:]])
        m = [q[0]*(1 + m[0])*v for v in mm]
        p = q
    f = 1; out = []
    for k in range(K):
        if k: f *= k
        p[k] *= f; m[k] *= f
    return p, m
def coeffs(r, n=None):
    n = n or r.choice((1, 1, 2, 3, 4, 5, 8, 15))
    c = [r.choice((0.0, 1.0, -1.0, r.uniform(-5, 5), r.uniform(-5, 5), r.choice((-1, 1))*lg(r, -6, 4))) for _ in range(n)]
    return c
def g_form(nm, cheb, tau, aff, ex, nd, logc=False):
    def gen(r):
        d = dict(nm=nm, cheb=cheb, tau=tau, aff=aff, exp=ex, nd=nd)
        d["c"] = coeffs(r)
        if cheb: d["c"] = d["c"][:10]
        if ex: d["c"] = [v if abs(v) < 6 else v/1e4 for v in d["c"]][:6]
        d["x"] = r.choice((0.0, 1.0, -1.0, r.uniform(-3, 3), r.uniform(-3, 3), r.choice((-1, 1))*lg(r, -3, 2)))
        if aff: d["off"], d["scl"] = r.choice((0.0, r.uniform(-3, 3))), r.choice((1.0, r.uniform(-2, 2)))
        if tau:
            d["Tc"] = r.uniform(50, 1200); d["x"] = d["Tc"]*r.choice((r.uniform(.1, .99), r.uniform(.1, .99), 1 - lg(r, -7, -2), 1.0, r.uniform(1, 2), r.uniform(.99, 1.01)))
        if logc: d["logc"] = r.choice((0.0, r.uniform(-5, 5))); d["x"] = lg(r, -3, 3)
        if ex and not tau: d["x"] = max(-3.0, min(3.0, d["x"]))
        if ex and r.random() < .1: d["c"] = d["c"][:-1] + [r.choice((800.0, 5000.0, -800.0))] if not cheb else [r.choice((800.0, 5000.0, -800.0))] + d["c"][1:]
        if cheb and len(d["c"]) <= nd: d["c"] += [r.uniform(-1, 1) for _ in range(nd + 1 - len(d["c"]))]
        if r.random() < .2: d["np"] = 1
        return d
    return gen
def t_form(nm, cheb, tau, aff, exp, nd, c, x, off=None, scl=None, Tc=None, logc=None, np=0):
    n = N(); f = getattr(n, nm)
    cc = list(c)
    if np:
        import numpy
        if not cheb: cc = numpy.array(cc)
    sa = (off, scl) if aff else ()
    if cheb:
        ds = [n.chebder(list(c), m=k, scl=scl) for k in range(1, nd + 1)]
        if tau: return f(x, Tc, cc, *ds, *sa)
        return f(x, cc, *ds, *sa)
    if logc is not None: return f(x, cc, *sa, logc) if aff else f(cc, logc, x)
    if tau: return f(x, Tc, cc, *sa)
    if "stable" in nm or "backwards" in nm: return f(x, cc, *sa)
    return f(cc, x)
def p_form(d, g):
    p, m = jets(d)
    nd = d["nd"]
    if d["exp"]:
        if d["tau"] and d["x"] >= d["Tc"]: pass
        elif p[0] > mpf("1.7e308") or max(abs(v) for v in p[:nd + 1]) > mpf("1e300"):
            tr = "stable" in d["nm"] and nd == 0 or d["cheb"] and nd == 0 or "exp_horner_stable_ln_tau" in d["nm"]
            if p[0] > mpf("1.7e308"):
                if tr:
                    v = g[0] if isinstance(g, tuple) else g
                    if isinstance(g, Err) or not 1.79e308 < v < math.inf: return "exponential was not truncated: %r" % (g,)
                elif not (isinstance(g, Err) and isinstance(g.e, OverflowError)): return "overflow gave %r" % (g,)
            return None
    if isinstance(g, Err): return repr(g)
    o = g if isinstance(g, (tuple, list)) else (g,)
    if len(o) != nd + 1: return "returned %d values" % len(o)
    for k in range(nd + 1):
        tol = 4e-15*(len(d["c"]) + 6)*m[k] + mpf("1e-300")
        if d["tau"] and d["x"] < d["Tc"]: tol *= 4/(1 - mpf(d["x"])/mpf(d["Tc"]))*mpf(2)**-3 + 4
        if not abs(mpf(float(o[k])) - p[k]) <= tol: return "derivative %d is %r, exact %s (tolerance %s)" % (k, o[k], mpmath.nstr(p[k], 17), mpmath.nstr(tol, 3))
def add(nm, cheb=0, tau=0, aff=0, ex=0, nd=0, logc=False, n=1):
    S.append(Spec("numerics.%s" % nm, {}, None, target=t_form, gen=g_form(nm, cheb, tau, aff, ex, nd, logc), post=p_form, n=n))
def fam(base, ders, **k):
    for i in range(ders + 1):
        add(base + ("" if i == 0 else "_and_der" + ("" if i == 1 else str(i))), nd=i, **k)
fam("horner", 4)
fam("horner_stable", 4, aff=1)
add("horner_backwards")
fam("exp_horner_backwards", 3, ex=1)
fam("horner_backwards_ln_tau", 3, tau=1)
fam("exp_horner_backwards_ln_tau", 2, tau=1, ex=1)
fam("horner_stable_ln_tau", 3, tau=1, aff=1)
fam("exp_horner_stable", 3, aff=1, ex=1)
fam("exp_horner_stable_ln_tau", 2, aff=1, ex=1, tau=1)
fam("exp_cheb", 3, cheb=1, aff=1, ex=1)
fam("exp_cheb_ln_tau", 2, cheb=1, aff=1, ex=1, tau=1)
fam("chebval_ln_tau", 3, cheb=1, aff=1, tau=1)
add("chebval", cheb=1, aff=1, n=2)
add("horner_log", logc=True)
add("horner_stable_log", aff=1, logc=True)
# ---- horner_domain
def g_dom(r):
    lo = r.uniform(-300, 300); hi = lo + r.choice((-1, 1))*lg(r, -1, 3)
    return dict(x=lo + (hi - lo)*r.choice((0.0, 1.0, r.random(), r.uniform(-1, 2))), coeffs=coeffs(r), xmin=lo, xmax=hi)
def p_dom(d, g):
    lo, hi = mpf(d["xmin"]), mpf(d["xmax"])
    y = (2*mpf(d["x"]) - lo - hi)/(hi - lo)
    ey = (2*abs(mpf(d["x"])) + abs(lo) + abs(hi))/abs(hi - lo)
    t = m = mpf(0)
    for i, c in enumerate(d["coeffs"][::-1]): t += mpf(c)*y**i; m += abs(c)*(abs(y) + 1e-15*ey)**i*(1 + i*ey/(abs(y) + 1e-15*ey + mpf("1e-300")) if abs(y) > 1e-10 else 1 + ey*i)
    return None if not isinstance(g, Err) and abs(mpf(float(g)) - t) <= 2e-15*(len(d["coeffs"]) + 5)*m else "%r, exact %s" % (g, mpmath.nstr(t, 17))
S.append(Spec("numerics.horner_domain", {}, None, target=lambda **k: N().horner_domain(**k), gen=g_dom, post=p_dom))
# ---- chebder / chebint as series operations
def g_cs(r): return dict(c=coeffs(r), m=r.choice((0, 1, 1, 2, 3, 4)), scl=r.choice((1.0, r.uniform(-3, 3))), lbnd=r.choice((0.0, 1.0, -1.0, r.uniform(-2, 2))), op=r.choice(("der", "int")))
def t_cs(c, m, scl, lbnd, op):
    n = N(); c0 = list(c)
    o = n.chebder(c, m=m, scl=scl) if op == "der" else n.chebint(c, m=m, lbnd=lbnd, scl=scl)
    return dict(o=list(o), same=list(c) == c0)
def p_cs(d, g):
    from fractions import Fraction as F
    if isinstance(g, Err): return repr(g)
    if not g["same"]: return "input modified"
    a = cheb_to_poly(d["c"])[::-1]; mg = mpf(0)
    b = sum(abs(mpf(v))*(k*k + 1) for k, v in enumerate(d["c"]))
    n = len(d["c"])
    for _ in range(d["m"]):
        if d["op"] == "der": a = [i*v*mpf(d["scl"]) for i, v in enumerate(a)][1:] or [mpf(0)]; b *= abs(d["scl"])*n*n + 1
        else:
            a = [mpf(0)] + [v*mpf(d["scl"])/(i + 1) for i, v in enumerate(a)]
            l = mpf(d["lbnd"]); s = sum(v*l**i for i, v in enumerate(a)); a[0] -= s
            b = (b*abs(d["scl"]) + 1e-300)*(2*abs(l) + 2)**(n + d["m"])*2
    o = cheb_to_poly(g["o"])[::-1] if g["o"] else [mpf(0)]
    if d["op"] == "int" and len(g["o"]) not in (n + d["m"], n): return "length %d" % len(g["o"])
    if d["op"] == "der" and len(g["o"]) > max(n - d["m"], 1): return "length %d" % len(g["o"])
    L = max(len(a), len(o)); a = a + [mpf(0)]*(L - len(a)); o = o + [mpf(0)]*(L - len(o))
    # compare as functions on [-1, 1]
    for x in (-1, mpf("-.7"), mpf("-.2"), mpf("0.1"), mpf(".55"), mpf(".9"), 1):
        u, v = sum(q*x**i for i, q in enumerate(a)), sum(q*x**i for i, q in enumerate(o))
        if abs(u - v) > 1e-14*b*(n + 3): return "differs at %s: %s exact %s" % (x, mpmath.nstr(v, 15), mpmath.nstr(u, 15))
S.append(Spec("numerics.cheb_series", {}, None, target=t_cs, gen=g_cs, post=p_cs, n=2))
# ---- integrals of a polynomial with linear extrapolation
def g_fi(r):
    lo = r.uniform(50, 400); hi = lo + r.uniform(10, 600)
    n = r.choice((1, 2, 3, 5))
    T = [r.choice((r.uniform(.2, 1)*lo, r.uniform(lo, hi), r.uniform(lo, hi), hi*r.uniform(1, 2), lo, hi)) for _ in range(2)]
    return dict(c=[r.uniform(-3, 3)/300.0**(n - 1 - i) for i in range(n)], Tmin=lo, Tmax=hi, T1=T[0], T2=T[1], s=[r.uniform(-.1, .1), r.uniform(-.1, .1)], v=[r.uniform(-5, 5), r.uniform(-5, 5)], over=r.random() < .5, value=r.random() < .5)
def t_fi(c, Tmin, Tmax, T1, T2, s, v, over, value):
    n = N()
    e = (Tmin, Tmax, v[0], v[1], s[0], s[1])
    if over:
        ic, lc = n.polyint_over_x(c)
        if value: return n.poly_fit_integral_over_T_value(T2, ic, lc, *e) - n.poly_fit_integral_over_T_value(T1, ic, lc, *e)
        return n.fit_integral_over_T_linear_extrapolation(T1, T2, ic, lc, *e)
    ic = n.polyint(c)
    if value: return n.poly_fit_integral_value(T2, ic, *e) - n.poly_fit_integral_value(T1, ic, *e)
    return n.fit_integral_linear_extrapolation(T1, T2, ic, *e)
def p_fi(d, g):
    if isinstance(g, Err): return repr(g)
    lo, hi = mpf(d["Tmin"]), mpf(d["Tmax"])
    mg = [mpf(1)]
    def anti(c, T, over):
        """antiderivative of the ascending polynomial c (over x when asked), descending input"""
        t = mpf(0); n = len(c)
        for i, v in enumerate(c[::-1]):
            w = mpf(v)*(mpmath.log(T) if over and i == 0 else T**i/i if over else T**(i + 1)/(i + 1))
            t += w; mg[0] += abs(w)
        return t
    def P(T):
        T = mpf(T); o = d["over"]
        lin = lambda s, v, a: [s, mpf(v) - mpf(s)*a]
        anti(lin(d["s"][0], d["v"][0], lo), lo, o); anti(d["c"], lo, o)   # these are added and taken off again
        if T < lo: return anti(lin(d["s"][0], d["v"][0], lo), T, o) - anti(lin(d["s"][0], d["v"][0], lo), lo, o)
        t = anti(d["c"], min(T, hi), o) - anti(d["c"], lo, o)
        if T > hi: t += anti(lin(d["s"][1], d["v"][1], hi), T, o) - anti(lin(d["s"][1], d["v"][1], hi), hi, o)
        return t
    e = P(d["T2"]) - P(d["T1"])
    if abs(mpf(g) - e) > 1e-14*mg[0]*4: return "%r, exact %s" % (g, mpmath.nstr(e, 17))
S.append(Spec("numerics.fit_integrals", {}, None, target=t_fi, gen=g_fi, post=p_fi, n=3))
# ---- linear-extrapolated fits
def g_lf(r):
    rows = r.choice((0, 1, 2, 4)); data = [[] for _ in range(9)]
    x = r.uniform(100, 900)
    for _ in range(rows):
        lo = r.choice((r.uniform(50, 500), x)); hi = r.choice((lo + r.uniform(1, 500), max(x, lo + 1)))
        c = coeffs(r, r.choice((1, 2, 4)))
        c = [v/300.0**(len(c) - 1 - i) for i, v in enumerate(c)]
        dc = [v*(len(c) - 1 - i) for i, v in enumerate(c)][:-1]; d2 = [v*(len(dc) - 1 - i) for i, v in enumerate(dc)][:-1]
        for k, v in enumerate((lo, r.uniform(-1, 1), r.uniform(-5, 5), hi, r.uniform(-1, 1), r.uniform(-5, 5), c, dc, d2)): data[k].append(v)
    return dict(data=data, x=x)
def t_lf(data, x): return [f(data, x) for f in (N().evaluate_linear_fits, N().evaluate_linear_fits_d, N().evaluate_linear_fits_d2)]
def r_lf(data, x):
    o = [[], [], []]
    ev = lambda c, k: sum(mpf(v)*math.perm(len(c) - 1 - i, k)*mpf(x)**(len(c) - 1 - i - k) for i, v in enumerate(c) if len(c) - 1 - i >= k)
    for i in range(len(data[0])):
        lo, sl, vl, hi, sh, vh, c = (q[i] for q in data[:7])
        if x < lo: t = (vl + sl*(x - lo), sl, 0.0)
        elif x > hi: t = (vh + sh*(x - hi), sh, 0.0)
        else: t = tuple(float(ev(c, k)) for k in range(3))
        for k in range(3): o[k].append(ANY_D2 if k == 2 and x in (lo, hi) else Approx(t[k], 1e-10, 1e-9))
    return o
from ..engine import ANY as ANY_D2
S.append(Spec("numerics.evaluate_linear_fits", {}, r_lf, target=t_lf, gen=g_lf))
# ---- sign tests
def g_pp(r):
    roots = sorted(r.uniform(-4, 4) for _ in range(r.choice((0, 1, 2, 3))))
    quad = [(r.uniform(-3, 3), r.uniform(.3, 3)) for _ in range(r.choice((0, 1, 2)))]
    dm = None
    if r.random() < .6:
        a = r.uniform(-5, 4); dm = [a, a + r.uniform(.3, 5)]
    return dict(roots=roots, quad=quad, lead=r.choice((-1, 1))*lg(r, -1, 1), domain=dm, neg=r.random() < .4, pts=r.choice((10, 10, 4, 30)))
def pbuild(d):
    c = [mpf(d["lead"])]
    mul = lambda a, b: [sum(a[i]*b[k - i] for i in range(len(a)) if 0 <= k - i < len(b)) for k in range(len(a) + len(b) - 1)]
    for v in d["roots"]: c = mul(c, [mpf(1), -mpf(v)])
    for p, q in d["quad"]: c = mul(c, [mpf(1), -2*mpf(p), mpf(p)**2 + mpf(q)**2])
    return [float(v) for v in c]
def t_pp(**d):
    n = N(); c = pbuild(d)
    f = n.is_poly_negative if d["neg"] else n.is_poly_positive
    return bool(f(c, domain=d["domain"], rand_pts=d["pts"]))
def r_pp(**d):
    rs = d["roots"]; dm = d["domain"]
    if any(b - a < .15 for a, b in zip(rs, rs[1:])) or any(abs(v) < .05 for v in rs): return SKIP
    if dm and any(min(abs(v - dm[0]), abs(v - dm[1])) < 1e-3 for v in rs): return SKIP
    s = d["lead"]*(-1 if d["neg"] else 1)
    inside = [v for v in rs if dm is None or dm[0] < v < dm[1]]
    if inside: return False
    x = 0.0 if dm is None else dm[0]
    v = s
    for q in rs: v *= (x - q)
    return bool(v > 0)
S.append(Spec("numerics.is_poly_positive", {}, r_pp, target=t_pp, gen=g_pp))
# ---- truncated numpy exp and log
def g_te(r): return dict(x=[r.choice((r.uniform(-800, 800), 709.78, 709.79, 1e300, 0.0, r.uniform(0, 5), -r.uniform(0, 5))) for _ in range(r.choice((1, 4, 9)))], log=r.random() < .5, out=r.random() < .3, trunc=r.choice((None, None, 5.5)))
def t_te(x, log, out, trunc):
    import numpy as np
    n = N(); a = np.array(x)
    kw = {}
    if out: kw["out"] = np.full_like(a, -7.0)
    if trunc is not None: kw["trunc"] = trunc
    o = (n.trunc_log_numpy if log else n.trunc_exp_numpy)(a, **kw)
    if out and o is not kw["out"]: return ["not the given array"]
    return [float(v) for v in o]
def r_te(x, log, out, trunc):
    if log:
        if any(v < 0 for v in x): return Raises(ValueError)
        return [Approx(math.log(v), 1e-14, 1e-15) if v > 0 else (trunc if trunc is not None else Approx(-744.4400719213812, 1e-12)) for v in x]
    return [Approx(math.exp(v), 1e-14, 0) if v < 709.782712893384 else (trunc if trunc is not None else Approx(1.7976931348622732e308, 1e-12)) for v in x]
S.append(Spec("numerics.trunc_numpy", {}, r_te, target=t_te, gen=g_te, n=.5))
def g_t1(r): return dict(x=r.choice((r.uniform(-800, 800), 709.78, 709.79, 1e300, 0.0, 5e-324, lg(r, -300, 300))), log=r.random() < .5)
def r_t1(x, log):
    if log: return Raises(ValueError) if x < 0 else Approx(math.log(x) if x else -744.4400719213812, 1e-12, 1e-15)
    return Approx(math.exp(x), 1e-14, 0) if x < 709.7827 else Approx(1.7976931348622732e308, 1e-10)
S.append(Spec("numerics.trunc_scalar", {}, r_t1, target=lambda x, log: (N().trunc_log if log else N().trunc_exp)(x), gen=g_t1, n=.5))
