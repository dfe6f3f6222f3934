"""P32 polynomial roots and algebra against exact rational arithmetic and 60-digit root finding"""
import math
from fractions import Fraction as F
from mpmath import mp, mpf, mpc
import mpmath
from ..dom import *
from ..engine import Raises, SKIP, Approx, Err, Spec, close
from .solve import lg, N
from .polyeval import coeffs, spoly, slog, sexp, sc, sadd
S = []
# ---- roots
def fmul(a, b): return [sum(a[i]*b[k - i] for i in range(len(a)) if 0 <= k - i < len(b)) for k in range(len(a) + len(b) - 1)]
def g_roots(name, deg, a0):
    def gen(r):
        k = r.choice(("coef", "roots", "roots", "int", "int", "scaled") + (("a0",) if a0 else ()))
        if k == "coef" or k == "a0":
            c = [r.choice((r.uniform(-5, 5), r.uniform(-5, 5), 0.0, 1.0)) for _ in range(deg + 1)]
            if name == "roots_cubic" and r.random() < .3: c[0] = 1.0
            if k == "a0":
                c[0] = 0.0
                if deg == 3 and r.random() < .4: c[1] = 0.0
        elif k == "scaled": c = [r.uniform(-1, 1)*lg(r, -8, 8) for _ in range(deg + 1)]
        else:
            p = [F(r.choice((1, 1, -2, 3))) if k == "int" else F(r.choice((1.0, r.uniform(-3, 3))))]
            n = deg
            while n:
                if n > 1 and r.random() < .3:
                    u, v = (r.randint(-3, 3), r.randint(1, 4)) if k == "int" else (r.uniform(-3, 3), r.uniform(.2, 3))
                    p = fmul(p, [F(1), -2*F(u), F(u)**2 + F(v)**2]); n -= 2
                else:
                    u = r.randint(-3, 3) if k == "int" else r.uniform(-5, 5)
                    p = fmul(p, [F(1), -F(u)]); n -= 1
            c = [float(v) for v in p]
        if c[0] == 0 and not a0: c[0] = 1.0
        if a0 and not any(c[:-1]): c[-2] = 2.0
        return dict(name=name, c=c)
    return gen
def t_roots(name, c):
    f = getattr(N(), name)
    return f(*([v/c[0] for v in c[1:]] if name == "roots_cubic_a1" else c))
def exact_roots(c):
    c = [mpf(v) for v in c]
    while c and c[0] == 0: c = c[1:]
    z = 0
    while c and c[-1] == 0: c = c[:-1]; z += 1
    if len(c) == 1: return [mpf(0)]*z
    if len(c) == 2: return [mpf(0)]*z + [-c[1]/c[0]]
    if len(c) == 3:
        D = mpmath.sqrt(mpc(c[1]**2 - 4*c[0]*c[2]))
        return [mpf(0)]*z + [(-c[1] + D)/(2*c[0]), (-c[1] - D)/(2*c[0])]
    try: r = mpmath.polyroots(c, maxsteps=200, extraprec=400, error=False)
    except mpmath.libmp.libhyper.NoConvergence: return None
    except Exception: return None
    return [mpf(0)]*z + list(r)
def p_roots(d, g):
    c, name = list(d["c"]), d["name"]
    if name == "roots_cubic_a1": c = [1.0] + [v/c[0] for v in c[1:]]
    ex = exact_roots(c)
    if ex is None: return SKIP
    deg = len(c) - 1; lead = next(i for i, v in enumerate(c) if v)
    M = max(map(abs, ex))
    if isinstance(g, Err):
        # the bare closed forms have no division checks (documented in the code); the checked ones may not fail
        if name in ("roots_cubic", "roots_quadratic"):
            return repr(g)
        return None if isinstance(g.e, (ZeroDivisionError, OverflowError)) else repr(g)
    if M == 0: return None if all(abs(v) == 0 for v in g) else "roots of zero are %r" % (g,)
    if len(g) != deg: return "returned %d roots" % len(g)
    got = [mpc(complex(v).real, complex(v).imag) for v in g]
    if any(mpmath.isnan(v) for v in got): return "nan roots %r" % (g,)
    if lead:
        # degenerate: the roots of the lower polynomial, some repeated to fill
        tol = 1e-7*M
        for v in got:
            if min(abs(v - e) for e in ex) > tol: return "%s is not a root" % mpmath.nstr(v, 12)
        for e in ex:
            if min(abs(v - e) for v in got) > tol: return "root %s missing from %r" % (mpmath.nstr(e, 12), g)
        return None
    if name == "roots_quadratic":
        # each root to relative accuracy set by its own conditioning
        D = abs(mpf(c[1])**2 - 4*mpf(c[0])*mpf(c[2])); mag = abs(mpf(c[1]))**2 + 4*abs(mpf(c[0])*mpf(c[2]))
        rel = 1e-14*mag/D if D else mpf(1)
        rel = min(rel, 3e-8*mpmath.sqrt(mag/max(D, mag*mpf("1e-17")))*1) if D < mag*mpf("1e-10") else rel
        for v, e in zip(sorted(got, key=lambda t: (t.real, t.imag)), sorted(ex, key=lambda t: (mpc(t).real, mpc(t).imag))):
            sc_ = abs(e) if D >= mag*mpf("1e-10") else M
            if abs(v - e) > rel*sc_*4 + mpf("1e-300"): return "root %s, exact %s" % (mpmath.nstr(v, 17), mpmath.nstr(e, 17))
        return None
    s = sorted(ex, key=lambda t: abs(t))
    sep = min([abs(a - b) for i, a in enumerate(ex) for b in ex[:i]])
    lo = min(map(abs, ex))
    if sep >= M*mpf(".05"): tol = mpf("3e-6")  # U or S of the closed form may be all rounding error: cbrt(eps)
    elif all(float(v).is_integer() for v in c): tol = mpf("1e-4")
    else: return SKIP
    if name != "roots_cubic":
        # how close the closed form comes to its 0/0: depressed polynomial coefficients relative to the root size
        a = [mpf(v)/mpf(c[0]) for v in c]
        sh = -a[1]/deg
        y = [e - sh for e in ex]; Y = max(map(abs, y))
        if not Y > M*mpf(".01"): return SKIP
        if deg == 3:
            p = y[0]*y[1] + y[0]*y[2] + y[1]*y[2]
            if abs(p) < .02*Y**2: return SKIP
        else:
            q = sum(y[i]*y[j]*y[k] for i in range(4) for j in range(i) for k in range(j))
            p = sum(y[i]*y[j] for i in range(4) for j in range(i)); s_ = y[0]*y[1]*y[2]*y[3]
            if abs(q) < .02*Y**3 or abs(p*p + 12*s_) < .05*Y**4: return SKIP
        if sep < M*mpf(".05"): return SKIP
        tol = mpf("1e-4")
    left = list(got)
    for e in ex:
        v = min(left, key=lambda t: abs(t - e)); left.remove(v)
        if abs(v - e) > tol*M*(1 if name != "roots_cubic" else 10): return "no returned root near %s (closest %s of %r)" % (mpmath.nstr(e, 12), mpmath.nstr(v, 12), g)
for nm, deg, a0 in (("roots_quadratic", 2, True), ("roots_cubic", 3, True), ("roots_cubic_a1", 3, False), ("roots_cubic_a2", 3, False), ("roots_quartic", 4, False)):
    S.append(Spec("numerics." + nm, {}, None, target=t_roots, gen=g_roots(nm, deg, a0), post=p_roots, n=2))
# ---- algebra on coefficient lists
def fh(c, x):
    t = F(0)
    for v in c: t = t*x + F(v)
    return t
def near(o, e, mag, tol=1e-14):
    if len(o) != len(e): return "length %d instead of %d" % (len(o), len(e))
    for i, (a, b) in enumerate(zip(o, e)):
        m = mag[i] if isinstance(mag, list) else mag
        if not abs(F(float(a)) - b) <= F(tol)*F(m) + F(1, 10**300): return "coefficient %d is %r, exact %r" % (i, a, float(b))
def g_al(r):
    lo = r.uniform(-300, 300); hi = lo + r.choice((-1, 1, 1))*lg(r, -1, 3)
    return dict(op=r.choice(("add", "mul", "int", "intx", "der", "unstable", "istable", "xstable", "convert", "os")), a=coeffs(r)[:9], b=coeffs(r)[:9], m=r.choice((1, 1, 0, 2, 3, 5)), lo=r.choice((lo, -1.0)), hi=r.choice((hi, hi, 1.0)))
def t_al(op, a, b, m, lo, hi):
    n = N(); a0, b0 = list(a), list(b)
    from fluids.numerics import polynomial_utils as u
    o = {"add": lambda: u.poly_add(a, b), "mul": lambda: u.poly_mul(a, b), "int": lambda: n.polyint(a), "intx": lambda: n.polyint_over_x(a), "der": lambda: n.polyder(a, m),
         "unstable": lambda: n.stable_poly_to_unstable(a, lo, hi), "istable": lambda: n.polyint_stable(a, lo, hi), "xstable": lambda: n.polyint_over_x_stable(a, lo, hi),
         "convert": lambda: u.poly_convert(a, lo, hi), "os": lambda: n.polynomial_offset_scale(lo, hi)}[op]()
    return dict(o=o, ok=a == a0 and b == b0)
def ab(c): return [abs(F(v)) for v in c]
def p_al(d, g):
    if isinstance(g, Err): return repr(g) if d["lo"] != d["hi"] else None
    if not g["ok"]: return "argument modified"
    op, o = d["op"], g["o"]; a, b = [F(v) for v in d["a"]], [F(v) for v in d["b"]]; n = len(a)
    lo, hi = F(d["lo"]), F(d["hi"])
    if lo == hi: return SKIP
    if op == "add":
        L = max(n, len(b))
        return near(o, [(a[i] if i < n else 0) + (b[i] if i < len(b) else 0) for i in range(L)], [abs(a[i] if i < n else 0) + abs(b[i] if i < len(b) else 0) for i in range(L)])
    if op == "mul": return near(o, fmul(a, b), fmul(ab(a), ab(b)))
    if op == "int": return near(o, [v/(n - i) for i, v in enumerate(a)] + [F(0)], [abs(v) for v in a] + [0])
    if op == "intx":
        if o[1] != d["a"][-1]: return "log coefficient %r" % (o[1],)
        return near(o[0], [v/(n - 1 - i) for i, v in enumerate(a[:-1])] + [F(0)], [abs(v) for v in a])
    if op == "der":
        e = a
        for _ in range(d["m"]): e = [i*v for i, v in enumerate(e)][1:]
        return near(o, e, [abs(v) for v in e])
    A, B = 2/(hi - lo), -(hi + lo)/(hi - lo); Bm = (abs(hi) + abs(lo))/abs(hi - lo)
    if op == "os": return near(o, [B, A], [Bm, abs(A)])
    if op == "istable": return near(o, [v/(n - i)/A for i, v in enumerate(a)] + [F(0)], [abs(v/A) for v in a] + [0])
    e, m = [a[0]], [abs(a[0])]
    for v, w in zip(a[1:], ab(a)[1:]):
        e = fmul(e, [A, B]); e[-1] += v
        m = fmul(m, [abs(A), Bm]); m[-1] += w
    if op == "unstable":
        k = 0
        o = [F(float(v)) for v in o]
        e2 = e[n - len(o):] if len(o) <= n else e
        for v, w in zip(e[:n - len(o)], m):
            if abs(v) > w*F(1, 10**13): return "dropped a coefficient"
        return near(o, e2, m[n - len(o):] if len(o) <= n else m, 1e-13)
    if op == "xstable":
        lc = e[-1]
        w = near([o[1]], [lc], [m[-1]], 1e-13)
        if w: return "log " + w
        return near(o[0], [v/(n - 1 - i) for i, v in enumerate(e[:-1])] + [F(0)], [v/(n - 1 - i) for i, v in enumerate(m[:-1])] + [0], 1e-13)
    if op == "convert":
        c, s = (lo + hi)/2, (hi - lo)/2
        e, m = [F(0)], [F(0)]
        for v in a[::-1]:
            e = [(e[i]*c if i < len(e) else 0) + (e[i - 1]*s if i else v) + (0 if i else 0) for i in range(len(e) + 1)] if 0 else fmul2(e, c, s, v)
            m = fmul2(m, (abs(lo) + abs(hi))/2, abs(s) + (abs(lo) + abs(hi))*F(1, 10**15), abs(v))
        return near(o, e[:n], m[:n], 1e-13)
def fmul2(e, c, s, v):
    o = fmul(e, [c, s]); o[0] += v
    return o
S.append(Spec("numerics.poly_algebra", {}, None, target=t_al, gen=g_al, post=p_al, n=6))
# ---- interpolating forms
def g_in(r):
    x = [r.uniform(-5, 5) for _ in range(3)]
    Tc = r.uniform(100, 1000)
    return dict(op=r.choice(("points", "ders", "tau2", "tau3", "deflate")), x=x, f=[r.uniform(-5, 5) for _ in range(3)], Tc=Tc, T=Tc*r.uniform(.3, .97), val=lg(r, -4, 4), sl=[r.uniform(-3, 3), r.uniform(-1, 1)], roots=[r.choice((r.uniform(-5, 5), float(r.randint(-3, 3)))) for _ in range(3)], im=r.random() < .2)
def t_in(op, x, f, Tc, T, val, sl, roots, im):
    n = N()
    if op == "points": return n.quadratic_from_points(*x, *f)
    if op == "ders": return n.quadratic_from_f_ders(x[0], *f)
    d1, d2 = val*sl[0]/Tc, val*sl[1]/Tc**2*5
    if op == "tau2": return n.exp_poly_ln_tau_coeffs2(T, Tc, val, d1)
    if op == "tau3": return n.exp_poly_ln_tau_coeffs3(T, Tc, val, d1, d2)
    return n.deflate_cubic_real_roots(*dcub(roots, im))
def dcub(roots, im):
    p = [F(1), -F(roots[0])]
    p = fmul(p, fmul([F(1), -F(roots[1])], [F(1), -F(roots[2])]) if not im else [F(1), -2*F(roots[1]), F(roots[1])**2 + F(roots[2])**2 + 1])
    return tuple(float(v) for v in p[1:]) + (roots[0],)
def p_in(d, g):
    op = d["op"]
    if isinstance(g, Err): return repr(g)
    x, f = d["x"], d["f"]
    if op == "points":
        q = min(abs(a - b) for a, b in ((x[0], x[1]), (x[0], x[2]), (x[1], x[2])))
        if q < .05: return SKIP
        for u, v in zip(x, f):
            if abs(fh(g, F(u)) - F(v)) > F(1e-9)/F(q)**2: return "does not pass through (%r, %r)" % (u, v)
    elif op == "ders":
        a, b, c = map(F, g); u = F(x[0])
        for v, w in ((a*u*u + b*u + c, f[0]), (2*a*u + b, f[1]), (2*a, f[2])):
            if abs(v - F(w)) > F(1e-12): return "value or derivative is %r instead of %r" % (float(v), w)
    elif op in ("tau2", "tau3"):
        Tc, T, val = mpf(d["Tc"]), mpf(d["T"]), mpf(d["val"])
        y = slog([1 - T/Tc, -1/Tc, mpf(0), mpf(0), mpf(0)])
        o = sexp(spoly(list(g), y))
        want = [val, mpf(d["val"]*d["sl"][0]/d["Tc"]), mpf(d["val"]*d["sl"][1]/d["Tc"]**2*5)]
        sizes = [val, val/(Tc - T)*3, val/(Tc - T)**2*10]
        for k in range(2 if op == "tau2" else 3):
            v = o[k]*math.factorial(k)
            if abs(v - want[k]) > 1e-10*(sizes[k] + abs(want[k]))*(1 + abs(y[0]))**2: return "derivative %d is %s instead of %s" % (k, mpmath.nstr(v, 15), mpmath.nstr(want[k], 15))
    else:
        r = d["roots"]
        if d["im"]: return None if tuple(g) == (0.0, 0.0) else "complex pair gave %r" % (g,)
        if 0 < abs(r[0]) < 1e-2: return SKIP
        sep = abs(r[1] - r[2]); M = max(map(abs, r)) + 1
        if 0 < sep < .05: return SKIP
        if sep == 0:
            # a rounding error may turn the double root into a complex pair, reported as zeros
            if tuple(g) == (0.0, 0.0): return SKIP
            tol = 1e-5
        else: tol = 1e-9*(1 + M/abs(r[0]) if r[0] else 1)
        for a, b in zip(sorted(g), sorted(r[1:])):
            if abs(a - b) > tol*M*M: return "%r instead of %r" % (g, r[1:])
S.append(Spec("numerics.poly_forms", {}, None, target=t_in, gen=g_in, post=p_in, n=3))
