"""P29 scalar solvers: certificates from the recorded evaluation log"""
import math
from math import *
from ..dom import *
from ..lib import adder
from ..engine import Raises, SKIP, Approx, Err, Spec, close, OneOf, CallTimeout
S = []
def N():
    import fluids.numerics as n
    return n
# ---- function families: kind -> (f, f', f'')(x; r, k, w), root(s) at r
def fam(kind, r, k, w, sc):
    t = lambda x: w*(x - r)
    sg = lambda v: math.copysign(1.0, v) if v else 0.0
    if kind == "mono":      # slope between k and 3k
        return (lambda x: sc*(k*(x - r) + 2*k*tanh(t(x))/w), lambda x: sc*(k + 2*k*(1 - tanh(t(x))**2)), lambda x: sc*(-4*k*w*tanh(t(x))*(1 - tanh(t(x))**2)))
    if kind == "lin":
        return lambda x: sc*k*(x - r), lambda x: sc*k, lambda x: 0.0
    if kind == "cubic":
        return (lambda x: sc*((x - r)**3*w*w + k*(x - r)), lambda x: sc*(3*(x - r)**2*w*w + k), lambda x: sc*6*w*w*(x - r))
    if kind == "triple":
        return lambda x: sc*(x - r)**3, lambda x: sc*3*(x - r)**2, lambda x: sc*6*(x - r)
    if kind == "flat21":
        return lambda x: sc*(x - r)**21, lambda x: sc*21*(x - r)**20, lambda x: sc*420*(x - r)**19
    if kind == "exp":
        e = lambda x: exp(min(700.0, t(x)))
        return lambda x: sc*(e(x) - 1), lambda x: sc*w*e(x), lambda x: sc*w*w*e(x)
    if kind == "negexp":
        e = lambda x: exp(min(700.0, -t(x)))
        return lambda x: sc*(1 - e(x)), lambda x: sc*w*e(x), lambda x: -sc*w*w*e(x)
    if kind == "atan":
        return lambda x: sc*atan(t(x)), lambda x: sc*w/(1 + t(x)**2), lambda x: -2*sc*w*w*t(x)/(1 + t(x)**2)**2
    if kind == "tanh":
        return lambda x: sc*tanh(t(x)), lambda x: sc*w*(1 - tanh(t(x))**2), lambda x: -2*sc*w*w*tanh(t(x))*(1 - tanh(t(x))**2)
    if kind == "sin":
        return lambda x: sc*sin(t(x)), lambda x: sc*w*cos(t(x)), lambda x: -sc*w*w*sin(t(x))
    if kind == "cbrt":
        return (lambda x: sc*sg(x - r)*abs(x - r)**(1/3.), lambda x: sc/3*abs(x - r)**(-2/3.) if x != r else 1e300, lambda x: -sc*2/9.*sg(x - r)*abs(x - r)**(-5/3.) if x != r else 0.0)
    if kind == "step":
        return lambda x: sc*(1.0 if x >= r else -k), lambda x: 0.0, lambda x: 0.0
    if kind == "clip":
        return lambda x: sc*min(1.0, max(-1.0, t(x))), lambda x: sc*w if abs(t(x)) < 1 else 0.0, lambda x: 0.0
    if kind == "parab":     # no root: k + square
        return lambda x: sc*((x - r)**2*w + k), lambda x: sc*2*w*(x - r), lambda x: sc*2*w
    if kind == "tworoot":   # roots r and r + 1/w
        return lambda x: sc*(x - r)*(x - r - 1/w), lambda x: sc*(2*(x - r) - 1/w), lambda x: 2*sc
    if kind == "const":
        return lambda x: sc*k, lambda x: 0.0, lambda x: 0.0
    raise KeyError(kind)
ONE = ("mono", "lin", "cubic", "triple", "flat21", "exp", "negexp", "atan", "tanh", "cbrt", "step", "clip")
def lg(r, a, b): return 10**r.uniform(a, b)
def base(r, kinds):
    k = r.choice(kinds)
    root = r.choice((0.0, lg(r, -6, 6)*r.choice((-1, 1)), r.uniform(-5, 5), float(r.randint(-9, 9))))
    w = lg(r, -3, 3) if r.random() < .5 else lg(r, -.5, .5)/max(abs(root), 1e-3)
    sc = r.choice((1, -1))*(1.0 if r.random() < .4 else lg(r, -9, 9) if r.random() < .8 else lg(r, -250, 60))
    return dict(kind=k, r=root, k=lg(r, -2, 2), w=w, sc=sc)
class Log:
    def __init__(s, f): s.f, s.xs, s.ys, s.a = f, [], [], []
    def __call__(s, x, *args, **kw):
        s.a.append((args, kw))
        y = s.f(x)
        s.xs.append(x); s.ys.append(y)
        return y
def boxed(log, fn):
    try: x = fn()
    except CallTimeout: raise
    except Exception as e: return dict(err=type(e).__name__, msg=str(e)[:100], xs=log.xs, ys=log.ys, a=log.a)
    return dict(x=x, xs=log.xs, ys=log.ys, a=log.a)
def opts(d, *ks): return {k: d[k] for k in ks if d.get(k) is not None}
# ---- bracketing
def g_br(r):
    d = base(r, ONE + ("sin", "parab", "tworoot", "const"))
    sp = lambda: (1/d["w"] if r.random() < .5 else max(abs(d["r"]), 1e-3))*lg(r, -3, 3)
    u = r.random()
    if u < .06: a, b = d["r"], d["r"] + sp()
    elif u < .12: a, b = d["r"] - sp(), d["r"]
    elif u < .2: a, b = d["r"] + sp(), d["r"] + sp()
    elif u < .26: a, b = d["r"] - sp(), d["r"] - sp()
    else: a, b = d["r"] - sp(), d["r"] + sp()
    if r.random() < .3: a, b = b, a
    d.update(a=a, b=b, solver=r.choice(("brenth", "brenth", "bisect", "ridder")))
    d["maxiter"] = r.choice((100, 100, 1000, 1000, r.randint(1, 12)))
    m = max(abs(a), abs(b))
    d["xtol"] = r.choice((None, lg(r, -12, -1), m*lg(r, -15, -1)))
    d["rtol"] = r.choice((None, None, lg(r, -15, -3)))
    if d["solver"] != "ridder" and r.random() < .35: d["ytol"] = abs(d["sc"])*lg(r, -10, 0)
    if d["solver"] == "brenth":
        d["q"] = r.random() < .4
        if r.random() < .3: d["pre"] = r.choice(("fa", "fb", "both"))
        if r.random() < .2: d["kw"] = {"u": 3}
    if r.random() < .2: d["args"] = [1, "z"]
    return d
def t_br(**d):
    n = N(); f = fam(d["kind"], d["r"], d["k"], d["w"], d["sc"])[0]
    log = Log(f)
    o = opts(d, "maxiter", "xtol", "rtol", "ytol")
    if d["solver"] == "brenth":
        if d["q"]: o["q"] = True
        p = d.get("pre")
        if p in ("fa", "both"): o["fa"] = f(d["a"])
        if p in ("fb", "both"): o["fb"] = f(d["b"])
        if "kw" in d: o["kwargs"] = d["kw"]
    if "args" in d: o["args"] = tuple(d["args"])
    return boxed(log, lambda: getattr(n, d["solver"])(log, d["a"], d["b"], **o))
def passed(d, g):
    want = (tuple(d.get("args", ())), d.get("kw", {}))
    for v in g["a"]:
        if v != want: return "function was called with %r, not %r" % (v, want)
DEF = {"brenth": (1e-12, 4.440892098500626e-16), "bisect": (1e-12, 2.220446049250313e-16), "ridder": (1e-12, 4.45e-16)}
def p_br(d, g):
    w = passed(d, g)
    if w: return w
    f = fam(d["kind"], d["r"], d["k"], d["w"], d["sc"])[0]
    a, b = d["a"], d["b"]
    lo, hi = min(a, b), max(a, b)
    fa, fb = f(a), f(b)
    sv = d["solver"]
    per = 2 if sv == "ridder" else 1
    given = {"fa": 1, "fb": 1, "both": 2}.get(d.get("pre"), 0)
    if len(g["xs"]) > per*d["maxiter"] + 2 - given: return "%d evaluations with maxiter=%d" % (len(g["xs"]), d["maxiter"])
    xt, rt = DEF[sv]
    if d["xtol"] is not None: xt = d["xtol"]
    if d["rtol"] is not None: rt = d["rtol"]
    for x in g["xs"]:
        out = .5*(xt + rt*abs(x)) if sv == "brenth" else 0   # Brent's method probes half a tolerance past its best point
        ul = 1e-15*max(abs(lo), abs(hi))
        if not lo - ul - out <= x <= hi + ul + out: return "evaluated outside the bracket at %r" % x
    nob = fa > 0 and fb > 0 or fa < 0 and fb < 0
    if "err" in g:
        if g["err"] == "ZeroDivisionError" and any(0 < abs(v) < 1e-90 for v in g["ys"] + [fa, fb]): return None   # underflow
        if any(abs(v) > 1e150 for v in g["ys"] + [fa, fb]): return SKIP
        if nob:
            want = "NotBoundedError" if sv == "brenth" else "ValueError"
            return None if g["err"] == want else "not bracketed: raised %s" % g["err"]
        if fa == 0 or fb == 0: return "raised %s with a root at an end" % g["err"]
        if g["err"] != "UnconvergedError": return "raised %s: %s" % (g["err"], g["msg"])
        if len(g["xs"]) < per*d["maxiter"] + 2 - given: return "gave up after %d evaluations of %d" % (len(g["xs"]), d["maxiter"])
        # bisection must be done by then; the others within their known worst case
        m = max(abs(a), abs(b))
        if "ytol" not in d and xt > 1e-14*m:
            need = log2(max(2.0, (hi - lo)/xt)) + 3
            if d["maxiter"] > need*(1 if sv == "bisect" else need if sv == "brenth" else 8): return "not converged in %d iterations (%g bisections)" % (d["maxiter"], need)
        return None
    x = g["x"]
    if nob: return "returned %r although f(a), f(b) have the same sign" % x
    if not (type(x) is float or type(x) is int): return "returned %r" % (x,)
    if not lo <= x <= hi: return "%r is outside the bracket" % x
    fx = f(x)
    if fx == 0: return None
    if sv == "ridder" or x in (a, b) or x in g["xs"]: pass
    else: return "%r was never evaluated" % x
    if "ytol" in d and not abs(fx) < d["ytol"]: return "|f| = %g >= ytol %g" % (abs(fx), d["ytol"])
    dl = xt + rt*abs(x)
    if sv == "bisect": dl = xt/(1 - min(rt, .5))*(1 + 1e-9) + 4e-16*abs(x)
    pts = [(u, v) for u, v in zip(g["xs"], g["ys"])] + [(a, fa), (b, fb)]
    if not any((v > 0) != (fx > 0) and abs(u - x) <= dl*(1 + 1e-9) + 4e-16*abs(x) for u, v in pts): return "no sign change was seen within %g of %r" % (dl, x)
S.append(Spec("numerics.bracketing", {}, None, target=t_br, gen=g_br, post=p_br, n=8))
# ---- open solvers
OPEN = ("mono", "lin", "cubic", "triple", "exp", "negexp", "atan", "tanh", "cbrt", "clip", "sin", "parab", "tworoot", "const", "step")
def g_op(r):
    sv = r.choice(("secant", "newton", "newton", "halley"))
    d = base(r, ("mono",)*6 + ("lin",)*2 + OPEN)
    d["solver"] = sv
    if abs(log10(abs(d["sc"]))) > 60: d["sc"] = 1.0
    L_ = 1/d["w"] if r.random() < .6 else max(abs(d["r"]), 1e-3)
    d["x0"] = d["r"] + r.choice((-1, 1))*L_*lg(r, -3, 1.5)
    if r.random() < .04: d["x0"] = d["r"]
    if r.random() < .1: d["x0"] = 0.0
    d["maxiter"] = r.choice((100, 100, 300, r.randint(1, 8)))
    if sv == "secant" and r.random() < .4: d["x1"] = d["r"] + r.choice((-1, 1))*L_*lg(r, -3, 1.5)
    u = r.random()
    if u < .25: lo = d["x0"] - L_*lg(r, -3, 2); hi = d["x0"] + L_*lg(r, -3, 2)
    elif u < .4: lo = min(d["x0"], d["r"]) - L_*lg(r, -3, 2); hi = max(d["x0"], d["r"]) + L_*lg(r, -3, 2)
    elif u < .5: lo, hi = d["x0"], max(d["x0"], d["r"]) + L_
    elif u < .55: lo, hi = min(d["r"], d["x0"]), d["x0"] + 1
    else: lo = hi = None
    if lo is not None:
        v = r.random()
        if v < .25: lo = None
        elif v < .5: hi = None
    if "x1" in d:
        if lo is not None: d["x1"] = max(d["x1"], lo)
        if hi is not None: d["x1"] = min(d["x1"], hi)
        if d["x1"] == d["x0"]: del d["x1"]
    d["low"], d["high"] = lo, hi
    if r.random() < .25: d["damping"] = r.uniform(.3, 1.0)
    d["tol"] = r.choice(("x", "x", "y", "xy", "yx"))
    d["xtol"] = r.choice((1.48e-8, lg(r, -13, -8)))
    d["ytol"] = abs(d["sc"])*lg(r, -12, -3)
    d["require_eval"] = r.random() < .4
    d["bisection"] = r.random() < .4
    if sv != "halley" and r.random() < .25: d["additional_guesses"] = True
    if sv == "newton": d["der"] = r.choice((1, 1, 2, "f1", "f2"))
    if sv == "newton" and r.random() < .15: d["damp"] = r.choice(("sign", "own"))
    if sv == "halley" and r.random() < .3: d["ratio"] = r.choice((None, None, .1, 5.0))
    if sv == "secant" and r.random() < .2: d["pre"] = r.choice(("f0", "f1", "both"))
    if r.random() < .2: d["args"] = [1, "z"]
    if r.random() < .2: d["kw"] = {"u": 3}
    return d
def t_op(**d):
    n = N(); f, f1, f2 = fam(d["kind"], d["r"], d["k"], d["w"], d["sc"])
    sv = d["solver"]
    o = opts(d, "maxiter", "low", "high", "damping", "x1", "additional_guesses")
    if d["require_eval"]: o["require_eval"] = True
    if d["bisection"]: o["bisection"] = True
    if d["tol"] == "x": o["xtol"] = d["xtol"]
    elif d["tol"] == "y": o["ytol"] = d["ytol"]; o["xtol"] = None
    else:
        o["ytol"], o["xtol"] = d["ytol"], d["xtol"]
        if d["tol"] == "yx" and sv != "halley": o["require_xtol"] = False
    if "args" in d: o["args"] = tuple(d["args"])
    if "kw" in d: o["kwargs"] = d["kw"]
    log = Log(f)
    if sv == "secant":
        x1 = d.get("x1")
        if d.get("pre") in ("f0", "both"): o["f0"] = f(d["x0"])
        if d.get("pre") in ("f1", "both") and x1 is not None: o["f1"] = f(x1)
        fn = lambda: n.secant(log, d["x0"], **o)
    elif sv == "halley":
        def fun(x, *a, **k): return log(x, *a, **k), f1(x), f2(x)
        if "ratio" in d: o["max_2nd_ratio"] = d["ratio"]
        fn = lambda: n.halley(fun, d["x0"], **o)
    else:
        if d.get("damp") == "sign": o["damping_func"] = n.damping_maintain_sign
        elif d.get("damp"):
            def own(x, step, damping, *a):
                assert damping == d.get("damping", 1.0), "the damping function was given %r" % damping
                return x + step*damping
            o["damping_func"] = own
        der = d["der"]
        def A(x, *a, **k): return log(x, *a, **k), f1(x)
        def B(x, *a, **k): return log(x, *a, **k), f1(x), f2(x)
        D1 = lambda x, *a, **k: f1(x)
        D2 = lambda x, *a, **k: f2(x)
        if der == 1: fn = lambda: n.newton(A, d["x0"], fprime=True, **o)
        elif der == 2: fn = lambda: n.newton(B, d["x0"], fprime=True, fprime2=True, **o)
        elif der == "f1": fn = lambda: n.newton(log, d["x0"], fprime=D1, **o)
        else: fn = lambda: n.newton(log, d["x0"], fprime=D1, fprime2=D2, **o)
    return boxed(log, fn)
def p_op(d, g):
    w = passed(d, g)
    if w: return w
    f, f1, f2 = fam(d["kind"], d["r"], d["k"], d["w"], d["sc"])
    sv, lo, hi, tol = d["solver"], d["low"], d["high"], d["tol"]
    if sv == "halley" and d.get("ratio", 1) is None and lo is None and hi is None and not d["bisection"]:
        for u, y, v in zip(g["xs"], g["ys"], g["xs"][1:]):
            try: q = y/f1(u); q = q/(1 - .5*q*f2(u)/f1(u))*d.get("damping", 1.0)
            except (ZeroDivisionError, OverflowError): break
            if not abs(v - (u - q)) <= 1e-9*(abs(q) + abs(u)) and abs(q) < 1e100: return "step from %r to %r is not Halley's with no limit on it" % (u, v)
    cap = d["maxiter"] + 2 + (240 if d.get("additional_guesses") else 20 if sv == "newton" else 0)
    if len(g["xs"]) > cap: return "%d evaluations with maxiter=%d" % (len(g["xs"]), d["maxiter"])
    if sv == "newton" and d["maxiter"] > 30 and not d.get("additional_guesses") and len(g["xs"]) > d["maxiter"] + 20: return "%d evaluations with maxiter=%d" % (len(g["xs"]), d["maxiter"])
    first = {d["x0"], d.get("x1")}
    for x in g["xs"]:
        if x in first: continue
        if lo is not None and x < lo or hi is not None and x > hi: return "evaluated %r outside the bounds" % x
    if d["x0"] not in g["xs"] and not (d.get("pre") in ("f0", "both")) and d["maxiter"]: return "starting point never evaluated"
    easy = d["kind"] in ("mono", "lin") and not d.get("damp") and d["maxiter"] >= 100 and d.get("damping", 1) >= .5 and abs(d["w"]*(d["x0"] - d["r"])) < 1e6 \
        and (lo is None or lo < d["r"]) and (hi is None or hi > d["r"])
    if "err" in g:
        if g["err"] not in ("UnconvergedError", "SamePointError", "OverflowError", "ZeroDivisionError"): return "raised %s: %s" % (g["err"], g["msg"])
        if f(d["x0"]) == 0: return "raised although the starting point is a root"
        if g["ys"] and g["ys"][-1] == 0.0: return "raised after finding a root"
        if easy:
            # attainable tolerances only
            ey = 8e-16*max(abs(d["r"]), 1e-300)*abs(d["sc"])*3*d["k"]
            if (d["ytol"] > 4*ey or "y" not in tol) and abs(d["r"])*d["xtol"] > 1e-15*abs(d["r"]) and d["r"] != 0 and lo is None and hi is None and (sv != "secant" or "damping" not in d): return "%s on a benign function: %s" % (g["err"], g["msg"])
        return None
    x = g["x"]
    if not (type(x) is float or type(x) is int): return "returned %r" % (x,)
    if isnan(x) or isinf(x): return "returned %r" % x
    if x not in first and (lo is not None and x < lo or hi is not None and x > hi): return "returned %r outside the bounds" % x
    pts = dict(zip(g["xs"], g["ys"]))
    pts.setdefault(d["x0"], f(d["x0"]))
    if d.get("x1") is not None: pts.setdefault(d["x1"], f(d["x1"]))
    if f(x) == 0: return None
    lx, ly = (g["xs"][-1], g["ys"][-1]) if g["xs"] else (x, f(x))
    if len(g["xs"]) <= 2 and sv == "secant":      # may stop on either starting point
        ok2 = [(u, v) for u, v in pts.items()]
        lx, ly = min(ok2, key=lambda t: abs(t[1]))
    if "y" in tol:
        fy = abs(f(x)) if d["require_eval"] else abs(ly)
        if not fy <= d["ytol"]: return "|f| = %g > ytol %g" % (fy, d["ytol"])
    if d["require_eval"] and x not in pts: return "%r was not evaluated" % x
    K = {"mono": (1, 3), "lin": (1, 1)}.get(d["kind"])
    if sv == 'secant':
        x1 = d.get('x1', d['x0']*1.0001 + copysign(1e-4, d['x0']))
        if lo is not None: x1 = max(lo, x1)
        if hi is not None: x1 = min(hi, x1)
        if abs(x1 - d['x0']) <= 3*d['xtol']*abs(x1): return None    # the first step is already below xtol
    if any(abs(v) > 1e150 for v in g['ys']): return None
    if K and f(lx) != 0 and not (d.get('damp') and 'x' in tol):
        # distance of the accepted point from the only root, slopes known to lie in [k, 3k]
        dm = d.get("damping", 1.0)
        e = []
        if "y" in tol: e.append(d["ytol"]/(abs(d["sc"])*d["k"]))
        if tol in ("x", "xy"): e.append(K[1]/K[0]*d["xtol"]*1.0001*max(abs(lx), abs(x))/dm*2.5)
        lim = min(e) + 1e-100
        if "y" in tol and x in (lo, hi): lim = e[0]    # held against a bound: the residual alone decides
        if not abs(lx - d["r"]) <= lim*(1 + 1e-9) + 4e-16*abs(d["r"]): return "stopped at %r, %g from the root (limit %g)" % (lx, abs(lx - d["r"]), lim)
        if not d.get("damp") and not abs(x - d["r"]) <= lim*3 + 4e-16*abs(d["r"]): return "returned %r, %g from the root (limit %g)" % (x, abs(x - d["r"]), lim)
    if tol in ("x", "xy") and sv != "secant" and x not in pts:
        if not abs(x - lx) <= d["xtol"]*max(abs(x), abs(lx))*1.0001: return "last step %g exceeds xtol" % abs(x - lx)
    room = sqrt(d["k"]/d["w"]) if d["kind"] == "parab" else min(abs(hi - lo) if lo is not None and hi is not None else 1e99, abs(d["x0"] - (d.get("x1") or 1e99)))
    if d["kind"] in ("parab", "const") and abs(x) > 1e-100 and room > 1e6*d["xtol"]*abs(x) and not ("y" in tol and d["ytol"] > abs(d["sc"])*d["k"]): return "returned %r for a function with no root" % x
    if d["kind"] in ("exp", "negexp", "atan", "tanh", "cubic") and tol == "x" and sv != "secant" and (lo is not None and lo > d["r"]*(1 + 1e-6) + 1e-6 or hi is not None and hi < d["r"] - 1e-6*abs(d["r"]) - 1e-6):
        if not abs(f(lx)) < abs(f1(lx))*d["xtol"]*4*abs(lx)/d.get("damping", 1) + abs(d["sc"])*1e-12: return "returned %r, the root lies outside the bounds" % x
S.append(Spec("numerics.open", {}, None, target=t_op, gen=g_op, post=p_op, n=14))
# ---- one-sided secant: f is flat (= yf) beyond xf
def g_os(r):
    root = r.uniform(-3, 3)*lg(r, -2, 3); w = lg(r, -1, 1)
    side = r.choice((-1, 1))
    gap = lg(r, -3, 1)/w
    return dict(r=root, w=w, side=side, gap=gap, sc=r.choice((-1, 1))*lg(r, -4, 4), off=lg(r, -2, .5)/w, far=lg(r, 0, 2)/w, kind=r.choice(("lin", "exp", "cubic")), ytol=lg(r, -9, -3), mode=r.choice(("y", "xy")), give=r.random() < .4, pre=r.random() < .3, x1=r.random() < .3, maxiter=r.choice((100, 100, 3)))
def t_os(**d):
    n = N(); r, w, sd = d["r"], d["w"], d["side"]
    f0 = fam(d["kind"], r, 1.0, w, d["sc"])[0]
    edge = r + sd*d["gap"]
    yf = f0(edge)
    f = lambda x: yf if (x - edge)*sd >= 0 else f0(x)
    log = Log(f)
    x0 = r - sd*d["off"]; xf = edge + sd*d["far"]
    o = dict(ytol=d["ytol"]*abs(d["sc"]), maxiter=d["maxiter"], args=(5,), kwargs={"v": 1})
    if d["mode"] == "y": o["xtol"] = None
    if d["give"]: o["y_flat"] = yf
    if d["x1"]: o["x1"] = x0 - sd*d["off"]*.1
    if d["pre"]:
        o["y0"] = f(x0)
        if d["x1"]: o["y1"] = f(o["x1"])
    g = boxed(log, lambda: n.one_sided_secant(log, x0, xf, **o))
    g.update(edge=edge, yf=yf, ytol=o["ytol"])
    return g
def p_os(d, g):
    for v in g["a"]:
        if v != ((5,), {"v": 1}): return "arguments not passed: %r" % (v,)
    if len(g["xs"]) > 3 + 20*d["maxiter"]: return "%d evaluations" % len(g["xs"])
    if "err" in g:
        if g["err"] not in ("UnconvergedError", "ValueError", "ZeroDivisionError"): return "raised %s %s" % (g["err"], g["msg"])
        return SKIP if d["maxiter"] == 3 else None
    x = g["x"]
    if (x - g["edge"])*d["side"] >= 0: return "returned %r in the flat region" % x
    y = fam(d["kind"], d["r"], 1.0, d["w"], d["sc"])[0](x)
    if not abs(y) < g["ytol"]: return "|f| = %g >= ytol %g" % (abs(y), g["ytol"])
    if x not in g["xs"]: return "%r was not evaluated" % x
S.append(Spec("numerics.one_sided_secant", {}, None, target=t_os, gen=g_os, post=p_os, n=2))
# ---- damping helpers
def g_dm(r):
    k = r.choice(("sign", "initial", "max", "maxlist", "basic"))
    n = r.randint(1, 4)
    vec = r.random() < .6 or k == "maxlist"
    seq = [([r.uniform(-2, 2)*r.choice((1, 1, 0)) for _ in range(n)], [r.uniform(-5, 5) for _ in range(n)]) for _ in range(r.randint(1, 8))]
    if k == "basic": vec = True
    return dict(k=k, vec=vec, seq=seq, steps=r.randint(0, 6), damping=r.uniform(.05, 1.5), factor=r.uniform(.1, 1), mx=r.uniform(.1, 4), mxl=[r.uniform(.1, 4) for _ in range(n)])
def t_dm(k, vec, seq, steps, damping, factor, mx, mxl):
    n = N(); out = []
    if k == "initial": fn = n.make_damp_initial(steps, damping)
    if k == "max": fn = n.make_max_step_initial(mx, steps)
    if k == "maxlist": fn = n.make_max_step_initial(mxl, steps)
    for x, s in seq:
        if not vec: x, s = x[0], s[0]
        if k == "sign": out.append(n.damping_maintain_sign(x, s, damping, factor))
        elif k == "basic": out.append(n.basic_damping(x, s, damping))
        elif k == "initial": out.append(fn(x, s))
        else: out.append(fn(x, s, damping))
    return out
def r_dm(k, vec, seq, steps, damping, factor, mx, mxl):
    out = []
    for i, (x, s) in enumerate(seq):
        res = []
        for j, (a, b) in enumerate(zip(x, s)):
            if k == "sign":
                flip = (a >= 0) and a + b < 0 or a < 0 and a + b > 0
                res.append(a + damping*(-factor*a if flip else b))
            elif k == "basic": res.append(a + damping*b)
            elif k == "initial": res.append(a + b*(damping if i < steps else 1))
            else:
                m = mx if k == "max" else mxl[j]
                res.append(a + (max(-m, min(m, b)) if i < steps else b))
        out.append(res if vec else res[0])
    return out
S.append(Spec("numerics.damping", {}, r_dm, target=t_dm, gen=g_dm, rtol=1e-13, atol=1e-14, n=1))
# ---- bounded variable transformations
def g_tb(r):
    n = r.randint(1, 4)
    lo = [r.uniform(-5, 5)*lg(r, -2, 2) for _ in range(n)]; hi = [l + lg(r, -2, 3) for l in lo]
    return dict(k=r.choice(("func", "jac", "fjac", "fjac2", "fjacT")), lo=lo, hi=hi, x=[l + (h - l)*r.uniform(.01, .99) for l, h in zip(lo, hi)], A=[[r.uniform(-1, 1) for _ in range(n)] for _ in range(n)], bounds=r.random() < .5, u=[r.uniform(-800, 800) for _ in range(n)], inplace=r.random() < .3)
def t_tb(k, lo, hi, x, A, bounds, u, inplace):
    n = N(); m = len(x)
    kw = dict(bounds=list(zip(lo, hi))) if bounds else dict(low=lo, high=hi)
    seen = []
    scal = lambda v: sum(A[0][i]*v[i] + .5*A[-1][i]*v[i]**2 for i in range(m))
    grad = lambda v: [A[0][i] + A[-1][i]*v[i] for i in range(m)]
    vecf = lambda v: [sum(A[i][j]*v[j] for j in range(m)) for i in range(m)]
    keep = [list(q) for q in A]
    if k == "func":
        f, into, out = n.translate_bound_func(lambda v, *a: (seen.append((list(v), a)), scal(v))[1], **kw)
        y = into(x)
        return dict(back=out(y), val=f(y, 7), far=out(u), jac=None, seen=seen)
    if k == "jac":
        f, into, out = n.translate_bound_jac(lambda v: grad(v), **kw)
        y = into(x)
        return dict(back=out(y), val=None, far=out(u), jac=f(y), seen=[])
    if k == "fjac":
        f, into, out = n.translate_bound_f_jac(lambda v, *a: scal(v), lambda v, *a: grad(v), inplace_jac=inplace, **kw)
    elif k == "fjacT":
        f, into, out = n.translate_bound_f_jac(lambda v, *a: (scal(v), grad(v)), True, inplace_jac=inplace, **kw)
    else:
        f, into, out = n.translate_bound_f_jac(lambda v, *a: vecf(v), lambda v, *a: keep, inplace_jac=inplace, **kw)
    y = into(x)
    v, j = f(y, 7)
    if not inplace and keep != A: return "the caller's jacobian was overwritten"
    return dict(back=out(y), val=v, far=out(u), jac=j, seen=[])
def r_tb(k, lo, hi, x, A, bounds, u, inplace):
    m = len(x)
    dx = [(h - a)*(a - l)/(h - l) for l, h, a in zip(lo, hi, x)]
    scal = sum(A[0][i]*x[i] + .5*A[-1][i]*x[i]**2 for i in range(m))
    grad = [(A[0][i] + A[-1][i]*x[i])*dx[i] for i in range(m)]
    sc = sum(abs(A[0][i]*x[i]) + abs(A[-1][i])*x[i]**2 for i in range(m))
    pos = [abs(l) + abs(h) for l, h in zip(lo, hi)]
    o = dict(back=[Approx(a, 1e-9, 1e-9*p) for a, p in zip(x, pos)])
    far = [l + (h - l)*(1/(1 + exp(-v)) if v > -700 else 0) for l, h, v in zip(lo, hi, u)]
    o["far"] = [Approx(a, 1e-9, 1e-12*p) for a, p in zip(far, pos)]
    if k == "jac": o["jac"] = [Approx(g_, 1e-7, 1e-9*(abs(A[0][i]) + abs(A[-1][i])*pos[i])*abs(hi[i] - lo[i])) for i, g_ in enumerate(grad)]
    elif k == "fjac2":
        o["val"] = [Approx(sum(A[i][j]*x[j] for j in range(m)), 1e-9, 1e-9*sum(pos)) for i in range(m)]
        o["jac"] = [[Approx(A[i][j]*dx[j], 1e-7, 1e-9*(hi[j] - lo[j] + pos[j])) for j in range(m)] for i in range(m)]
    else:
        o["val"] = Approx(scal, 1e-9, 1e-9*sc + 1e-9*sum(p*p + p for p in pos))
        if k != "func": o["jac"] = [Approx(g_, 1e-7, 1e-9*(abs(A[0][i]) + abs(A[-1][i])*pos[i])*abs(hi[i] - lo[i])) for i, g_ in enumerate(grad)]
    return o
def p_tb(d, g):
    if isinstance(g, Err) or isinstance(g, str): return
    for v, l, h in zip(g["far"], d["lo"], d["hi"]):
        if not l - 1e-15*abs(l) <= v <= h + 1e-15*(abs(h) + abs(l)): return "translated %r outside [%r, %r]" % (v, l, h)
    if d["k"] == "func" and g["seen"] and g["seen"][0][1] != (7,): return "args not passed"
S.append(Spec("numerics.translate_bound", {}, r_tb, target=t_tb, gen=g_tb, post=p_tb, n=1))
# ---- oscillation checker
def g_oc(r):
    m = r.randint(2, 14); y = lg(r, -3, 3)
    seq = []
    for i in range(m):
        y *= r.choice((r.uniform(.05, 1.2), r.uniform(.7, 1.02), 1.0))
        seq.append((r.uniform(-5, 5), y*r.choice((-1, 1)) if r.random() > .03 else 0.0))
    return dict(seq=seq, mp=r.uniform(.05, .8), both=r.random() < .5, good=r.choice((None, lg(r, -3, 3))), wrap=r.random() < .3, tup=r.random() < .3, clear=r.choice((None, m//2)))
def t_oc(seq, mp, both, good, wrap, tup, clear):
    n = N(); out = []
    if wrap:
        it = iter(seq)
        def f(x, *a): 
            y = next(it)[1]
            return (y, 1.0) if tup else y
        w, chk = n.oscillation_checking_wrapper(f, minimum_progress=mp, both_sides=both, full=True, good_err=good)
    else: chk = n.OscillationChecker(minimum_progress=mp, both_sides=both, good_err=good)
    for i, (x, y) in enumerate(seq):
        if clear == i: chk.clear()
        if wrap:
            try: w(x, 3); out.append(False)
            except n.OscillationError: out.append(True)
        else: out.append(chk(x, y))
    return dict(o=out, p=list(zip(chk.xs_pos, chk.ys_pos)), n=list(zip(chk.xs_neg, chk.ys_neg)))
def r_oc(seq, mp, both, good, wrap, tup, clear):
    P, Q, out = [], [], []
    for i, (x, y) in enumerate(seq):
        if clear == i: P, Q = [], []
        if y == 0: out.append(False); continue
        (Q if y < 0 else P).append((x, y))
        if len(P) < 2 or len(Q) < 2: out.append(False); continue
        gp, gn = [abs((z[-1][1] - z[-2][1])/z[-1][1]) for z in (P, Q)]
        o = (gp < mp and gn < mp) if both else (gp < mp or gn < mp)
        if o and good is not None and min(abs(P[-1][1]), abs(Q[-1][1])) < good: o = False
        out.append(o)
    return dict(o=out, p=P, n=Q)
S.append(Spec("numerics.OscillationChecker", {}, r_oc, target=t_oc, gen=g_oc, rtol=0, n=1))
# ---- best bounds from a history
def g_bb(r):
    root = r.uniform(-3, 3); s = r.choice((1, -1)); f = lambda x: s*(x - root)
    pick = lambda: root + r.choice((-1, 1))*lg(r, -3, 1.5)
    h = [pick() for _ in range(r.randint(0, 6))]
    P = [x for x in h if f(x) > 0]; Q = [x for x in h if f(x) < 0]
    lo, hi = (root - lg(r, -2, 1.5), root + lg(r, -2, 1.5)) if r.random() < .85 else sorted((root + lg(r, -2, 1), root + lg(r, -2, 1)))
    if r.random() < .2: lo, hi = hi, lo
    return dict(root=root, s=s, low=lo, high=hi, P=P, Q=Q, pre=r.choice((0, 0, 1)), none=r.choice((0, 1)))
def t_bb(root, s, low, high, P, Q, pre, none):
    n = N(); f = lambda x: s*(x - root)
    kw = dict(fa=f(low), fb=f(high)) if pre else {}
    if P or none: kw.update(xs_pos=P, ys_pos=[f(x) for x in P])
    if Q or none: kw.update(xs_neg=Q, ys_neg=[f(x) for x in Q])
    return n.best_bounding_bounds(low, high, f, **kw)
def r_bb(root, s, low, high, P, Q, pre, none):
    f = lambda x: s*(x - root)
    fa, fb = f(low), f(high)
    if fa*fb > 0: return SKIP if P or Q else Raises(ValueError)
    ps = P + [x for x in (low, high) if f(x) > 0]; qs = Q + [x for x in (low, high) if f(x) < 0]
    if not ps or not qs: return SKIP
    bp = min(ps, key=lambda x: abs(f(x))); bq = min(qs, key=lambda x: abs(f(x)))
    a, b = (bp, bq) if fa > 0 else (bq, bp)
    return (a, b, f(a), f(b))
S.append(Spec("numerics.best_bounding_bounds", {}, r_bb, target=t_bb, gen=g_bb, rtol=0, n=1))
