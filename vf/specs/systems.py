"""P30 multivariate solvers: every normal return is judged on the function it was given"""
import math
from math import *
from fractions import Fraction as F_
from ..dom import *
from ..engine import Raises, SKIP, Approx, Err, Spec, close, OneOf, CallTimeout
from .solve import lg, N
S = []
def mv(A, x): return [sum(a*b for a, b in zip(r, x)) for r in A]
def gauss(A, b):
    n = len(b); M = [list(map(F_, r)) + [F_(v)] for r, v in zip(A, b)]
    for c in range(n):
        p = max(range(c, n), key=lambda i: abs(M[i][c]))
        if M[p][c] == 0: return None
        M[c], M[p] = M[p], M[c]
        for i in range(n):
            if i != c and M[i][c]:
                k = M[i][c]/M[c][c]
                M[i] = [u - k*v for u, v in zip(M[i], M[c])]
    return [float(M[i][n]/M[i][i]) for i in range(n)]
def dom_mat(r, n, d=1.5):
    A = [[r.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
    for i in range(n):
        A[i][i] = r.choice((-1, 1))*(sum(abs(v) for v in A[i]) + d)
    return A
# kinds: (F, J) of x; 'lin' and 'soft' have one root, 'none' has none, 'nan' turns nan away from the start
def system(d):
    k, A, c, s = d["kind"], d["A"], d["c"], d["s"]
    n = len(c)
    if k == "lin": return lambda x: [s*(v - u) for v, u in zip(mv(A, x), c)], lambda x: [[s*v for v in r] for r in A]
    if k == "soft": # A x + .5 tanh(x) - c, diagonally dominant
        sg = [1 if A[i][i] > 0 else -1 for i in range(n)]
        return (lambda x: [s*(v + .5*sg[i]*tanh(x[i]) - c[i]) for i, v in enumerate(mv(A, x))],
                lambda x: [[s*(A[i][j] + (.5*sg[i]*(1 - tanh(x[i])**2) if i == j else 0)) for j in range(n)] for i in range(n)])
    if k == "cube":
        return (lambda x: [s*(v + x[i]**3*(1 if A[i][i] > 0 else -1) - c[i]) for i, v in enumerate(mv(A, x))],
                lambda x: [[s*(A[i][j] + (3*x[i]**2*(1 if A[i][i] > 0 else -1) if i == j else 0)) for j in range(n)] for i in range(n)])
    if k == "none":
        return (lambda x: [s*(v*v + 1) for v in mv(A, x)], lambda x: [[2*s*v*A[i][j] for j in range(n)] for i, v in enumerate(mv(A, x))])
    if k == "nan":
        return (lambda x: [s*(v - u) if max(abs(t) for t in x) < 50 else nan for v, u in zip(mv(A, x), c)], lambda x: [[s*v*.01 for v in r] for r in A])
    if k == "rosen":
        return lambda x: [s*10*(x[1] - x[0]**2), s*(1 - x[0])], lambda x: [[-20*s*x[0], 10*s], [-s, 0.0]]
    raise KeyError(k)
class VLog:
    def __init__(s, f): s.f, s.xs, s.ys, s.a = f, [], [], []
    def __call__(s, x, *a):
        x = [float(v) for v in x]
        y = s.f(x)
        s.xs.append(x); s.ys.append(y); s.a.append(a)
        return list(y) if isinstance(y, list) else y
def run(log, fn):
    try: o = fn()
    except CallTimeout: raise
    except Exception as e: return dict(err=type(e).__name__, msg=str(e)[:120], xs=log.xs, ys=log.ys, a=log.a)
    return dict(out=o, xs=log.xs, ys=log.ys, a=log.a)
n2 = lambda v: sqrt(sum(t*t for t in v))
n1 = lambda v: sum(abs(t) for t in v)
def g_base(r, kinds):
    k = r.choice(kinds)
    n = 2 if k == "rosen" else r.choice((1, 2, 2, 3, 4, 6))
    A = dom_mat(r, n)
    return dict(kind=k, A=A, c=[r.uniform(-5, 5) for _ in range(n)], s=lg(r, -3, 3) if r.random() < .5 else 1.0, x0=[r.uniform(-3, 3) for _ in range(n)])
def tols(r, d):
    u = r.random()
    d["xtol"] = d["s"]*lg(r, -9, -3) if u < .7 else None
    d["ytol"] = d["s"]*lg(r, -9, -3) if u > .4 else None
ALLK = ("lin", "soft", "soft", "cube", "none", "nan", "rosen")
def g_ns(r):
    d = g_base(r, ALLK); tols(r, d)
    d["maxiter"] = r.choice((100, 100, 200, r.randint(1, 5)))
    d["damping"] = r.choice((1.0, 1.0, r.uniform(.2, 1)))
    d["ls"] = r.random() < .4; d["prog"] = r.random() < .2; d["chk"] = r.random() < .3
    d["armijo"] = d["ls"] and r.random() < .5
    d["jac_also"] = r.random() < .3; d["point"] = r.random() < .3
    d["dfunc"] = r.random() < .15; d["solver"] = r.random() < .15
    d["args"] = r.choice(([], [], [1, "z"]))
    d["fail"] = r.choice((None, None, None, r.randint(2, 5)))
    if r.random() < .05 and d["kind"] == "lin": d["x0"] = gauss(d["A"], d["c"])
    return d
def t_ns(**d):
    n = N(); F, J = system(d); log = VLog(F); cnt = [0, 0]
    o = dict(xtol=d["xtol"], ytol=d["ytol"], maxiter=d["maxiter"], damping=d["damping"])
    if d["ls"]: o["line_search"] = True
    if d["armijo"]: o["Armijo"] = True
    if d["prog"]: o["require_progress"] = True
    if d["chk"]: o["check_numbers"] = True
    if d["point"]: o["with_point"] = True
    if d["args"]: o["args"] = tuple(d["args"])
    if d["dfunc"]: 
        def dfn(x, dx, dmp, *a):
            cnt[0] += 1
            return [u + v*dmp for u, v in zip(x, dx)]
        o["damping_func"] = dfn
    if d["solver"]:
        def sv(A, b):
            cnt[1] += 1
            return gauss(A, b)
        o["solve_func"] = sv
    k = [0]
    def f(x, *a):
        k[0] += 1
        if d["fail"] and k[0] == d["fail"]: log(x, *a); raise ValueError("planned failure")
        return log(x, *a)
    if d["jac_also"]: fn = lambda: n.newton_system(lambda x, *a: (f(x, *a), J(x)), list(d["x0"]), True, **o)
    else: fn = lambda: n.newton_system(f, list(d["x0"]), lambda x, *a: J(x), **o)
    g = run(log, fn); g["cnt"] = cnt
    return g
def common(d, g, x, it, F, res_ok=True):
    for a in g["a"]:
        if a != tuple(d.get("args", ())): return "arguments not passed: %r" % (a,)
    if x is None: return
    y = F(x)
    if d["xtol"] is not None and not n2(y) <= d["xtol"]*(1 + 1e-9): return "residual norm %g > xtol %g" % (n2(y), d["xtol"])
    if d["ytol"] is not None and not n1(y) <= d["ytol"]*(1 + 1e-9): return "residual sum %g > ytol %g" % (n1(y), d["ytol"])
def same(a, b, tol=1e-8): return all(abs(u - v) <= tol*(1 + abs(v)) for u, v in zip(a, b))
def p_ns(d, g):
    F, J = system(d)
    w = common(d, g, None, 0, F)
    if w: return w
    per = 19 if d["ls"] else 1
    if len(g["xs"]) > 1 + d["maxiter"]*per: return "%d evaluations with maxiter=%d" % (len(g["xs"]), d["maxiter"])
    if g["xs"][0] != d["x0"]: return "first evaluation not at x0"
    if len(g["xs"]) > 1 and d["kind"] != "nan" and not (d["fail"] == 2):
        st = gauss(J(d["x0"]), [-v for v in F(d["x0"])])
        k = 1.0
        if st and max(map(abs, st)) < 1e8 and not same(g["xs"][1], [u + d["damping"]*v*k for u, v in zip(d["x0"], st)]): return "first step is %r, the damped Newton step is %r" % (g["xs"][1], st)
    if d["dfunc"] and len(g["xs"]) > 1 and g["cnt"][0] < 1: return "damping function never called"
    if d["solver"] and len(g["xs"]) > 1 and g["cnt"][1] < 1: return "solve function never called"
    if "err" in g:
        if d["kind"] in ("lin", "soft") and d["maxiter"] >= 100 and d["damping"] > .5 and not d["fail"] and not (d["prog"] and not d["ls"]):
            mag = d["s"]*sum(sum(map(abs, r)) for r in d["A"])*40
            if min(v for v in (d["xtol"], d["ytol"], 1e9) if v is not None) > 1e-13*mag and not (d["prog"] or (d["kind"] == "lin" and n1(g["ys"][0]) < 1e-12*mag)): return "%s on a benign system: %s" % (g["err"], g["msg"])
        return None
    out = g["out"]
    if len(out) != (4 if d["point"] else 2): return "returned %d values" % len(out)
    x, it = out[0], out[1]
    if it > d["maxiter"]: return "%d iterations with maxiter=%d" % (it, d["maxiter"])
    if d["xtol"] is None and d["ytol"] is None: return SKIP
    w = common(d, g, x, it, F)
    if w: return w
    if d["point"] and (not same(out[2], F(x), 1e-12) or not all(same(p, q, 1e-9) for p, q in zip(out[3], J(x))) and it == 0): return "returned point data belong to another point"
    if [float(v) for v in x] not in g["xs"]: return "returned a point that was never evaluated"
S.append(Spec("numerics.newton_system", {}, None, target=t_ns, gen=g_ns, post=p_ns, n=3))
# ---- homotopy, broyden, interface
def g_hb(r):
    d = g_base(r, ALLK); tols(r, d); d["m"] = r.choice(("homotopy", "broyden", "broyden"))
    d["maxiter"] = r.choice((100, 300, 300, r.randint(1, 6))); d["damping"] = r.choice((1.0, 1.0, r.uniform(.4, 1)))
    d["step"] = r.choice((.1, .25, 1.0, .3)); d["jmode"] = r.choice(("jac", "skip", "both"))
    d["args"] = r.choice(([], [1, "z"]))
    if d["m"] == "broyden":
        d["xtol"] = d["s"]*lg(r, -9, -3); d["ytol"] = None
        if r.random() < .4: d["skip_ok"] = 1; d["A"] = [[(1.0 if i == j else .2*v/8) for j, v in enumerate(q)] for i, q in enumerate(d["A"])]; d["s"] = 1.0; d["xtol"] = lg(r, -9, -3)
    else: d["txtol"] = d["s"]*lg(r, -10, -5)
    return d
def t_hb(**d):
    n = N(); F, J = system(d); log = VLog(F)
    a = tuple(d["args"])
    if d["m"] == "homotopy":
        o = dict(xtol=d["xtol"], ytol=d["ytol"], maxiter=d["maxiter"], damping=d["damping"], lambd_step=d["step"], args=a)
        if d["xtol"] is None: o["terminal_xtol"] = None; o["terminal_ytol"] = d["ytol"]
        else: o["terminal_xtol"] = d["txtol"]
        return run(log, lambda: n.homotopy_solver(log, list(d["x0"]), lambda x, *b: J(x), **o))
    o = dict(xtol=d["xtol"], maxiter=d["maxiter"], args=a)
    if d["jmode"] == "skip": return run(log, lambda: n.broyden2(list(d["x0"]), log, None, skip_J=True, **o))
    if d["jmode"] == "both": return run(log, lambda: n.broyden2(list(d["x0"]), log, lambda x, *b: (log(x, *b), J(x)), jac_has_fun=True, **o))
    return run(log, lambda: n.broyden2(list(d["x0"]), log, lambda x, *b: J(x), **o))
def p_hb(d, g):
    F, J = system(d)
    w = common(d, g, None, 0, F)
    if w: return w
    if "err" in g:
        mag = d["s"]*sum(sum(map(abs, r)) for r in d["A"])*40
        if d["kind"] in ("lin", "soft") and d["maxiter"] >= 100 and d["damping"] == 1:
            if d["m"] == "homotopy" and min(v for v in (d["xtol"], d["ytol"], d["txtol"] if d["xtol"] is not None else 1.0) if v is not None) > 1e-13*mag and d["step"] >= .1: return "%s on a benign system: %s" % (g["err"], g["msg"])
            if d["m"] == "broyden" and d["jmode"] != "skip" and d["kind"] == "lin" and d["xtol"] > 1e-13*mag and g["err"] != "ZeroDivisionError": return "%s on a benign system: %s" % (g["err"], g["msg"])
        return None
    x, it = g["out"]
    y = F(x)
    if d["m"] == "broyden":
        if it > d["maxiter"] or len(g["xs"]) > d["maxiter"] + 1: return "%d iterations with maxiter=%d" % (it, d["maxiter"])
        if not n1(y) <= d["xtol"]*(1 + 1e-9): return "residual %g > xtol %g" % (n1(y), d["xtol"])
    elif d["xtol"] is not None:
        if not n2(y) <= d["txtol"]*(1 + 1e-9): return "residual %g > terminal xtol %g" % (n2(y), d["txtol"])
    elif not n1(y) <= d["ytol"]*(1 + 1e-9): return "residual %g > terminal ytol %g" % (n1(y), d["ytol"])
S.append(Spec("numerics.homotopy_broyden", {}, None, target=t_hb, gen=g_hb, post=p_hb, n=2))
# ---- fixed point family: g contracts with factor < .8
def g_fp(r):
    n = r.choice((1, 2, 3, 5))
    B = [[r.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
    q = r.choice((r.uniform(.05, .8), r.uniform(.05, .8), 1.7))
    for i in range(n):
        t = sum(map(abs, B[i]))
        B[i] = [v*q/t for v in B[i]]
    return dict(m=r.choice(("fixed_point", "fixed_point_aitken", "fixed_point_gdem", "fixed_point_anderson", "fixed_point_anderson_residual")), B=B, q=q, nl=r.random() < .5, c=[r.uniform(.5, 5)*r.choice((-1, 1)) for _ in range(n)], x0=[r.uniform(-3, 3) for _ in range(n)],
        damping=r.choice((1.0, r.uniform(.4, 1))), maxiter=r.choice((200, 400, r.randint(1, 12))), tol=r.choice(("x", "y", "xy")), xtol=lg(r, -9, -3), ytol=lg(r, -9, -3), nan=r.random() < .08, chk=r.random() < .3, prog=r.random() < .15, args=r.choice(([], [1, "z"])), freq=r.choice((None, 4, 6)), adamp=r.choice((None, r.uniform(.3, 1))), wrap=r.random() < .3)
def fpmap(d):
    B, c = d["B"], d["c"]
    if d["nan"]: return lambda x: [nan if abs(x[0] - d["x0"][0]) > .1 else v for v in mv(B, x)]
    if d["nl"]: return lambda x: [tanh(v) + u for v, u in zip(mv(B, x), c)]
    return lambda x: [v + u for v, u in zip(mv(B, x), c)]
def t_fp(**d):
    n = N(); G = fpmap(d); m = d["m"]
    diff = lambda x: [a - b for a, b in zip(x, G(x))]
    log = VLog(G if m == "fixed_point_anderson" else diff)
    o = dict(maxiter=d["maxiter"], damping=d["damping"], args=tuple(d["args"]))
    o["xtol"] = d["xtol"] if "x" in d["tol"] else None
    o["ytol"] = d["ytol"] if "y" in d["tol"] else None
    if d["chk"]: o["check_numbers"] = True
    if d["prog"]: o["require_progress"] = True
    if m in ("fixed_point_aitken", "fixed_point_gdem"):
        if d["freq"]: o["acc_frequency"] = d["freq"]
        if d["adamp"]: o["acc_damping"] = d["adamp"]
    f = log
    if d["wrap"] and m != "fixed_point_anderson":
        f = n.residual_to_fixed_point(n.fixed_point_to_residual(log))
    return run(log, lambda: getattr(n, m)(f, list(d["x0"]), **o))
def p_fp(d, g):
    G = fpmap(d); m = d["m"]
    for a in g["a"]:
        if a != tuple(d["args"]): return "arguments not passed"
    if len(g["xs"]) > d["maxiter"] + 2: return "%d evaluations with maxiter=%d" % (len(g["xs"]), d["maxiter"])
    if m in ("fixed_point", "fixed_point_aitken", "fixed_point_gdem") and len(g["xs"]) > 1:
        y = [a - d["damping"]*(a - b) for a, b in zip(d["x0"], G(d["x0"]))]
        if not same(g["xs"][1], y, 1e-9): return "first step %r is not the damped step %r" % (g["xs"][1], y)
    if "err" in g:
        if d["q"] < .8 and d["maxiter"] >= 200 and not d["nan"] and not d["prog"] and m in ("fixed_point",) : return "%s on a contraction: %s" % (g["err"], g["msg"])
        return None
    x, it = g["out"]
    if it > d["maxiter"]: return "%d iterations with maxiter=%d" % (it, d["maxiter"])
    lx = g["xs"][-1]
    ly = [a - b for a, b in zip(lx, G(lx))]
    if any(isnan(float(v)) for v in x): return "returned nan"
    slack = 1 + 1e-9
    if m == "fixed_point_anderson":
        if "x" in d["tol"] and not max(abs((a - b)/b) if b else inf for a, b in zip(x, lx)) <= d["xtol"]*slack and it: return "last step exceeds xtol"
        if "y" in d["tol"] and not n1(ly) <= d["ytol"]*slack: return "residual %g > ytol" % n1(ly)
    else:
        if "x" in d["tol"]:
            nm = n1(ly) if m == "fixed_point_anderson_residual" else n2(ly)
            if not nm <= d["xtol"]*slack: return "residual %g > xtol %g" % (nm, d["xtol"])
        if "y" in d["tol"] and not n1(ly) <= d["ytol"]*slack: return "residual %g > ytol %g" % (n1(ly), d["ytol"])
    if d["q"] < .8 and not d["nan"]:
        # g is a contraction (max norm): distance to the fixed point is bounded by the residual
        y = [a - b for a, b in zip(x, G(x))]
        lim = max(map(abs, ly))*100 + 1e-12
        if m == "fixed_point_anderson": lim = 1e3*(d["xtol"] if "x" in d["tol"] else d["ytol"])*(1 + max(map(abs, x))) + 1e-12
        if not max(map(abs, y)) <= lim: return "returned point has residual %g, accepted at %g" % (max(map(abs, y)), max(map(abs, ly)))
S.append(Spec("numerics.fixed_points", {}, None, target=t_fp, gen=g_fp, post=p_fp, n=3))
# ---- minimisers
def quad_f(d):
    A, c = d["A"], d["c"]; n = len(c)
    Q = [[sum(A[k][i]*A[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
    def f(x):
        y = [a - b for a, b in zip(x, c)]
        v = .5*sum(a*b for a, b in zip(y, mv(Q, y)))
        if d["shape"] == "quartic": v += .25*sum(t**4 for t in y)
        if d["shape"] == "abs": v = sum(abs(t) for t in mv(A, y))
        if d["shape"] == "cos": v += sum(1 - cos(3*t) for t in y)
        return v + d["base"]
    def gr(x):
        y = [a - b for a, b in zip(x, c)]
        v = mv(Q, y)
        if d["shape"] == "quartic": v = [a + t**3 for a, t in zip(v, y)]
        return v
    def he(x):
        y = [a - b for a, b in zip(x, c)]
        return [[Q[i][j] + (3*y[i]**2 if i == j and d["shape"] == "quartic" else 0) for j in range(n)] for i in range(n)]
    return f, gr, he
def g_nm(r):
    n = r.choice((1, 2, 2, 3, 4))
    d = dict(A=dom_mat(r, n), c=[r.uniform(-3, 3) for _ in range(n)], x0=[r.choice((0.0, r.uniform(-4, 4), r.uniform(-4, 4))) for _ in range(n)], shape=r.choice(("quad", "quartic", "abs", "cos")), base=r.choice((0.0, -3.0, 10.0)), maxiter=r.choice((2000, 400, r.randint(0, 10))), xtol=lg(r, -8, -2), ftol=lg(r, -8, -2), adaptive=r.random() < .3, pert=r.choice((None, r.uniform(.01, .5))), args=r.choice(([], [1, "z"])))
    u = r.random()
    d["low"] = d["high"] = None
    if u < .5:
        d["low"] = [v - r.choice((0.0, r.uniform(0, 3), r.uniform(1, 9))) for v in d["x0"]]; d["high"] = [v + r.choice((0.0 if l < v else 1.0, r.uniform(0.01, 3), r.uniform(1, 9))) for v, l in zip(d["x0"], d["low"])]
        if u < .1: d["low"] = None
        elif u < .2: d["high"] = None
    d["simplex"] = [[v + r.uniform(-1, 1) for v in d["x0"]] for _ in range(n + 1)] if r.random() < .2 else None
    return d
def t_nm(**d):
    n = N(); log = VLog(quad_f(d)[0])
    o = dict(maxiter=d["maxiter"], xtol=d["xtol"], ftol=d["ftol"], args=tuple(d["args"]))
    if d["adaptive"]: o["adaptive"] = True
    if d["pert"]: o["initial_perturbation"] = d["pert"]
    if d["low"] is not None: o["low"] = d["low"]
    if d["high"] is not None: o["high"] = d["high"]
    if d["simplex"]: o["initial_simplex"] = [list(p) for p in d["simplex"]]
    return run(log, lambda: n.nelder_mead(log, list(d["x0"]), **o))
def p_nm(d, g):
    for a in g["a"]:
        if a != tuple(d["args"]): return "arguments not passed"
    if "err" in g: return "raised %s: %s" % (g["err"], g["msg"])
    n = len(d["c"])
    if len(g["xs"]) > n + 1 + 2*d["maxiter"]: return "%d evaluations with maxiter=%d" % (len(g["xs"]), d["maxiter"])
    for x in g["xs"]:
        for i, v in enumerate(x):
            if d["low"] is not None and v < d["low"][i] or d["high"] is not None and v > d["high"][i]: return "evaluated %r outside the bounds" % x
    x, fv, it = g["out"]
    if it > d["maxiter"]: return "too many iterations"
    f = quad_f(d)[0]
    if fv != f(x): return "returned value %r is not f(x) = %r" % (fv, f(x))
    if fv > min(g["ys"]): return "returned %r although %r was seen" % (fv, min(g["ys"]))
    if list(x) not in g["xs"]: return "returned a point never evaluated"
    if d["shape"] in ("quad", "quartic") and n <= 2 and d["maxiter"] == 2000 and d["low"] is None and d["high"] is None and not d["simplex"] and it < 2000 and min(map(abs, d["x0"])) > .3 and d["xtol"] < 1e-3 and d["ftol"] < 1e-3:
        e = max(abs(a - b) for a, b in zip(x, d["c"]))
        if e > 30*d["xtol"] + 10*sqrt(d["ftol"]): return "stopped %g from the minimum" % e
S.append(Spec("numerics.nelder_mead", {}, None, target=t_nm, gen=g_nm, post=p_nm, n=2))
def g_mn(r):
    n = r.choice((1, 2, 3))
    d = dict(A=dom_mat(r, n), c=[r.uniform(-3, 3) for _ in range(n)], x0=[r.uniform(-4, 4) for _ in range(n)], shape=r.choice(("quad", "quartic", "nan")), base=1.0, maxiter=r.choice((100, 100, r.randint(0, 4))), xtol=r.choice((None, lg(r, -8, -2))), ytol=lg(r, -8, -2), damping=r.choice((1.0, r.uniform(.4, 1))), mode=r.choice((0, 1, 2)), args=r.choice(([], [1, "z"])), dfunc=r.random() < .2)
    if d["xtol"] is not None and r.random() < .5: d["ytol"] = None
    return d
def t_mn(**d):
    n = N(); f, gr, he = quad_f(d)
    if d["shape"] == "nan": gr = lambda x: [nan]*len(x)
    log = VLog(f)
    o = dict(maxiter=d["maxiter"], xtol=d["xtol"], ytol=d["ytol"], damping=d["damping"], args=tuple(d["args"]))
    c = [0]
    def df(x, dx, k):
        c[0] += 1
        return [a + b*k for a, b in zip(x, dx)]
    if d["dfunc"]: o["damping_func"] = df
    if d["mode"] == 0: fn = lambda: n.newton_minimize(log, list(d["x0"]), lambda x, *a: gr(x), lambda x, *a: he(x), **o)
    elif d["mode"] == 1: fn = lambda: n.newton_minimize(lambda x, *a: (log(x, *a), gr(x)), list(d["x0"]), True, lambda x, *a: he(x), **o)
    else: fn = lambda: n.newton_minimize(lambda x, *a: (log(x, *a), gr(x), he(x)), list(d["x0"]), True, True, **o)
    g = run(log, fn); g["c"] = c[0]
    return g
def p_mn(d, g):
    for a in g["a"]:
        if a != tuple(d["args"]): return "arguments not passed"
    f, gr, he = quad_f(d)
    if len(g["xs"]) > d["maxiter"] + 1: return "too many evaluations"
    if "err" in g:
        if d["shape"] == "quad" and d["maxiter"] == 100: return "raised %s %s" % (g["err"], g["msg"])
        return None
    if d["shape"] == "nan": return "returned although the gradient is nan"
    x, it = g["out"]
    v = gr(x)
    a = d["xtol"] is not None and n2(v) <= d["xtol"]*(1 + 1e-9); b = d["ytol"] is not None and n1(v) <= d["ytol"]*(1 + 1e-9)
    if d["xtol"] is not None and not a or d["ytol"] is not None and not b: return "gradient %r does not meet the tolerances" % v
    if d["dfunc"] and len(g["xs"]) > 1 and not g["c"]: return "damping function never called"
    if len(g["xs"]) > 1:
        st = gauss(he(d["x0"]), [-t for t in gr(d["x0"])])
        if not same(g["xs"][1], [p + d["damping"]*q for p, q in zip(d["x0"], st)]): return "first step is not the damped Newton step"
S.append(Spec("numerics.newton_minimize", {}, None, target=t_mn, gen=g_mn, post=p_mn, n=1))
# ---- direct solves
def g_ds(r):
    n = r.choice((2, 3, 4))
    A = [[r.uniform(-1, 1)*lg(r, -2, 2) for _ in range(n)] for _ in range(n)]
    return dict(A=A, b=[r.uniform(-1, 1)*lg(r, -2, 2) for _ in range(n)])
def t_ds(A, b): return getattr(N(), "solve_%d_direct" % len(b))(A, b)
def p_ds(d, g):
    if isinstance(g, Err): return repr(g)
    x = gauss(d["A"], d["b"])
    if x is None: return SKIP
    n = len(x); mag = max(max(map(abs, r)) for r in d["A"])
    inv = [gauss(d["A"], [1.0 if i == j else 0.0 for i in range(n)]) for j in range(n)]
    if not mag*max(max(map(abs, v)) for v in inv) < 1e3: return SKIP
    for i in range(2, n):   # leading minors: the closed forms do not pivot
        pass
    A = d["A"]
    mn = abs(A[0][0])/mag
    if n > 2: mn = min(mn, abs(A[0][0]*A[1][1] - A[0][1]*A[1][0])/mag**2)
    if n > 3: mn = min(mn, abs(A[0][0]*(A[1][1]*A[2][2] - A[1][2]*A[2][1]) - A[0][1]*(A[1][0]*A[2][2] - A[1][2]*A[2][0]) + A[0][2]*(A[1][0]*A[2][1] - A[1][1]*A[2][0]))/mag**3)
    if n > 2 and mn < 1e-3: return SKIP
    t = max(map(abs, x))
    for u, v in zip(g, x):
        if not abs(u - v) <= 1e-6*t: return "%r != %r" % (g, x)
S.append(Spec("numerics.solve_direct", {}, None, target=t_ds, gen=g_ds, post=p_ds, n=1))
# ---- check_jacobian
def g_cj(r):
    n = r.randint(1, 4)
    J = [[r.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
    bad = r.choice((None, None, "nan", "inf", "-inf"))
    if bad: J[r.randrange(n)][r.randrange(n)] = float(bad)
    return dict(J=J, x=[r.choice((-1, 1))*r.uniform(.05, 1) for _ in range(n)], allow=r.random() < .4, bad=bool(bad), A=dom_mat(r, n))
def t_cj(J, x, allow, bad, A): return N().check_jacobian(x, [list(r) for r in J], lambda v: mv(A, v), allow)
def r_cj(J, x, allow, bad, A):
    if allow: return [[Approx(v, 1e-4, 1e-4) for v in r] for r in A]
    return Raises(ValueError) if bad else J
S.append(Spec("numerics.check_jacobian", {}, r_cj, target=t_cj, gen=g_cj, n=.5))
# ---- the common interface
PY = ("newton_system", "newton_system_line_search", "newton_system_line_search_progress", "homotopy_solver", "broyden2_python")
FPM = ("fixed_point", "fixed_point_aitken", "fixed_point_gdem", "fixed_point_anderson")
SC = ("hybr", "lm", "broyden1", "broyden2", "anderson", "krylov", "df-sane")
MI = ("Nelder-Mead", "Powell", "CG", "BFGS", "Newton-CG", "L-BFGS-B", "TNC", "SLSQP", "trust-ncg", "trust-exact", "dogleg")
def g_si(r):
    d = g_base(r, ("lin", "soft", "soft", "cube"))
    d["s"] = 1.0
    d["m"] = r.choice(PY*3 + FPM + SC[:2]*2 + SC + MI[:1] + MI[3:8])
    if d["m"] in FPM:
        n = len(d["c"]); d["kind"] = r.choice(("lin", "soft"))
        d["A"] = [[(1.0 if i == j else 0) + r.uniform(-.5, .5)/n for j in range(n)] for i in range(n)]
    d.update(xtol=lg(r, -9, -6), np_f=r.random() < .4, np_x=r.random() < .4, jm=r.choice(("python", "python", "analytical")), args=r.choice(([], [1, "z"])), damping=r.choice((1.0, r.uniform(.6, 1))), maxiter=r.choice((200, 300)), ytol=None)
    return d
def t_si(**d):
    import numpy as np
    n = N(); F, J = system(d); log = VLog(F)
    if d["np_f"]:
        f = lambda x, *a: np.array(log(x.tolist() if hasattr(x, "tolist") else x, *a)); j = lambda x, *a: np.array(J([float(v) for v in x]))
        bad = []
        def f(x, *a):
            if not isinstance(x, np.ndarray): bad.append(type(x).__name__)
            return np.array(log(x.tolist(), *a))
    else:
        bad = []
        def f(x, *a):
            if type(x) is not list: bad.append(type(x).__name__)
            return log(x, *a)
        j = lambda x, *a: J([float(v) for v in x])
    si = n.SolverInterface(d["m"], f, jac=j if d["jm"] == "analytical" else None, xtol=d["xtol"], maxiter=d["maxiter"], damping=d["damping"], jacobian_method=d["jm"], objf_numpy=d["np_f"])
    x0 = np.array(d["x0"]) if d["np_x"] else list(d["x0"])
    g = run(log, lambda: si.solve(x0, args=tuple(d["args"])))
    g.update(bad=bad, counts=(si.fval_iter, si.jac_fval_count, si.hess_fval_count, si.jac_iter))
    if "out" in g: g["type"] = type(g["out"]).__name__; g["out"] = [float(v) for v in g["out"]]
    return g
def p_si(d, g):
    F, J = system(d)
    for a in g["a"]:
        if a != tuple(d["args"]): return "arguments not passed"
    if g["bad"]: return "objective received %s" % g["bad"][0]
    if "err" in g:
        if d["m"] in ("newton_system", "newton_system_line_search", "homotopy_solver") and d["kind"] in ("lin", "soft") and d["damping"] > .9: return "raised %s %s" % (g["err"], g["msg"])
        return None
    if g["type"] != ("ndarray" if d["np_x"] else "list"): return "returned a %s" % g["type"]
    y = F(g["out"])
    lim = d["xtol"]*(1 + 1e-9) if d["m"] in PY + FPM else 1e-3 if d["m"] in SC else 5e-2
    if d["m"] in FPM: lim *= 100
    if not n2(y) <= lim: return "%s returned a point with residual %g" % (d["m"], n2(y))
    fi, jf, hf, ji = g["counts"]
    if d["jm"] == "python" or d["m"] in PY:
        if fi + jf + hf != len(g["xs"]): return "counted %d + %d + %d function calls, %d were made" % (fi, jf, hf, len(g["xs"]))
        if d["jm"] == "python" and d["m"] not in MI and jf != ji*(len(d["c"]) + 1): return "%d jacobians used %d calls" % (ji, jf)
S.append(Spec("numerics.SolverInterface", {}, None, target=t_si, gen=g_si, post=p_si, n=1.5,
    known=[("P30-interface-scipy-unconverged", lambda a, g: isinstance(g, dict) and "out" in g and a["m"] in SC + MI and not n2(system(a)[0](g["out"])) <= 1e-3)]))
# ---- vector norms / misc
def g_ac(r):
    n = r.randint(1, 4)
    return dict(a=[r.uniform(-2, 2) for _ in range(n)], b=[r.uniform(.1, .9)*r.choice((-1, 1)) for _ in range(n)], x=[r.uniform(-5, 5) for _ in range(n)])
def t_ac(a, b, x):
    # one-dimensional linear sequences x <- a + b x are extrapolated exactly by dem for a scalar
    n = N(); s = [x]
    for _ in range(3): s.append([p + q*v for p, q, v in zip(a, b, s[-1])])
    return dict(z=n.dem(s[2], s[2], s[1]), g=len(n.gdem(s[3], s[2], s[1], s[0])), k=n.aitken_delta_squared_accelerate(s[2], s[2], s[2]))
S.append(Spec("numerics.accelerators", {}, lambda a, b, x: dict(z=[0.0]*len(a), g=len(a), k=[0.0]*len(a)), target=t_ac, gen=g_ac, n=.3))
