"""P45: the same calls in interpreters with and without the optional packages."""
import copy, json, math, os, pickle, random, subprocess, sys, tempfile, importlib, warnings
from ..engine import Result, jsonable
from .. import corpus as co
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = "numpy,scipy,pandas,numba,pint,mpmath,sympy,pytz,matplotlib"
ENVS = (("without SciPy", "scipy"), ("without NumPy and SciPy", "numpy,scipy"), ("without any optional package", ALL))
P = os.path.join(HERE, "data", "nodeps.json")
import re
LOOSE = [(re.compile("TANK"), 1e-4), (re.compile("V_horiz_torispherical"), 2e-4), (re.compile("V_horiz_"), 1e-6), (re.compile(r"SA_|TANK|V_from_h|PSD|SizeDist"), 1e-5)]      # quadratures, of SciPy or of the library itself
def tolerance(key): return next((t for p, t in LOOSE if p.search(key)), 1e-9)
TAB = json.load(open(P)) if os.path.exists(P) else {"needs": {}, "calls": {}}
SKIPF = {"assert_close", "assert_close1d", "assert_close2d", "assert_close3d", "assert_close4d"}
def plain(v):
    if v is None or isinstance(v, (bool, int, float, str, complex)): return type(v).__module__ == "builtins"
    if isinstance(v, (list, tuple)): return all(map(plain, v))
    if isinstance(v, dict): return all(map(plain, v.values()))
    return False
def unnp(v):
    if type(v).__module__ == "numpy" and getattr(v, "shape", 1) == (): return v.item()
    if isinstance(v, list): return [unnp(i) for i in v]
    if isinstance(v, tuple): return tuple(unnp(i) for i in v)
    if isinstance(v, dict): return {k: unnp(i) for k, i in v.items()}
    return v
def items(names, r, K):
    from . import purity
    out = []
    for n in names:
        for _ in range(K):
            a = unnp(co.draw(r, n))
            if not plain(a): continue
            Q = []
            if n in purity.CLASSES:
                try:
                    m, f = n.rsplit(".", 1); o = getattr(importlib.import_module("fluids." + m), f)(**copy.deepcopy(a))
                    Q = [(q, unnp(z)) for q, z in purity.CLASSES[n](r, o, a) if isinstance(z, tuple) and plain(unnp(z)) and not (len(z) > 1 and z[1] == "chebyshev")]
                except Exception: Q = []
            out.append((n, a, Q))
    return out
def generic(r, K):
    """calls larger than any recorded one, and the solvers, integrators and differentiators on functions of vf/nodeps_fns.py"""
    from .. import nodeps_fns as fn
    out = []; N, A, P = "numerics.", "numerics.arrays.", "numerics.polynomial_utils."
    def vec(n, a=-5, b=5): return [r.uniform(a, b) for _ in range(n)]
    def inc(n):
        x = r.uniform(-3, 3); o = []
        for _ in range(n): o.append(x); x += r.uniform(.05, 2)
        return o
    def mat(n, m=None, d=True): return [[r.uniform(-2, 2) + (4.0*n if d and i == j else 0.0) for j in range(m or n)] for i in range(n)]
    def add(name, /, **k): out.append((name, k, []))
    for _ in range(K):
        n = r.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20)); M = mat(n); v = vec(n)
        add(A + "solve", matrix=M, b=v); add(A + "inv", matrix=M); add(A + "lu", A=M); add(A + "solve_LU_decomposition", A=M, b=v)
        add(A + "transpose", matrix=mat(n, r.randint(1, 12), False)); add(A + "matrix_vector_dot", matrix=M, vector=v); add(A + "matrix_multiply", A=M, B=mat(n, r.randint(1, 9), False))
        add(A + "norm2", arr=vec(r.choice((1, 5, 40)))); add(A + "dot_product", a=v, b=vec(n)); add(A + "eye", N=n)
        if n > 1: add(A + "solve_tridiagonal", a=vec(n - 1), b=vec(n, 20, 30), c=vec(n - 1), d=v); add(A + "tridiagonals_as_array", a=vec(n - 1), b=v, c=vec(n - 1))
        add(A + "sum_matrix_rows", matrix=M); add(A + "sum_matrix_cols", matrix=M); add(A + "scalar_add_matrices", A=M, B=mat(n)); add(A + "argsort1d", arr=v); add(A + "sort_paired_lists", list1=v, list2=vec(n))
        k = r.choice((2, 3, 7, 30, 70, 200)); xs = inc(k); x = r.uniform(xs[0] - 2, xs[-1] + 2)
        add(N + "interp", x=x, dx=xs, dy=vec(k), extrapolate=r.random() < .5); add(N + "binary_search", key=x, arr=xs); add(N + "cumulative_trapezoid", y=vec(k), x=xs)
        m = r.choice((2, 3, 9, 25)); ys = inc(m); add(N + "interp2d_linear", x=x, y=r.uniform(ys[0], ys[-1]), xs=xs, ys=ys, vals=[vec(k) for _ in ys])
        L = vec(k, .1, 9)
        for f in ("mean", "std", "cumsum", "normalize"): add(N + f, **{dict(mean="data", std="data", cumsum="a", normalize="values")[f]: L})
        add(N + "linspace", start=x, stop=x + 3, num=k); add(N + "logspace", start=-1.5, stop=2.25, num=k); add(N + "diff", a=L, n=r.randint(1, 2)); add(N + "product", l=L[:30])
        for f in ("mean_abs_rel_error", "max_squared_rel_error", "max_abs_error", "mean_squared_error"): add(N + f, data=L, calc=vec(k, .1, 9))
        s = r.choice((3, (2, 3), (3, 4, 2))); add(N + "zeros", shape=s); add(N + "full", shape=s, fill_value=2.5)
        d = r.choice((1, 3, 6, 12, 20)); c = vec(d)
        add("numerics.polynomial_evaluation.horner", coeffs=c, x=r.uniform(-1, 1)); add(N + "chebval", x=r.uniform(-1, 1), c=c); add(N + "chebder", c=c, m=1); add(P + "poly_mul", p1=c, p2=vec(d)); add(P + "polyint", coeffs=c); add(P + "polyder", c=c)
        ab = (r.uniform(1.5, 9), r.uniform(-1, .5))
        for f in ("secant", "halley", "newton"):
            add(N + f, func=fn.exp1 if f == "secant" else fn.exp1dd if f == "halley" else fn.exp1d, x0=r.uniform(.5, 2.5), args=ab, xtol=1e-12, **({"fprime": True} if f == "newton" else {}))
        add(N + "secant", func=fn.quad1, x0=r.uniform(.5, 3), args=ab, low=0.0, high=20.0, bisection=True, xtol=1e-12)
        for f in ("brenth", "bisect", "ridder"): add(N + f, **{"f": fn.quad1, "xa" if f == "brenth" else "a": 0.0, "xb" if f == "brenth" else "b": 12.0, "args": ab})
        x0 = vec(n, .2, 1.5)
        add(N + "newton_system", f=fn.sys1, x0=x0, jac=fn.sys1j, xtol=1e-12, line_search=r.random() < .5); add(N + "newton_system", f=fn.sys1fj, x0=x0, jac=True, ytol=1e-12); add(N + "homotopy_solver", f=fn.sys1, x0=x0, jac=fn.sys1j)
        add(N + "broyden2", xs=x0, fun=fn.sys1, jac=fn.sys1j, xtol=1e-11)
        for f in ("fixed_point", "fixed_point_aitken", "fixed_point_gdem", "fixed_point_anderson"): add(N + f, f=fn.cosfp, x0=x0, xtol=1e-8, maxiter=400)
        add(N + "nelder_mead", func=fn.bowl, x0=x0[:3], maxiter=60)
        add(N + "jacobian", f=fn.sys1, x0=x0, scalar=False, perturbation=1e-7); add(N + "hessian", f=fn.bowl, x0=x0, scalar=True, perturbation=1e-4)
        add(N + "derivative", func=fn.smooth, x0=r.uniform(-1, 1), dx=1e-3, n=r.choice((1, 2)), order=r.choice((3, 5, 7, 9))); add(N + "central_diff_weights", points=r.choice((3, 5, 7, 9, 11, 13)), divisions=1)
        add(N + "quad_adaptive", f=fn.smooth, a=-r.uniform(0, 2), b=r.uniform(0, 2))
    return out
def run(L, blocked):
    repo = os.environ.get("VF_REPO", "/repo")
    with tempfile.TemporaryDirectory(prefix="vf45") as d:
        pickle.dump(L, open(d + "/in", "wb"))
        env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPATH": ""}
        p = subprocess.run([sys.executable, "-B", os.path.join(HERE, "nodeps_child.py"), repo, d + "/in", d + "/out", blocked], cwd=d, env=env, capture_output=True, text=True)
        if p.returncode or not os.path.exists(d + "/out"): return "the interpreter ended with %s: %s" % (p.returncode, p.stderr[-400:]), [], []
        return pickle.load(open(d + "/out", "rb"))
def gap(x, y):
    """largest relative difference, None when they differ in kind"""
    if isinstance(x, float) and isinstance(y, float):
        if x == y or x != x and y != y: return 0.
        if not (math.isfinite(x) and math.isfinite(y)): return 9e9
        m = max(abs(x), abs(y)); return 0. if m < 1e-200 else abs(x - y)/m
    if isinstance(x, bool) or isinstance(y, bool): return 0. if bool(x) == bool(y) and not isinstance(x, (list, dict)) and not isinstance(y, (list, dict)) else None
    if type(x) is not type(y): return None
    if isinstance(x, tuple) and x[:1] == ("c",) and y[:1] == ("c",):
        m = math.hypot(*x[1:]); return 0. if x == y else math.hypot(x[1] - y[1], x[2] - y[2])/max(m, 1e-200)
    if isinstance(x, tuple): return 0. if x[:2] == y[:2] else None
    if isinstance(x, list):
        if len(x) != len(y): return None
        g = [gap(a, b) for a, b in zip(x, y)]
        if None in g: return None
        if all(isinstance(a, float) for a in x) and x: return max(abs(a - b)/(max(map(abs, x)) or 1) if g_ else 0. for a, b, g_ in zip(x, y, g)) if all(map(math.isfinite, x + y)) else max(g)
        return max(g, default=0.)
    if isinstance(x, dict):
        if set(x) != set(y): return None
        g = [gap(x[k], y[k]) for k in x]
        return None if None in g else max(g, default=0.)
    return 0. if x == y else None
def missing(y): return isinstance(y, tuple) and y[0] == "E" and (y[1] in ("ImportError", "ModuleNotFoundError"))
def ill(name, a, q, y0, tol):
    """the answer with everything installed already moves this much under rounding of the arguments"""
    import fluids
    from ..nodeps_enc import enc
    m, f = name.rsplit(".", 1); fn = getattr(importlib.import_module("fluids." + m), f); rr = random.Random(3)
    def jig(v, s):
        if type(v) is float: return v*(1 + s*rr.choice((-1, 1)))
        if isinstance(v, list): return [jig(i, s) for i in v]
        if isinstance(v, tuple): return tuple(jig(i, s) for i in v)
        return v
    if any(map(callable, a.values())): return False
    for s in [1e-15, 1e-14, 1e-13, 1e-12]*4:
        try:
            o = fn(**{k: jig(copy.deepcopy(v), s) for k, v in a.items()})
            v = enc(getattr(o, q[0])(*jig(q[1], s)) if q else o)
        except Exception: return True
        g = gap(y0, v)
        if g is None or g > tol: return True
    return False
def group(names, seed, K, collect=None):
    warnings.simplefilter("ignore")
    R = Result("environments"); r = random.Random("%s/%s" % (seed, names[0] if names else "generic")); L = items(names, r, K) if names else generic(r, K)
    f0, B, _ = run(L, "")
    if f0: R.bad({"names": names}, "with every package: " + f0); return R
    for what, blocked in ENVS:
        f, X, leaked = run(L, blocked)
        if f: R.bad({"environment": what}, "%s: %s" % (what, f)); continue
        if leaked: R.bad({"environment": what}, "harness: %s was imported" % leaked); continue
        needs = set(TAB["needs"].get(blocked, ())) | set(TAB["calls"].get(blocked, ())); told = set(); through = {k.split(".", 1)[1] for k in needs}
        for (n, a, Q), (y0, q0), (y1, q1) in zip(L, B, X):
            for q, u, v in [(None, y0, y1)] + ([(c, i, j) for c, i, j in zip(Q, q0, q1)] if len(q0) == len(q1) else []):
                R.evals += 1; key = n + ("." + q[0] if q else "")
                if n.split(".")[-1] in SKIPF or "_err" in n or missing(u) or u == ("E", "TimeoutError", "") or v == ("E", "TimeoutError", ""): R.skipped += 1; continue
                if missing(v):
                    if collect is not None: collect["needs"].setdefault(blocked, set()).add(key)
                    if key in needs or n in needs or through & set(v[3]): R.skipped += 1; continue
                    m = "%s needs a missing package (%s)" % (key, v[2])
                else:
                    g = gap(u, v); t = tolerance(key); R.judged += 1; R.keys.add(hash((blocked, n, repr(a), repr(q))))
                    if g is not None and g <= t: continue
                    if collect is not None: collect["gaps"].setdefault(key, []).append((g, blocked, repr(a)[:200], repr(q), repr(u)[:100], repr(v)[:100]))
                    if g is not None and g < 1e-3 and ill(n, a, q, u, t): R.skipped += 1; continue
                    m = "%s gives %s, with every package %s" % (key, repr(v)[:300], repr(u)[:300])
                if (key, m[:30]) in told: continue
                told.add((key, m[:30])); R.bad(jsonable({"function": n, "args": a, "query": q}), "%s: %s" % (what, m))
        if len(R.samples) < 2 and L: R.samples.append({"case": what, "args": jsonable({"function": L[0][0], "args": L[0][1]}), "observed": repr(X[0][0])[:100]})
    R.extra["interpreters"] = 4
    return R
