"""P36 list utilities, statistics, error metrics, closeness tests"""
import math, bisect
from fractions import Fraction as F
from ..dom import *
from ..engine import Raises, SKIP, Approx, Err, Spec, close
from .solve import lg, N
S = []
def seq(r, n=None, mode=None):
    n = r.choice((0, 1, 1, 2, 2, 3, 4, 7, 20)) if n is None else n
    mode = mode or r.choice(("u", "u", "int", "up", "down", "ties", "wide", "pos", "const"))
    v = [r.uniform(-5, 5) for _ in range(n)]
    if mode == "int": v = [float(r.randint(-3, 3)) for _ in range(n)]
    elif mode == "up": v.sort()
    elif mode == "down": v.sort(reverse=True)
    elif mode == "ties": v = sorted(float(r.randint(0, 4)) for _ in range(n)); v = v if r.random() < .6 else v[::-1]
    elif mode == "wide": v = [r.choice((-1, 1))*lg(r, -12, 12) for _ in range(n)]
    elif mode == "pos": v = [r.uniform(.1, 9) for _ in range(n)]
    elif mode == "const": v = [r.uniform(-5, 5)]*n
    return v
OPS = ("mean", "std", "outlier", "linspace", "linspace", "logspace", "product", "cumsum", "diff", "monotonic", "increasing", "ratios", "bsearch", "bsearch", "isclose", "isclose", "assert", "assert1d", "assert2d", "assert3d", "assert4d", "zeros", "normalize", "argsort", "paired", "caching", "metric", "metric", "metric", "sincos", "clip", "nmsort", "constants")
MET = ("max_abs_error", "max_abs_rel_error", "max_squared_error", "max_squared_rel_error", "mean_abs_error", "mean_abs_rel_error", "mean_squared_error", "mean_squared_rel_error")
def pert(r, v):
    k = r.random()
    if k < .3: return v
    if k < .6: return v*(1 + r.choice((-1, 1))*lg(r, -12, 0))
    if k < .8: return v + r.choice((-1, 1))*lg(r, -12, 0)
    return r.choice((0.0, -v, v + 1, r.uniform(-5, 5)))
def nest(r, shape):
    return [nest(r, shape[1:]) if len(shape) > 1 else r.choice((r.uniform(-5, 5), 0.0, 1.0)) for _ in range(shape[0])]
def mapn(f, a): return [mapn(f, v) for v in a] if isinstance(a, list) else f(a)
def g(r):
    op = r.choice(OPS); d = dict(op=op)
    if op in ("mean", "std", "outlier", "normalize", "ratios", "metric"):
        d["a"] = seq(r, r.choice((1, 2, 3, 5, 12)), "pos" if op == "normalize" else None)
        if op == "outlier": d["a"] += [r.uniform(20, 90)]*r.randint(0, 1); d["k"] = r.choice((3, 2, 1, .5))
        if op in ("ratios", "metric"):
            d["a"] = [v if r.random() > .1 else 0.0 for v in d["a"]]; d["b"] = [pert(r, v) for v in d["a"]]; d["f"] = r.choice(MET)
            if op == "metric" and r.random() < .1: d["max"] = r.choice((.5, 10.0))
    elif op in ("linspace", "logspace"):
        d.update(a=r.choice((r.uniform(-5, 5), 0, 1, -3)), b=r.choice((r.uniform(-5, 5), 7, 0, 1)), n=r.choice((0, 1, 1, 2, 3, 10, 50, 333, -2, 4.0)), end=r.random() < .7, ret=r.random() < .3 and op == "linspace", base=r.choice((10.0, 2.0, math.e)))
    elif op in ("product", "cumsum", "diff", "monotonic", "increasing", "argsort", "nmsort"):
        d["a"] = seq(r)
        if op in ("monotonic", "increasing") and len(d["a"]) > 1 and r.random() < .4:
            i = r.randrange(len(d["a"])); d["a"].sort(reverse=r.random() < .5); d["a"][i] = r.choice((d["a"][i - 1], d["a"][i - 1] + 1, d["a"][i - 1] - 1))
        if op == "diff": d["k"] = r.choice((0, 1, 1, 2, 3, -1))
        if op == "nmsort": d["a"] = seq(r, r.randint(2, 7)); d["b"] = [[float(i), r.random()] for i in range(len(d["a"]))]
    elif op == "bsearch":
        d["a"] = sorted(seq(r, r.randint(1, 20), r.choice(("u", "int", "ties", "wide")))); d["k"] = r.choice((r.choice(d["a"]), r.uniform(d["a"][0] - 1, d["a"][-1] + 1), d["a"][0], d["a"][-1], math.nextafter(r.choice(d["a"]), r.choice((-1e300, 1e300))))); d["n"] = r.choice((None, None, len(d["a"]), r.randint(1, len(d["a"]))))
    elif op == "isclose" or op.startswith("assert"):
        d["rt"] = r.choice((1e-9, 1e-7, .1, 0.0, lg(r, -12, 0))); d["at"] = r.choice((0.0, 0.0, lg(r, -12, 1)))
        if op in ("isclose", "assert"):
            a = r.choice((r.uniform(-5, 5), 0.0, r.choice((-1, 1))*lg(r, -20, 20), 1.0, math.inf)); d["a"] = a; d["b"] = r.choice((a, a*(1 + d["rt"]*r.uniform(0, 2)), a + d["at"]*r.uniform(0, 2), pert(r, a), -a, math.inf, math.nan))
            if r.random() < .2: d["a"] = [a, r.uniform(-1, 1)]; d["b"] = [d["b"], d["a"][1]*r.choice((1.0, 1 + d["rt"]*r.uniform(0, 2), 2.0))]   # complex numbers
            if op == "assert" and r.random() < .05: d["a"] = d["b"] = None
        else:
            d["a"] = nest(r, [r.randint(1, 3) for _ in range(int(op[6]))]); q = r.random() < .5
            d["b"] = mapn(lambda v: v*(1 + d["rt"]*r.uniform(-.4, .4)) if q or r.random() < .9 else pert(r, v), d["a"])
            if r.random() < .1:
                t = d["b"]
                for _ in range(r.randint(0, int(op[6]) - 1)): t = t[r.randrange(len(t))]
                t.append(t[0]) if r.random() < .5 else t.pop()
    elif op == "zeros":
        d["a"] = r.choice((3, 0, [2], [2, 3], [1, 3], [3, 1, 2], [2, 3, 2], [1, 2, 3], [2, 1, 2, 2], [1, 2, 3, 2], [2, 2, 2, 2], [1, 1, 1, 1, 1])); d["k"] = r.choice((0.0, 1.5, 2, -3)); d["i"] = r.random() < .3; d["full"] = r.random() < .5; d["bad"] = r.random() < .05
    elif op == "paired":
        d["a"] = seq(r, mode=r.choice(("u", "ties", "int"))); d["b"] = [str(i) for i in range(len(d["a"]))]
        if r.random() < .1: d["b"].append("x")
    elif op == "caching": d["a"] = [float(r.randint(0, 3)) for _ in range(6)]; d["b"] = [r.random() < .5 for _ in range(6)]
    elif op == "sincos": d["k"] = r.choice((r.uniform(-9, 9), lg(r, -9, 9)))
    elif op == "clip":
        n = r.randint(1, 4); d["lo"] = [r.uniform(-3, 0) for _ in range(n)]; d["hi"] = [r.uniform(0, 3) for _ in range(n)]; d["a"] = [r.uniform(-5, 5) for _ in range(n)]; d[r.choice(("lo", "hi"))] = r.choice((None, [0.5]*n))
    return d
def t(op, a=None, b=None, k=None, n=None, **d):
    m = N()
    if op == "mean": return m.mean(a)
    if op == "std": return float(m.std(a))
    if op == "outlier": return m.detect_outlier_normal(a, k)
    if op == "linspace": return m.linspace(a, b, n, endpoint=d["end"], retstep=d["ret"])
    if op == "logspace": return m.logspace(a, b, n, endpoint=d["end"], base=d["base"])
    if op in ("product", "cumsum"): return getattr(m, op)(a)
    if op == "diff": return m.diff(a, k)
    if op == "monotonic": return m.is_monotonic(a)
    if op == "increasing": return m.is_increasing(a)
    if op == "ratios": return list(m.min_max_ratios(a, b))
    if op == "bsearch": return m.binary_search(k, a, n) if n is not None else m.binary_search(k, a)
    if op == "isclose" or op == "assert":
        if isinstance(a, list): a = complex(*a); b = complex(*b)
        if op == "assert": m.assert_close(a, b, rtol=d["rt"], atol=d["at"]); return "ok"
        return bool((m.cisclose if isinstance(a, complex) else m.isclose)(a, b, rel_tol=d["rt"], abs_tol=d["at"]))
    if op.startswith("assert"): getattr(m, "assert_close" + op[6:])(a, b, rtol=d["rt"], atol=d["at"]); return "ok"
    if op == "zeros":
        s = tuple(a) if isinstance(a, list) else a; ty = str if d["bad"] else int if d["i"] else float
        o = m.full(s, k, ty) if d["full"] else m.zeros(s, ty) if ty is not float else m.zeros(s)
        if isinstance(s, tuple) and len(s) > 1:   # rows are independent objects: a mark written anywhere shows in one place only
            old = []; mapn(old.append, o); n_ = [0]
            def put(q, V):
                for i in range(len(q)):
                    if isinstance(q[i], list): put(q[i], V)
                    else: q[i] = V[n_[0]]; n_[0] += 1
            put(o, list(range(1000, 1000 + len(old)))); l = []; mapn(l.append, o); n_[0] = 0
            if len(set(l)) != len(old): return "rows are shared"
            put(o, old)
        return o
    if op == "normalize": return m.normalize(a)
    if op == "argsort":
        from fluids.numerics.arrays import argsort1d; return argsort1d(a)
    if op == "paired":
        from fluids.numerics.arrays import sort_paired_lists; return [list(v) for v in sort_paired_lists(a, b)]
    if op == "metric": return float(getattr(m, d["f"])(a, b, *([d["max"]] if "max" in d and d["f"] == "max_abs_rel_error" else [])))
    if op == "sincos": return list(m.sincos(k))
    if op == "clip": return list(m.bounds_clip_naive(list(a), d["lo"], d["hi"]))
    if op == "nmsort":
        s, f = m.sort_nelder_mead_points_python([list(v) for v in b], list(a)); return [list(map(list, s)), list(f)]
    if op == "constants": return [m.third, m.sixth, m.ninth, m.twelfth, m.two_thirds, m.four_thirds, m.root_three, m.one_27, m.epsilon, m.one_epsilon_larger, m.one_epsilon_smaller, m.one_1000_epsilon_larger]
    calls = []
    def f(x, info=None):
        calls.append(x)
        if info is not None: info[:] = [x, x + 1]
        return x*x
    w, cache, ic = m.caching_decorator(f, full=True); o = []
    for x, i in zip(a, b):
        l = []; o.append([w(x, info=l) if i else w(x), list(l)]); l.append("scribble")
    return [o, calls]
def nc(a, b, rt, at):
    if a == b: return True
    for v in (a, b):
        if math.isnan(v.real) or math.isinf(v.real) or math.isinf(v.imag) or math.isnan(v.imag): return False
    e = abs(a - b); return e <= rt*abs(a) or e <= rt*abs(b) or e <= at
def edge(a, b, rt, at):
    e = abs(a - b); return any(abs(e - q) <= 1e-12*e for q in (rt*abs(a), rt*abs(b), at, rt*abs(b) + at))
def npc(a, b, rt, at): return a == b or (not math.isinf(abs(b)) and abs(a - b) <= at + rt*abs(b))
def shape_ok(a, b):
    if isinstance(a, list) != isinstance(b, list): return False
    return not isinstance(a, list) or len(a) == len(b) and all(shape_ok(p, q) for p, q in zip(a, b))
def flat(a): return [w for v in a for w in flat(v)] if isinstance(a, list) else [a]
def eq(g, e, mag, rel=1e-13, what=""):
    if isinstance(g, (Err, str, list, tuple)): return "%s%r instead of %r" % (what, g, float(e))
    if abs(float(g) - float(e)) > rel*float(mag): return "%s%r instead of %r" % (what, g, float(e))
def err(g, t=ValueError): return None if isinstance(g, Err) and isinstance(g.e, t) else "%r instead of %s" % (g, t)
def same(g, e): return None if g == e and type(g) == type(e) else "%r instead of %r" % (g, e)
def post(d, g):
    op, a, b, k, n = [d.get(i) for i in ("op", "a", "b", "k", "n")]
    E = isinstance(g, Err)
    if op == "mean": return eq(g, sum(map(F, a))/len(a), sum(map(abs, a)))
    if op == "std":
        mu = sum(map(F, a))/len(a); return eq(g, math.sqrt(sum((F(v) - mu)**2 for v in a)/len(a)), sum(map(abs, a)), 1e-12)
    if op == "outlier":
        mu = sum(map(F, a))/len(a); s = math.sqrt(sum((F(v) - mu)**2 for v in a)/len(a)); z = [abs(float(F(v) - mu)) - k*s for v in a]
        if any(abs(v) < 1e-12*sum(map(abs, a)) for v in z): return SKIP
        return same(g, [i for i, v in enumerate(z) if v > 0])
    if op in ("linspace", "logspace"):
        n = int(n)
        if op == "linspace" and d["ret"] and n > 0:
            if not isinstance(g, tuple) or len(g) != 2: return "%r without a step" % (g,)
            g, st = g; div = n - 1 if d["end"] else n
            if n > 1:
                w = eq(st, (F(b) - F(a))/div, abs(a) + abs(b))
                if w: return "step " + w
        if n <= 0: return None if g == [] or (d["ret"] and list(g)[:1] == [[]]) else "%r" % (g,)
        if E or len(g) != n: return "%r" % (g,)
        div = (n - 1 or 1) if d["end"] else n
        for i, v in enumerate(g):
            e = F(a) + (F(b) - F(a))*i/div
            if op == "linspace": w = eq(v, e, abs(a) + abs(b), 4e-16*(i + 2))
            else: e = d["base"]**float(e); w = eq(v, e, e, 1e-14*(i + 2))
            if w: return "point %d: %s" % (i, w)
        if op == "linspace" and (g[0] != a or (d["end"] and n > 1 and g[-1] != b)): return "end points %r" % ((g[0], g[-1]),)
        return None
    if op == "product":
        e = F(1)
        for v in a: e *= F(v)
        return eq(g, e, abs(e), 1e-14)
    if op == "cumsum":
        if not a: return None if E or g == [] else "%r" % (g,)
        if E or len(g) != len(a): return "%r" % (g,)
        s = F(0); m = 0
        for i, v in enumerate(a):
            s += F(v); m += abs(v); w = eq(g[i], s, m)
            if w: return w
        return None
    if op == "diff":
        if k < 0: return err(g)
        if E: return repr(g)
        e = [F(v) for v in a]
        for _ in range(k): e = [q - p for p, q in zip(e, e[1:])]
        if len(g) != len(e): return "length %d" % len(g)
        m = 2**k*max([abs(v) for v in a] or [0])
        for p, q in zip(g, e):
            w = eq(p, q, m)
            if w: return w
        return None
    if op == "monotonic":
        if not a: return SKIP
        return same(g, all(p <= q for p, q in zip(a, a[1:])) or all(p >= q for p, q in zip(a, a[1:])))
    if op == "increasing": return same(g, all(p < q for p, q in zip(a, a[1:])))
    if op == "ratios":
        if E: return repr(g)
        q = [1.0] + [v/u if u else (1.0 if v == u else 10.0) for u, v in zip(a, b)]
        return eq(g[0], min(q), abs(min(q))) or eq(g[1], max(q), abs(max(q)))
    if op == "bsearch":
        s = a[:n] if n is not None else a
        return same(g, len(s) if k > s[-1] else bisect.bisect_right(s, k) - 1)
    if op in ("isclose", "assert"):
        if a is None: return same(g, "ok")
        if isinstance(a, list): a = complex(*a); b = complex(*b)
        if op == "assert" and (a != a or b != b): return SKIP
        rt, at = d["rt"], d["at"]
        if a != b and a == a and b == b and not math.isinf(abs(a)) and not math.isinf(abs(b)) and edge(a, b, rt, at): return SKIP
        e = nc(a, b, rt, at)
        if op == "isclose": return same(g, e)
        # the numpy fallback also accepts absolute plus relative tolerance
        if not e and npc(a, b, rt, at): return SKIP
        return same(g, "ok") if e else err(g, AssertionError)
    if op.startswith("assert"):
        if not shape_ok(a, b): return err(g, (ValueError, AssertionError))
        rt, at = d["rt"], d["at"]; p = list(zip(flat(a), flat(b)))
        if any(u != v and edge(u, v, rt, at) for u, v in p): return SKIP
        if all(nc(u, v, rt, at) for u, v in p): return same(g, "ok")
        if all(nc(u, v, rt, at) or npc(u, v, rt, at) for u, v in p): return SKIP
        return err(g, AssertionError)
    if op == "zeros":
        if d["bad"] or (isinstance(a, list) and len(a) > 4): return err(g)
        v = (int if d["i"] else float)(k if d["full"] else 0)
        def mk(s): return [mk(s[1:]) if len(s) > 1 else v for _ in range(s[0])]
        e = mk(a if isinstance(a, list) else [a])
        return same(g, e) or (None if all(type(q) is type(v) for q in flat(g)) else "element type")
    if op == "normalize":
        s = sum(map(F, a))
        return repr(g) if E or len(g) != len(a) else next((w for w in (eq(p, F(q)/s, 1) for p, q in zip(g, a)) if w), None)
    if op == "argsort": return same(g, sorted(range(len(a)), key=lambda i: a[i]))
    if op == "paired":
        if len(a) != len(b): return err(g)
        i = sorted(range(len(a)), key=lambda i: a[i]); return same(g, [[a[j] for j in i], [b[j] for j in i]])
    if op == "metric":
        f = d["f"]; rel = "rel" in f
        if rel and any(v == 0 for v in a):
            if f == "max_abs_rel_error": mx = d.get("max", 1000.0); q = [min(abs(F(v) - F(u))/abs(F(u)), F(mx)) if u else F(0 if v == 0 else mx) for u, v in zip(a, b)]
            elif f == "mean_abs_rel_error": q = [abs(F(v) - F(u))/abs(F(u)) if u else F(0 if v == 0 else 1) for u, v in zip(a, b)]
            else: return SKIP
        else:
            q = [abs(F(v) - F(u))/(abs(F(u)) if rel else 1) for u, v in zip(a, b)]
            if f == "max_abs_rel_error": q = [min(v, F(d.get("max", 1000.0))) for v in q]
            if "squared" in f: q = [v*v for v in q]
        e = max(q) if f.startswith("max") else sum(q)/len(q)
        if E: return repr(g)
        return eq(g, e, max(e, F(1, 10**300)) , 1e-12) 
    if op == "sincos": return repr(g) if E else eq(g[0], math.sin(k), 1, 1e-15) or eq(g[1], math.cos(k), 1, 1e-15)
    if op == "clip": return same(g, [min(max(v, l), h) for v, l, h in zip(a, d["lo"] or [-9.0]*len(a), d["hi"] or [9.0]*len(a))])
    if op == "nmsort":
        i = sorted(range(len(a)), key=lambda i: a[i])
        if E or g[1] != [a[j] for j in i]: return "%r" % (g,)
        # points stay with their values
        for s, f in zip(*g):
            if a[int(s[0])] != f or b[int(s[0])] != s: return "point %r has value %r" % (s, f)
        return None
    if op == "constants":
        e = [F(1, 3), F(1, 6), F(1, 9), F(1, 12), F(2, 3), F(4, 3), F(math.sqrt(3)), F(1, 27), F(2)**-52, 1 + F(2)**-52, 1 - F(2)**-52, 1 + 1000*F(2)**-52]
        return repr(g) if E else next((w for w in (eq(p, q, q, 2e-16) for p, q in zip(g, e)) if w), None)
    # caching
    if E: return repr(g)
    seen = {}; calls = []; e = []
    for x, i in zip(a, b):
        if x not in seen or (i and not seen[x]): calls.append(x); seen[x] = seen.get(x, False) or i
        e.append([x*x, [x, x + 1] if i else []])
    return same(g[0], e) or (None if len(g[1]) <= len(a) and len(g[1]) <= len(calls) and set(g[1]) == set(a) else "%d calls instead of %d" % (len(g[1]), len(calls)))
S.append(Spec("numerics.lists", {}, None, target=t, gen=g, post=post, n=10))
