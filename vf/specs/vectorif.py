"""P39 vectorized interface against element-wise scalar calls"""
import copy, math, random, types
from ..engine import Raises, SKIP, Err, Spec
from .. import corpus as co
S = []
def scal(v): return type(v) in (float, int, bool, str, type(None))
def gen_for(full):
    E = [e for e in co.entries(full) if all(scal(co.dec(v)) for v in e.values())]
    by = {}
    for e in E: by.setdefault(tuple(sorted(e)), []).append(e)
    keys = sorted(k for k in by if k)
    if not keys: return None
    def gen(r):
        k = r.choice(keys); G = by[k]; n = r.choice((1, 2, 3, 5)); m = r.choice((1, 2, 3))
        def one():
            a = {x: co.dec(v) for x, v in r.choice(G).items()}
            for x, v in a.items():
                if type(v) is float and r.random() < .4: a[x] = v*(1 + .05*r.uniform(-1, 1))
                elif type(v) is float and v == int(v) if type(v) is float and math.isfinite(v) else False:
                    if r.random() < .3: a[x] = int(v)
            return a
        base = one(); d = dict(cols={}, kind={}, pos=0, n=n, m=m)
        rows = [one() for _ in range(n)]; cols = [one() for _ in range(m)]
        order = r.random() < .5
        for x in k:
            w = r.random()
            if w < .35: d["kind"][x] = "s"; d["cols"][x] = base[x]
            elif w < .85 or n == 1: d["kind"][x] = r.choice(("list", "array", "tuple", "array", "intarray")); d["cols"][x] = [q[x] for q in rows]
            else: d["kind"][x] = "col"; d["cols"][x] = [q[x] for q in cols]
            if d["kind"][x] != "s" and any(v is None for v in d["cols"][x]): d["kind"][x] = "s"; d["cols"][x] = base[x]
            if d["kind"][x] in ("array", "tuple", "intarray", "list") and len({type(v) for v in d["cols"][x]} - {int, float}) + (1 if {type(v) for v in d["cols"][x]} & {int, float} else 0) > 1: d["kind"][x] = "s"; d["cols"][x] = base[x]
        if all(v == "s" for v in d["kind"].values()):
            x = r.choice(k)
            if base[x] is not None: d["kind"][x] = "list"; d["cols"][x] = [q[x] for q in rows]
        d["pos"] = r.choice((0, 0, 1, 2, 9)); d["iface"] = r.choice(("vectorized", "vectorized", "vectorized"))
        d["mix"] = r.random() < .2
        return d
    return gen
def build_args(d):
    import numpy as np
    a = {}
    for x, k in d["kind"].items():
        v = d["cols"][x]
        if k == "s": a[x] = v
        elif k == "list": a[x] = list(v)
        elif k == "tuple": a[x] = tuple(v)
        elif k == "col": a[x] = np.array(v).reshape(-1, 1) if all(type(i) in (int, float, bool) for i in v) else [[i] for i in v]
        elif k == "intarray" and all(isinstance(i, (int, float)) and math.isfinite(i) and float(i) == int(i) for i in v) and not any(isinstance(i, bool) for i in v): a[x] = np.array([int(i) for i in v])
        else: a[x] = np.array(v) if all(type(i) in (int, float, bool, str) for i in v) else list(v)
    return a
def order(f):
    import inspect
    return list(inspect.signature(f).parameters)
def get(name):
    import fluids
    return getattr(fluids, name)
def target_for(name):
    def t(**d):
        import fluids.vectorized as fv
        a = build_args(d); pos = []
        for x in order(get(name))[:d["pos"]]:
            if x in a: pos.append(a.pop(x))
            else: break
        snap = copy.deepcopy((pos, a))
        out = getattr(fv, name)(*pos, **a)
        import numpy as np
        for u, v in zip(list(snap[0]) + list(snap[1].values()), pos + list(a.values())):
            if not (np.array_equal(np.asarray(u, dtype=object), np.asarray(v, dtype=object)) if not isinstance(u, float) else u == v or u != u): raise AssertionError("input modified: %r -> %r" % (u, v))
        return out
    return t
def eq(x, y):
    import numpy as np
    if isinstance(y, np.generic): y = y.item()
    if isinstance(x, np.generic): x = x.item()
    if isinstance(x, (list, tuple, dict, np.ndarray)) or isinstance(y, (list, tuple, dict, np.ndarray)):
        try:
            if isinstance(x, dict): return isinstance(y, dict) and set(x) == set(y) and all(eq(x[k], y[k]) for k in x)
            return len(x) == len(y) and all(eq(a, b) for a, b in zip(x, y))
        except TypeError: return False
    if x is None or y is None: return x is y or (x is None and y != y)
    if isinstance(x, str) or isinstance(y, str): return x == y
    if x == y or (x != x and y != y): return True
    if isinstance(x, complex) or isinstance(y, complex): return abs(x - y) <= 1e-13*abs(x)
    return abs(x - y) <= 1e-13*abs(x)
def judge(name, d, got):
    import numpy as np
    f = get(name); a = build_args(d); n, m = d["n"], d["m"]
    A = {}
    for x, v in a.items():
        if isinstance(v, np.ndarray): A[x] = v
        elif isinstance(v, (list, tuple)): A[x] = np.array(v, dtype=object)
    sh = np.broadcast_shapes(*[v.shape for v in A.values()]) if A else ()
    exp = []; err = None
    B = {x: np.broadcast_to(v, sh) for x, v in A.items()}
    for i in np.ndindex(*sh):
        q = dict(a)
        for x in B:
            v = B[x][i]; q[x] = v.item() if isinstance(v, np.generic) else v
        try: exp.append(f(**q))
        except Exception as e: err = e; break
    if err is not None:
        if isinstance(got, Err): return None if type(err) is type(got.e) or True else "raised %r for %r" % (got, err)
        return "scalar call raises %r, vectorized gives %r" % (err, got)
    if any(isinstance(e, (list, dict, np.ndarray, complex)) for e in exp) or (isinstance(exp[0], tuple) and any(not (e is None or isinstance(e, (int, float, str, bool, np.generic))) for q in exp for e in q)): return SKIP
    if len({type(e) is tuple for e in exp}) > 1: return SKIP
    if isinstance(got, Err): return "vectorized raises %r, scalar gives %r" % (got, exp)
    if isinstance(exp[0], tuple):
        if not all(isinstance(e, tuple) and len(e) == len(exp[0]) for e in exp): return SKIP
        if not isinstance(got, tuple) or len(got) != len(exp[0]): return "%d results" % len(got)
        parts = [(np.asarray(g), [e[j] for e in exp]) for j, g in enumerate(got)]
    else: parts = [(np.asarray(got), exp)]
    for j, (g, e) in enumerate(parts):
        if g.shape != sh and not isinstance(e[0], list): return "shape %r, expected %r" % (g.shape, sh)
        if isinstance(e[0], (list, np.ndarray)) : 
            if not eq(list(np.asarray(g, dtype=object).ravel()), e): 
                if len(e) == 1: return SKIP
                return "%r, scalar %r" % (g, e)
            continue
        for x, y in zip(e, g.ravel()):
            if not eq(x, y): return "result %d: %r, scalar %r" % (j, [q.item() if isinstance(q, np.generic) else q for q in g.ravel()], e)
    return None
import inspect
def build():
    import fluids
    by = {n.split(".")[-1]: n for n in co.corpus() if not n.startswith("numerics")}
    for name in sorted(by):
        f = getattr(fluids, name, None)
        if not isinstance(f, types.FunctionType) or name in ("liquid_jet_pump", "psd_spacing") or name.endswith("_methods"): continue
        g = gen_for(by[name])
        if g: S.append(Spec("vectorized." + name, {}, None, target=target_for(name), gen=g, post=(lambda n: lambda d, got: judge(n, d, got))(name), floor=0, sites=False))
def names_gen(r): return {"i": r.randint(0, 10**9)}
def names_target(i):
    import fluids, fluids.vectorized as fv
    out = []
    for k in dir(fluids):
        o = getattr(fluids, k)
        if isinstance(o, types.FunctionType) and not k.startswith("_"):
            if not callable(getattr(fv, k, None)): out.append(k + " missing")
            elif k not in fv.__all__ and k != "all_submodules": out.append(k + " not in __all__")
        elif isinstance(o, type) and getattr(fv, k, None) is not o: out.append(k + " class differs")
    for k in fluids.__all__:
        if not hasattr(fv, k): out.append(k + " missing")
    return out
S.append(Spec("vectorized.names", {}, None, target=names_target, gen=names_gen, post=lambda d, g: None if g == [] else repr(g), floor=0, sites=False, n=.02))
build()
