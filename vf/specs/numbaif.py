"""P40 compiled interfaces against the interpreted one, on the recorded calls"""
import copy, math, random, time, types, zlib, itertools, inspect
from ..engine import Result, Err, call, jsonable
from .. import corpus as co
NUM = (float, int)
def simple(v):
    import numpy as np
    if type(v) in (float, int, bool, str, type(None)): return True
    if isinstance(v, np.ndarray): return True
    if isinstance(v, (list, tuple)) and v:
        if all(type(i) in NUM for i in v): return True
        return all(isinstance(i, (list, tuple)) and i and len(i) == len(v[0]) and all(type(j) in NUM for j in i) for i in v)
    return False
def conv(v):
    import numpy as np
    return np.array(v, dtype=float) if isinstance(v, (list, tuple)) else v.copy() if isinstance(v, np.ndarray) else v
def kind(v):
    import numpy as np
    if isinstance(v, (list, tuple, np.ndarray)): return "array%d" % np.ndim(v)
    return type(v).__name__
def groups(full):
    """recorded calls by the types of their arguments, the most frequent first"""
    by = {}
    for e in co.entries(full):
        a = {k: co.dec(v) for k, v in e.items()}
        if a and all(simple(v) for v in a.values()): by.setdefault(tuple((k, kind(v)) for k, v in sorted(a.items())), []).append(a)
    return [by[k] for k in sorted(by, key=lambda k: (-len(by[k]), k))]
def vary(r, G, j, num=False):
    a = dict(r.choice(G))
    if len(G) > 1 and r.random() < .25:
        b = r.choice(G)
        for k in a:
            if r.random() < .3: a[k] = b[k]
    if r.random() < j:
        s = 10**r.uniform(-5, -.7)
        for k, v in a.items():
            if type(v) is float and math.isfinite(v) and r.random() < .7: a[k] = v*(1 + s*r.uniform(-1, 1))
            elif isinstance(v, (list, tuple)) and v and all(type(i) is float and math.isfinite(i) for i in v) and r.random() < .5:
                # positive factors keep ordered tables ordered
                q = 10**r.uniform(-13, 13) if num and r.random() < .4 else 1.0
                a[k] = type(v)(i*q*(1 + (0.0 if num else 1e-4*s*r.uniform(-1, 1))) for i in v)
    return a
def norm(y):
    import numpy as np
    if isinstance(y, np.generic): return y.item()
    if isinstance(y, np.ndarray): return [norm(i) for i in y] if y.ndim else y.item()
    if isinstance(y, (list, tuple)): return [norm(i) for i in y]
    return y
def flat(y): return [z for i in y for z in flat(i)] if isinstance(y, list) else [y]
def diff(p, q, rtol):
    """None if the compiled q equals the interpreted p; what cannot be compared counts as equal"""
    p, q = norm(p), norm(q); P, Q = flat(p), flat(q)
    if len(P) != len(Q): return "%r, interpreted %r" % (q, p)
    m = max([abs(i) for i in P if type(i) in (float, int) and math.isfinite(i)], default=0.0)*(1e-13 if len(P) > 1 else 0)
    for i, j in zip(P, Q):
        if i is None or isinstance(i, (str, bool)):
            if isinstance(i, bool) and isinstance(j, (bool, int, float)) and i == j: continue
            if i is None and j is None or type(i) is type(j) and i == j: continue
            return "%r, interpreted %r" % (q, p)
        if not isinstance(i, (float, int)) : return None
        if not math.isfinite(i): continue
        if not isinstance(j, (int, float, complex)): return "%r, interpreted %r" % (q, p)
        if not abs(j - i) <= rtol*abs(i) + m + 1e-300: return "%r, interpreted %r" % (q, p)
    return None
COMPILE = ("TypingError", "UnsupportedError", "LoweringError", "UnsupportedBytecodeError", "NumbaNotImplementedError", "NotImplementedError", "ConstantInferenceError", "InternalError", "NumbaValueError", "NumbaTypeError", "NumbaAssertionError", "CompilerError", "NumbaIndexError", "NumbaRuntimeError", "IRError", "UnsupportedParforsError", "UnsupportedRewriteError", "RequireLiteralValue")
def uncompiled(e):
    t = e
    return type(e).__name__ in COMPILE or type(e).__module__.startswith("numba") or "opcode" in str(e) or "exc_class" in str(e) or "op code" in str(e) or isinstance(e, AssertionError) or isinstance(e, TypeError) or isinstance(e, SystemError)
RT = {"geometry." + k: 1e-3 for k in ("SA_partial_horiz_ellipsoidal_head", "SA_partial_horiz_guppy_head", "SA_partial_horiz_spherical_head", "SA_partial_horiz_torispherical_head", "SA_from_h", "V_horiz_guppy", "V_horiz_spherical", "V_horiz_torispherical", "V_from_h")}  # quadratures
RT["geometry.SA_partial_horiz_guppy_head"] = 1e-2; RT["numerics.polynomial_utils.quadratic_from_points"] = 1e-4
LOOSE = 1e-7
UNDEF = object()
def interp(py, a):
    """the interpreted result; UNDEF where compiled code has no defined behaviour"""
    try: y = py(**copy.deepcopy(a))
    except Exception as e: y = Err(e)
    # a domain error of the math module is nan, infinity or out of memory in compiled code (documented numba behaviour)
    if isinstance(y, Err) and (isinstance(y.e, (OverflowError, ZeroDivisionError, TypeError, AttributeError, KeyError, IndexError, RecursionError, NameError)) or "domain" in str(y.e) or "range" in str(y.e) or "float division" in str(y.e)): return UNDEF
    return y
def judge(py, a, got, rtol, y=None):
    if y is None: y = interp(py, a)
    if y is UNDEF: return "skip"
    if any(isinstance(v, float) and abs(v) > 1e150 for v in a.values()): return "skip"   # no overflow semantics with fastmath
    if isinstance(y, Err):
        if isinstance(got, Err): return None
        if "Cannot specify both `rc`" in str(y.e): return "skip"    # this refusal is deleted from the compiled source on purpose
        if any(isinstance(v, float) and not math.isfinite(v) for v in flat(norm(got))): return "skip"
        r = "interpreted raises %r, compiled gives %r" % (y, got)
    elif any(isinstance(v, complex) for v in flat(norm(y))): return "skip"
    elif isinstance(got, Err):
        r = "compiled raises %r, interpreted gives %r" % (got, y)
    else: r = diff(y, got, rtol)
    if r is None: return None
    # thresholds and badly conditioned points: the interpreted function moved by rounding
    rr = random.Random(5)
    for s in [3e-16, 1e-15, 1e-14, 1e-13]*10:
        b = {k: v*(1 + s*rr.choice((-1, 1))) if type(v) is float else [i*(1 + s*rr.choice((-1, 1))) if type(i) is float else i for i in v] if isinstance(v, (list, tuple)) else v for k, v in a.items()}
        try: z = py(**b)
        except Exception as e:
            if isinstance(y, Err): continue
            return "skip"
        if isinstance(y, Err) or diff(y, z, rtol*.1): return "skip"
    return r
def pair(full, vec):
    import fluids
    mod, _, name = full.rpartition(".")
    num = mod.startswith("numerics")
    if vec:
        import fluids.numba_vectorized as m
        return (None if num else getattr(fluids, name, None)), getattr(m, name, None)
    import fluids.numba as m
    py = getattr(fluids.numerics if num else fluids, name, None)
    return py, getattr(m.numerics if num else m, name, None)
# mutable lists, which arrays cannot stand in for; Colebrook is replaced by Clamond
SKIPF = {"anderson_step", "compute_accelerated_step", "fpbspl", "Colebrook", "assert_close", "assert_close1d", "damping_maintain_sign", "Stichlmair_wet", "Stichlmair_flood"}
def run(full, seed, K, G, budget):
    """every recorded argument-type pattern (at most G) of one function, K calls each"""
    R = Result("numba." + full); r = random.Random("%s%s" % (full, seed)); t0 = time.process_time()
    py, nb = pair(full, False)
    if not isinstance(py, types.FunctionType) or nb is None or nb is py: return R
    gs = groups(full); rest = gs[1:]; r.shuffle(rest); comp = {}
    for g in (gs[:1] + rest)[:G]:
        if time.process_time() - t0 > budget: break
        first = True
        for i in range(K):
            a = dict(g[i]) if i < min(len(g), K//3) else vary(r, g, .7, full.startswith("numerics."))
            b = {k: conv(v) for k, v in a.items()}
            y = interp(py, a)
            if y is UNDEF: R.evals += 1; R.skipped += 1; continue
            if first:
                try: got = nb(**b)
                except Exception as e: got = Err(e)
            else: got = call(nb, b)
            if first and isinstance(got, Err) and uncompiled(got.e): R.skipped += 1; break
            first = False; R.evals += 1
            if isinstance(got, Err) and uncompiled(got.e): R.skipped += 1; continue
            v = judge(py, a, got, RT.get(full, LOOSE), y)
            if v == "skip": R.skipped += 1; continue
            R.judged += 1; R.keys.add(hash(repr(a)))
            if not R.samples: R.samples.append({"case": R.name, "args": jsonable(a), "observed": repr(got)[:200]})
            if v: R.bad(a, v)
        else: comp[repr(sorted((k, kind(v)) for k, v in a.items()))] = 1
    R.extra["compiled_signatures"] = len(comp)
    return R
def run_vec(full, seed, K, budget):
    import numpy as np
    R = Result("numba_vectorized." + full); r = random.Random("v%s%s" % (full, seed))
    py, nb = pair(full, True)
    if not isinstance(py, types.FunctionType) or nb is None or not hasattr(nb, "nin"): return R
    P = list(inspect.signature(py).parameters.values()); E = []
    if not P: return R
    for e in co.entries(full):
        a = {k: co.dec(v) for k, v in e.items()}
        for p in P:
            if p.name not in a and p.default is not inspect._empty: a[p.name] = p.default
        a = {k: float(v) if type(v) is int else v for k, v in a.items()}
        if all(type(v) in (float, bool) for v in a.values()) and len(a) == len(P): E.append(a)
    if not E: return R
    by = {}
    for a in E: by.setdefault(tuple(type(a[p.name]).__name__ for p in P), []).append(a)
    g = by[max(sorted(by), key=lambda k: len(by[k]))]
    first = True
    for i in range(K):
        n = r.choice((1, 2, 3, 7)); rows = [vary(r, g, .7) for _ in range(n)]
        sc = {p.name for p in P if r.random() < .3}
        A = [np.array([q[p.name] for q in rows]) if p.name not in sc else rows[0][p.name] for p in P]
        if all(not isinstance(v, np.ndarray) for v in A): A[0] = np.array([q[P[0].name] for q in rows])
        rows = [{p.name: rows[0][p.name] if not isinstance(v, np.ndarray) else q[p.name] for p, v in zip(P, A)} for q in rows]
        if any(interp(py, q) is UNDEF for q in rows): R.evals += n; R.skipped += n; continue
        try: got = nb(*A)
        except Exception as e: got = Err(e)
        if isinstance(got, Err) and uncompiled(got.e): R.skipped += 1; break
        for j, q in enumerate(rows):
            R.evals += 1
            if isinstance(got, Err):
                # some element must be refused by the interpreted function too
                ok = False
                for z in rows:
                    try: py(**z)
                    except Exception: ok = True
                v = None if ok else judge(py, q, got, LOOSE)
            elif len(got) != n: v = "%d results for %d" % (len(got), n)
            else: v = judge(py, q, got[j], RT.get(full, LOOSE))
            if v == "skip": R.skipped += 1; continue
            R.judged += 1; R.keys.add(hash(repr(q)))
            if v: R.bad(q, "element %d of %d: %s" % (j, n, v))
    return R
CLS = {"HelicalCoil": "geometry.HelicalCoil", "ATMOSPHERE_1976": "atmosphere.ATMOSPHERE_1976"}
def run_cls(name, seed, K):
    import fluids, fluids.numba as m
    R = Result("numba.class." + name); r = random.Random("c%s%s" % (name, seed))
    nb, py = getattr(m, name), getattr(fluids, name)
    for g in groups(CLS[name])[:6]:
        for i in range(K):
            a = vary(r, g, .7); b = {k: conv(v) for k, v in a.items()}
            try: x = nb(**b)
            except Exception as e: x = Err(e)
            R.evals += 1
            if isinstance(x, Err) and uncompiled(x.e): R.skipped += 1; break
            try: y = py(**a)
            except Exception as e: y = Err(e)
            if isinstance(x, Err) or isinstance(y, Err):
                if isinstance(x, Err) != isinstance(y, Err): R.skipped += 1
                continue
            R.judged += 1; R.keys.add(hash(repr(a)))
            for k, v in vars(y).items():
                try: w = getattr(x, k)
                except AttributeError: continue
                if isinstance(v, float):
                    d = diff(v, w, 1e-9)
                    if d: R.bad(a, "%s: %s" % (k, d))
            if not R.samples: R.samples.append({"case": R.name, "args": jsonable(a), "observed": "attributes"})
    return R
