"""Monitored calls, the oracle comparison, and the workload driver (random + dictionary +
boundary search steered by the comparison probes)."""
import copy, hashlib, json, math, os, random, signal, types
from . import instrument as ins
from .dom import OMIT

class CallTimeout(BaseException): pass
CALL_CPU_S = 60.0
def _alarm(sig, frm): raise CallTimeout("no return after %g s of CPU time" % CALL_CPU_S)
def arm():
    signal.signal(signal.SIGVTALRM, _alarm)

class Raises:
    """expected outcome: an exception of this type (or any, if None)"""
    def __init__(s, t=Exception): s.t = t
    def __repr__(s): return "Raises(%s)" % s.t.__name__
class OneOf:
    def __init__(s, *v): s.v = v
    def __repr__(s): return "OneOf%r" % (s.v,)
class Approx:
    """expected value with its own tolerance"""
    def __init__(s, v, rtol, atol=0.0): s.v, s.rtol, s.atol = v, rtol, atol
    def __repr__(s): return "%r (rtol %g, atol %g)" % (s.v, s.rtol, s.atol)
class Within:
    """expected: lo <= value <= hi"""
    def __init__(s, lo, hi): s.lo, s.hi = lo, hi
    def __repr__(s): return "[%r, %r]" % (s.lo, s.hi)
SKIP = type("SKIP", (), {"__repr__": lambda s: "SKIP"})()
ANY = type("ANY", (), {"__repr__": lambda s: "ANY"})()

class Err:
    def __init__(s, e): s.e = e
    def __repr__(s): return "raised %s: %s" % (type(s.e).__name__, str(s.e)[:200])

def isnum(x): return isinstance(x, (int, float)) and not isinstance(x, bool) or type(x).__module__ == "numpy" and getattr(x, "ndim", 1) == 0

class _A:
    def __repr__(s): return "ABSENT"
ABSENT = _A()    # as an expected dictionary entry: the key must not be there
def close(got, exp, rtol, atol):
    """None if got agrees with exp, else a short reason"""
    if exp is ANY: return None
    if isinstance(exp, Approx): return close(got, exp.v, exp.rtol, exp.atol)
    if isinstance(exp, OneOf):
        for v in exp.v:
            if close(got, v, rtol, atol) is None: return None
        return "%r is none of %r" % (got, exp.v)
    if isinstance(exp, Raises):
        if isinstance(got, Err) and isinstance(got.e, exp.t): return None
        return "expected %r, got %r" % (exp, got)
    if isinstance(got, Err): return "%r, expected %r" % (got, exp)
    if isinstance(exp, Within):
        if not isnum(got): return "%r is not a number" % (got,)
        if exp.lo <= got <= exp.hi: return None
        return "%r outside %r" % (got, exp)
    if exp is None or isinstance(exp, (str, bool)):
        if type(got).__name__ == "bool_": got = bool(got)
        if type(got).__name__ == "bool" and type(exp) is bool or not isinstance(exp, bool):
            return None if got == exp and (exp is not None or got is None) else "%r != %r" % (got, exp)
        return "%r != %r" % (got, exp)
    if isinstance(exp, complex) or isinstance(got, complex):
        try:
            if abs(got - exp) <= atol + rtol*abs(exp): return None
        except TypeError: pass
        return "%r != %r" % (got, exp)
    if isnum(exp) or type(exp).__name__ == "mpf":
        e = float(exp)
        try: g = float(got)
        except Exception: return "%r != %r" % (got, exp)
        if isinstance(got, str): return "%r != %r" % (got, exp)
        if math.isnan(e): return None if math.isnan(g) else "%r != nan" % g
        if g == e: return None
        if math.isinf(e) or math.isinf(g) or math.isnan(g): return "%r != %r" % (g, e)
        if abs(g - e) <= atol + rtol*abs(e): return None
        return "%r != %r (rel %.3g)" % (g, e, abs(g - e)/abs(e) if e else math.inf)
    if isinstance(exp, dict):
        if not isinstance(got, dict): return "%r is not a dict" % (got,)
        for k in exp:
            if exp[k] is ABSENT:
                if k in got: return "unexpected key %r" % (k,)
                continue
            if k not in got: return "missing key %r" % (k,)
            r = close(got[k], exp[k], rtol, atol)
            if r: return "[%r]: %s" % (k, r)
        return None
    if hasattr(exp, "__len__"):
        try:
            if len(got) != len(exp): return "length %d != %d" % (len(got), len(exp))
        except TypeError: return "%r != %r" % (got, exp)
        for i, (g, e) in enumerate(zip(got, exp)):
            r = close(g, e, rtol, atol)
            if r: return "[%d]: %s" % (i, r)
        return None
    return None if got == exp else "%r != %r" % (got, exp)

def leaves(x, out):
    if isinstance(x, dict):
        for k in sorted(x, key=str): leaves(x[k], out)
    elif isinstance(x, (list, tuple)):
        for v in x: leaves(v, out)
    else: out.append(x.v if isinstance(x, Approx) else x)
    return out

class Spec:
    """One monitored function: how to draw its arguments and which oracle judges a call.
    dom: name -> domain.  ref(**args) -> expected value | Raises | SKIP.
    post(args, got) -> None or a reason (judged also when there is no ref).
    fix(args) -> args adjusted to satisfy constraints, or None to reject.  """
    def __init__(s, name, dom, ref=None, target=None, rtol=1e-9, atol=0.0, post=None, fix=None, n=1.0,
                 known=(), hull=True, quiet=(), pos=None, strict=False, gen=None, floor=10, sites=True, ties=True):
        s.name, s.dom, s.ref, s.target, s.rtol, s.atol = name, dom, ref, target, rtol, atol
        s.post, s.fix, s.n, s.known, s.hull, s.quiet = post, fix, n, known, hull, quiet
        s.pos, s.strict, s.gen, s.floor, s.sites, s.ties = pos, strict, gen, floor, sites, ties

def resolve(name):
    import fluids, importlib
    if "." in name:
        m, _, f = name.rpartition(".")
        try: return getattr(importlib.import_module("fluids." + m), f)
        except ModuleNotFoundError:
            m, c = m.rsplit(".", 1)
            return getattr(getattr(importlib.import_module("fluids." + m), c), f)
    return getattr(fluids, name)

def clean(args): return {k: v for k, v in args.items() if v is not OMIT}

def mine(fn, depth=2, seen=None):
    """numeric constants appearing in the code fn runs (two call levels inside fluids)"""
    seen = set() if seen is None else seen
    out = set()
    code = getattr(fn, "__code__", None)
    if code is None or code in seen: return out
    seen.add(code)
    st = [code]
    names = set()
    while st:
        c = st.pop()
        names |= set(c.co_names)
        for k in c.co_consts:
            if isinstance(k, types.CodeType): st.append(k)
            elif isinstance(k, (int, float)) and not isinstance(k, bool): out.add(float(k))
            elif isinstance(k, tuple): out |= {float(v) for v in k if isinstance(v, (int, float))}
    g = getattr(fn, "__globals__", {})
    for nme in names:
        v = g.get(nme)
        if isinstance(v, float): out.add(v)
        elif depth and isinstance(v, types.FunctionType) and str(v.__module__).startswith("fluids") and "numerics" not in v.__module__:
            out |= mine(v, depth - 1, seen)
    return out

_CMP = {}
def _module_comparisons(path):
    """qualified function name -> (compared numbers, compared names), from the source (the loaded code is instrumented)"""
    import ast
    if path in _CMP: return _CMP[path]
    out = _CMP[path] = {}
    try: T = ast.parse(open(path, encoding="utf8").read())
    except Exception: return out
    def num(v):
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.USub): v = num(v.operand); return None if v is None else -v
        return float(v.value) if isinstance(v, ast.Constant) and isinstance(v.value, (int, float)) and not isinstance(v.value, bool) else None
    for n in ast.walk(T):
        if not isinstance(n, ast.FunctionDef): continue
        N, M = out.setdefault(n.name, (set(), set()))
        for c in ast.walk(n):
            if isinstance(c, ast.Compare):
                for v in [c.left, *c.comparators]:
                    if num(v) is not None: N.add(num(v))
                    elif isinstance(v, ast.Name): M.add(v.id)
    return out
def compared(fn, depth=2, seen=None):
    """those numeric constants that fn compares something with: the limits of its regimes, where ties are tried"""
    seen = set() if seen is None else seen
    out = set(); code = getattr(fn, "__code__", None)
    if code is None or code in seen: return out
    seen.add(code); g = getattr(fn, "__globals__", {}); names = set(); st = [code]
    while st:
        c = st.pop(); names |= set(c.co_names); st += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    N, M = _module_comparisons(code.co_filename).get(code.co_name, ((), ()))
    out |= set(N) | {float(g[m]) for m in M if isinstance(g.get(m), (int, float)) and not isinstance(g.get(m), bool)}
    for nme in names:
        v = g.get(nme)
        if depth and isinstance(v, types.FunctionType) and str(v.__module__).startswith("fluids") and "numerics" not in v.__module__: out |= compared(v, depth - 1, seen)
    return out

def jsonable(x):
    if isinstance(x, (str, bool, int, type(None))): return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, dict): return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jsonable(v) for v in x]
    return repr(x)[:300]

class Result:
    def __init__(s, name):
        s.name = name; s.evals = 0; s.judged = 0; s.skipped = 0; s.keys = set(); s.violations = []
        s.known = {}; s.samples = []; s.extra = {}; s.sites = {}
    def bad(s, args, msg, **kw):
        if len(s.violations) < 3:
            s.violations.append(dict(case=s.name, args=jsonable(args), message=str(msg)[:1500], **kw))
    def event(s, key=None):
        """one judged event; key identifies it for the distinct count"""
        s.evals += 1; s.judged += 1
        if key is not None: s.keys.add(hash(key))
    def pack(s):
        return dict(name=s.name, evals=s.evals, judged=s.judged, skipped=s.skipped, keys=s.keys,
                    violations=s.violations, known=s.known, samples=s.samples[:2], extra=s.extra,
                    sites=s.sites, lines=set(ins.LINES))

def call(fn, args, pos=None):
    """monitored call -> value or Err"""
    signal.setitimer(signal.ITIMER_VIRTUAL, CALL_CPU_S)
    try:
        if pos:
            a = dict(args)
            p = [a.pop(k) for k in pos]
            return fn(*p, **a)
        return fn(**args)
    except CallTimeout as e:
        return Err(e)
    except RecursionError as e:
        return Err(RecursionError("recursion"))
    except Exception as e:
        return Err(e)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)

class Explorer:
    def __init__(s, spec, seed, budget, res=None):
        s.spec = spec
        s.rng = random.Random("%s|%s" % (seed, spec.name))
        s.fn = spec.target if callable(spec.target) else resolve(spec.target or spec.name)
        s.res = res or Result(spec.name)
        s.budget = int(budget*spec.n)
        s.wit = {}     # site -> {side: (absd, args)}
        consts = sorted(mine(s.fn)) if not (spec.target and callable(spec.target)) else []
        if hasattr(spec, "mine"):
            for nme in spec.mine: consts = sorted(set(consts) | mine(resolve(nme)))
        s.consts = {k: [c for c in consts if d.inside(c)] for k, d in spec.dom.items() if d.cont}
        f = s.fn
        if spec.target and callable(spec.target):
            try: f = resolve(spec.name)
            except Exception: f = None
        cs = sorted(compared(f)) if callable(f) else []
        s.limits = set(cs)
        s.ties = [(k, c) for k, d in spec.dom.items() if d.cont for c in cs if d.inside(c)] if not spec.gen and spec.ref is not None and spec.ties else []
        s.stop = False

    def draw(s):
        if s.spec.gen:
            return s.spec.gen(s.rng)
        for _ in range(200):
            a = {k: d.sample(s.rng, s.consts.get(k, ())) for k, d in s.spec.dom.items()}
            if s.spec.fix:
                a = s.spec.fix(a)
                if a is None: continue
            return a
        return None

    def refval(s, a):
        try:
            r = s.spec.ref(**clean(a))
        except (ArithmeticError, ValueError, TypeError, AttributeError) as e:
            if isinstance(e, (TypeError, AttributeError)) and s.spec.strict: raise
            return SKIP
        if isinstance(r, complex): return SKIP
        return r

    def judge(s, a, got):
        sp = s.spec
        exp = None
        if sp.ref is not None:
            exp = s.refval(a)
            if exp is SKIP:
                s.res.skipped += 1
                return None
            why = close(got, exp, sp.rtol, sp.atol)
            if why and sp.hull and s.hull_ok(a, got) and (not sp.ties or not s.tie(a, got, exp)): why = None
        else: why = None
        if why is None and sp.post is not None:
            try: why = sp.post(clean(a), got)
            except (ArithmeticError, ValueError) as e: why = None
            if why is SKIP:
                if sp.ref is None:
                    s.res.skipped += 1
                    return None
                why = None
        s.res.judged += 1
        if why:
            for kid, pred in sp.known:
                if pred(clean(a), got):
                    s.res.known[kid] = s.res.known.get(kid, 0) + 1
                    return None
            s.res.bad(clean(a), why, expected=jsonable(exp) if not isinstance(exp, (Raises, OneOf, Approx)) else repr(exp), got=jsonable(got) if not isinstance(got, Err) else repr(got))
            s.stop = len(s.res.violations) >= 2
        return why

    def tie(s, a, got, exp):
        """the difference is a jump where an argument equals a number the code compares with: the other side of a
        documented limit was taken exactly at it.  A limit on a combination of arguments is not one: it moves with the others."""
        if isinstance(got, Err) != isinstance(exp, Raises): pass
        elif isinstance(got, Err): return False
        elif close(got, exp, 1e-6, s.spec.atol) is None: return False
        for k, v in a.items():
            d = s.spec.dom.get(k)
            if isinstance(v, float) and (d is None or d.cont) and v in s.limits and not s.hull_ok(a, got, k): return True
        return False

    def hull_ok(s, a, got, held=None):
        """near a documented switch, or where the formula is ill-conditioned, the reference moves by
        more than the tolerance within 1e-9 of the inputs: accept anything it takes there"""
        ks = [k for k, d in s.spec.dom.items() if d.cont and isinstance(a.get(k), float) and a[k] != 0]
        ks += [k for k, v in a.items() if k not in s.spec.dom and isinstance(v, float) and v != 0]
        exps = []
        r = random.Random(1)
        pts = []
        # a value accepted (or refused) at isolated points only, like a nominal size, is not a boundary
        here = isinstance(s.refval(a), Raises)
        def iso(k):
            return all(isinstance(s.refval(dict(a, **{k: a[k]*(1 + e)})), Raises) != here for e in (3e-10, -3e-10))
        ks = [k for k in ks if k != held and not iso(k)]
        for k in ks:
            for e in (3e-10, -3e-10, 2e-9, -2e-9):
                b = dict(a); b[k] = a[k]*(1 + e); pts.append(b)
        for _ in range(6):
            b = dict(a)
            for k in ks: b[k] = a[k]*(1 + r.choice((-2e-9, 0, 2e-9)))
            pts.append(b)
        for b in pts:
            e = s.refval(b)
            if e is SKIP: return True if False else _skip_near(exps)
            if close(got, e, s.spec.rtol, s.spec.atol) is None: return True
            exps.append(e)
        exps.append(s.refval(a))
        if isinstance(got, Err): return False
        try:
            gl = leaves(got, [])
            el = [leaves(e, []) for e in exps if not isinstance(e, (Raises, OneOf))]
        except Exception: return False
        if not el or any(len(e) != len(gl) for e in el): return False
        for i, g in enumerate(gl):
            col = [e[i] for e in el]
            if all(isnum(c) for c in col) and isnum(g):
                lo, hi = min(col), max(col)
                pad = s.spec.rtol*max(abs(lo), abs(hi)) + s.spec.atol
                if not lo - pad <= g <= hi + pad: return False
            elif g not in col: return False
        return True

    def run(s, a, note=True):
        """one monitored, judged execution; returns the probe record"""
        if s.spec.fix:
            a = s.spec.fix(dict(a))
            if a is None: return None, None
        c = clean(a)
        if any(isinstance(v, (list, dict)) for v in c.values()):
            c = copy.deepcopy(c)
        ins.start()
        got = call(s.fn, c, s.spec.pos)
        rec = ins.stop()
        s.res.evals += 1
        j0 = s.res.judged
        s.judge(a, got)
        if s.res.judged > j0:
            s.res.keys.add(hash(repr(sorted(clean(a).items(), key=lambda t: t[0]))))
            if len(s.res.samples) < 2:
                s.res.samples.append({"call": s.spec.name, "args": jsonable(clean(a)), "got": jsonable(got) if not isinstance(got, Err) else repr(got)})
        for site, (p, n) in rec.items():
            w = s.wit.get(site)
            if w is None: w = s.wit[site] = {}
            if p is not None and (1 not in w or abs(p) < w[1][0]): w[1] = (abs(p), a)
            if n is not None and (0 not in w or abs(n) < w[0][0]): w[0] = (abs(n), a)
        return a, rec

    # ---- phases
    def explore(s):
        n = 0
        nrand = max(20, int(s.budget*0.55))
        start = s.res.evals
        while s.res.evals - start < nrand and not s.stop:
            a = s.draw()
            if a is None: break
            s.run(a)
            if s.spec.dom and s.rng.random() < 0.25 and not s.spec.gen:   # neighbour differing in one argument
                b = dict(a)
                k = s.rng.choice(list(s.spec.dom))
                b[k] = s.spec.dom[k].sample(s.rng, s.consts.get(k, ()))
                s.run(b)
        s.rng.shuffle(s.ties); t = 0; T = s.ties[:]
        while T and t < .12*s.budget and not s.stop:      # arguments exactly at the limits
            for k, c in T:
                a = s.draw(); t += 1
                if a is None or t > .12*s.budget or s.stop: break
                a[k] = c
                if s.spec.fix: a = s.spec.fix(a)
                if a is not None: s.run(a)
        if s.spec.sites and s.spec.dom and not s.spec.gen: s.steer(start)
        return s.res

    def steer(s, start):
        done = set()
        failed = {}
        while s.res.evals - start < s.budget and not s.stop:
            todo = [x for x in s.wit if x not in done and ("numerics" not in ins.SITES[x][0] or getattr(s.spec, "allsites", False))]
            if not todo: break
            site = min(todo, key=lambda x: failed.get(x, 0))
            w = s.wit[site]
            if len(w) == 2:
                s.bisect(site, w[1][1], w[0][1])
                done.add(site)
            else:
                ok = s.minimise(site, 40)
                failed[site] = failed.get(site, 0) + 1
                if not ok and failed[site] >= 4: done.add(site)
        # leftover budget: random points near boundaries
        while s.res.evals - start < s.budget and not s.stop:
            a = s.draw()
            if a is None: break
            s.run(a)

    def side(s, rec, site):
        if rec is None or site not in rec: return None
        p, n = rec[site]
        if p is not None and n is not None: return 2
        return 1 if p is not None else 0

    def bisect(s, site, xp, xn):
        # move one argument at a time from xp to xn until the outcome flips
        cur = dict(xp)
        keys = list(s.spec.dom); s.rng.shuffle(keys)
        for k in keys:
            if cur.get(k, OMIT) is xn.get(k, OMIT) or cur.get(k) == xn.get(k): continue
            nxt = dict(cur); nxt[k] = xn.get(k, OMIT)
            a, rec = s.run(nxt)
            if s.stop: return
            sd = s.side(rec, site)
            if sd == 0 or sd == 2:
                d = s.spec.dom[k]
                if d.cont and isinstance(cur.get(k), float) and isinstance(nxt.get(k), float):
                    s.bisect1(site, k, cur, nxt)
                return
            if sd == 1: cur = nxt
            # site not reached: keep the old value of k, try others
        return

    def bisect1(s, site, k, A, B):
        d = s.spec.dom[k]
        va, vb = A[k], B[k]
        for i in range(48):
            vm = d.interp(va, vb, 0.5)
            if vm == va or vm == vb or abs(va - vb) <= 4e-16*abs(vm): break
            m = dict(A); m[k] = vm
            _, rec = s.run(m)
            if s.stop: return
            sd = s.side(rec, site)
            if sd == 1: va = vm
            elif sd in (0, 2): vb = vm
            else: break
        # sample the neighbourhood on both sides, also with other arguments redrawn
        for e in (1e-12, 1e-8, 1e-5, 1e-3, 2e-2):
            for sg in (-1, 1):
                m = dict(A); m[k] = va + sg*e*abs(va)
                if not d.inside(m[k]): continue
                s.run(m)
                if s.stop: return
        for _ in range(6):
            m = s.draw()
            if m is None: return
            m[k] = va*(1 + s.rng.choice((-1, 1))*10**s.rng.uniform(-7, -2))
            if d.inside(m[k]): s.run(m)
            if s.stop: return

    def minimise(s, site, budget):
        w = s.wit[site]
        have = 1 if 1 in w else 0
        best, cur = w[have]
        sc = 0.1
        keys = [k for k in s.spec.dom]
        for i in range(budget):
            if s.stop: return True
            m = dict(cur)
            u = s.rng.random()
            k = s.rng.choice(keys)
            d = s.spec.dom[k]
            v = m.get(k, OMIT)
            if v is OMIT or u < 0.15 or not d.cont:
                m[k] = d.sample(s.rng, s.consts.get(k, ()))
            else:
                m[k] = d.mutate(s.rng, v, sc)
                if u > 0.8:
                    k2 = s.rng.choice(keys)
                    if s.spec.dom[k2].cont and isinstance(m.get(k2), float):
                        m[k2] = s.spec.dom[k2].mutate(s.rng, m[k2], sc)
            a, rec = s.run(m)
            sd = s.side(rec, site)
            if sd is None: continue
            if sd == 2 or sd != have: return True
            dd = abs(rec[site][0 if have else 1])
            if dd < best:
                best, cur = dd, m
                sc = min(sc*1.6, 0.5)
            else:
                sc = max(sc*0.85, 1e-9)
        return False

def _skip_near(exps):
    # the reference leaves its domain within 1e-9 of the input: a boundary, not judged
    return True

def explore(spec, seed, budget):
    arm()
    ex = Explorer(spec, seed, budget)
    r = ex.explore()
    r.sites = {k: (1 in w, 0 in w) for k, w in ex.wit.items()}
    return r
