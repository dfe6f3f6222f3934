"""Input domains: each knows how to draw a value, clamp, interpolate and perturb."""
import math
class Dom:
    cont = False
    def pool(self, consts):
        return []
class L(Dom):
    """log-uniform on [lo, hi], lo > 0"""
    cont = True
    def __init__(s, lo, hi): s.lo, s.hi = float(lo), float(hi)
    def base(s, r): return math.exp(r.uniform(math.log(s.lo), math.log(s.hi)))
    def inside(s, v): return s.lo <= v <= s.hi
    def interp(s, a, b, t):
        if a <= 0 or b <= 0: return a + (b - a)*t
        return math.exp(math.log(a) + (math.log(b) - math.log(a))*t) if 0 < t < 1 else (a if t <= 0 else b)
    def mutate(s, r, v, sc):
        if v == 0: return s.base(r)
        return s.clamp(v*math.exp(r.gauss(0, sc)*math.log(s.hi/s.lo)))
    def clamp(s, v): return min(max(v, s.lo), s.hi)
    def sample(s, r, consts=()):
        u = r.random()
        if u < 0.14 and consts:
            v = float(r.choice(consts))
            k = r.random()
            if k < 0.3: pass
            elif k < 0.4: v = math.nextafter(v, math.inf)
            elif k < 0.5: v = math.nextafter(v, -math.inf)
            elif k < 0.75: v *= 1 + r.choice((-1, 1))*10**r.uniform(-6, -1)
            else: v *= r.uniform(0.7, 1.4)
            if abs(v) < 1e-290: v = 0.0
            if s.inside(v): return v
        elif u < 0.17: return r.choice((s.lo, s.hi))
        elif u < 0.22:
            v = float("%.2g" % s.base(r))     # round values
            if s.inside(v): return v
        return s.base(r)
class U(L):
    """uniform on [lo, hi]"""
    def base(s, r): return r.uniform(s.lo, s.hi)
    def interp(s, a, b, t): return a + (b - a)*t
    def mutate(s, r, v, sc): return s.clamp(v + r.gauss(0, sc)*(s.hi - s.lo))
class Z(L):
    """0 with probability p0, otherwise log-uniform on [lo, hi]"""
    def __init__(s, hi, lo=None, p0=0.12):
        s.lo, s.hi, s.p0 = 0.0, float(hi), p0
        s.lo1 = float(lo) if lo else hi*1e-6
    def base(s, r):
        if r.random() < s.p0: return 0.0
        return math.exp(r.uniform(math.log(s.lo1), math.log(s.hi)))
    def interp(s, a, b, t): return a + (b - a)*t
    def mutate(s, r, v, sc):
        if v == 0: return s.base(r)
        return s.clamp(v*math.exp(r.gauss(0, sc)*math.log(s.hi/s.lo1)))
class I(Dom):
    def __init__(s, lo, hi): s.lo, s.hi = lo, hi
    def sample(s, r, consts=()): return r.randint(s.lo, s.hi)
    def mutate(s, r, v, sc): return r.randint(s.lo, s.hi)
class C(Dom):
    def __init__(s, *vals): s.vals = vals
    def sample(s, r, consts=()): return r.choice(s.vals)
    def mutate(s, r, v, sc): return r.choice(s.vals)
class K(Dom):
    def __init__(s, v): s.v = v
    def sample(s, r, consts=()): return s.v
    def mutate(s, r, v, sc): return s.v
OMIT = object()
class O(Dom):
    """optional argument: omitted with probability p"""
    def __init__(s, d, p=0.4): s.d, s.p, s.cont = d, p, d.cont
    def sample(s, r, consts=()):
        return OMIT if r.random() < s.p else s.d.sample(r, consts)
    def mutate(s, r, v, sc): return s.d.mutate(r, v, sc)
    def interp(s, a, b, t): return s.d.interp(a, b, t)
    def inside(s, v): return s.d.inside(v)
    @property
    def lo(s): return s.d.lo
    @property
    def hi(s): return s.d.hi
class V(Dom):
    """list of n values"""
    def __init__(s, d, lo, hi): s.d, s.nlo, s.nhi = d, lo, hi
    def sample(s, r, consts=()): return [s.d.sample(r, consts) for _ in range(r.randint(s.nlo, s.nhi))]
    def mutate(s, r, v, sc): return s.sample(r)
class Fn(Dom):
    def __init__(s, f): s.f = f
    def sample(s, r, consts=()): return s.f(r)
    def mutate(s, r, v, sc): return s.f(r)
class Mix(U):
    """uniform on [lo, hi] with special values drawn 30 % of the time"""
    def __init__(s, lo, hi, *special): U.__init__(s, lo, hi); s.special = special
    def base(s, r): return r.choice(s.special) if s.special and r.random() < .3 else r.uniform(s.lo, s.hi)
class MixL(Mix):
    """log-uniform with special values"""
    def base(s, r): return r.choice(s.special) if s.special and r.random() < .3 else math.exp(r.uniform(math.log(s.lo), math.log(s.hi)))
    interp = L.interp
