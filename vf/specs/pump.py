"""P18 pumps, motors, drives and the electricity tables"""
import json, os
from math import *
from ..dom import *
from ..lib import adder
from ..engine import Raises, SKIP, Approx, OneOf
from ..refs import lin, bilin
S = []
s = adder(S, "pump")
T = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "pump.json")))
BAD, HP = Raises(ValueError), 745.6998715822701
def r4(v): return OneOf(*{round(v + d, 4) for d in (-1e-9, 0, 1e-9)})
s("Corripio_pump_efficiency", lambda Q: Approx(-.316 + (.24015 - .01199*log(Q*15850.323))*log(Q*15850.323), 1e-9, 1e-12), Q=L(1e-5, 10))
s("Corripio_motor_efficiency", lambda P: Approx(.8 + (.0319 - .00182*log(P/745.69987))*log(P/745.69987), 1e-9, 1e-12), P=L(50, 1e7))
s("VFD_efficiency", lambda P, load=1: r4(bilin(load, P/HP, T["VFD_efficiency_loads"], T["VFD_efficiency_powers"], T["VFD_efficiencies"])), P=L(100, 1e6), load=O(U(0, 1.2), .15), _n=3)
s("VFD_efficiency", lambda P, load=1: r4(bilin(load, P/HP, T["VFD_efficiency_loads"], T["VFD_efficiency_powers"], T["VFD_efficiencies"])), P=C(*[p*HP for p in T["VFD_efficiency_powers"]]), load=C(*T["VFD_efficiency_loads"], .0, 1.1), _n=.3)
NE = [p*HP for p in T["nema_sizes_hp"]]
def size(P):
    if P and any(abs(v/P - 1) < 1e-14 and v != P for v in NE): return SKIP
    c = [v for v in NE if v >= P]
    return min(c) if c else BAD
s("motor_round_size", size, P=L(1, 1e6), _n=2, _rtol=1e-14)
s("motor_round_size", size, P=Fn(lambda r: max(0.0, r.choice(NE)*(1 + r.choice((0, 0, 1e-12, -1e-12, 1e-6, -1e-6))))), _n=.5, _rtol=1e-14, _sites=False)
def csa(P, closed=False, poles=2, high_efficiency=False):
    k = "nema_%s_full_%s_%dp" % ("high" if high_efficiency else "min", "closed" if closed else "open", poles)
    if k not in T: return Raises(Exception)
    return r4(lin(P/HP, T["nema_high_P" if high_efficiency else "nema_min_P"], T[k]))
BO = O(C(True, False), .2)
s("CSA_motor_efficiency", csa, P=L(200, 1e6), closed=BO, poles=O(C(2, 4, 6, 8), .1), high_efficiency=BO, _n=4)
s("CSA_motor_efficiency", csa, P=C(*[p*HP for p in T["nema_min_P"]]), closed=BO, poles=O(C(2, 4, 6, 8), .1), high_efficiency=BO, _n=1)
def und(P, load=.5):
    p = P/HP
    if any(abs(p/b - 1) < 1e-12 for b in (1, 5, 10, 25, 60)) and p not in (1, 5, 10, 25, 60): return SKIP
    i = sum(p > b for b in (1, 5, 10, 25, 60))
    if load == T["_efficiency_ones"][i]: return SKIP
    if load > T["_efficiency_ones"][i]: return 1
    return Approx(sum(c*load**k for k, c in enumerate(T["_efficiency_lists"][i])), 1e-10, 1e-12)
def upost(a, got): return None if type(got).__name__ == "Err" or 0 < got <= 1 + 1e-9 else "efficiency %r outside (0, 1]" % (got,)
s("motor_efficiency_underloaded", und, P=L(100, 1e6), load=O(U(0, 1.1), .1), _post=upost, _n=3)
s("motor_efficiency_underloaded", und, P=C(*[b*HP*f for b in (1, 5, 10, 25, 60) for f in (1, 1, 1 - 1e-9, 1 + 1e-9)]), load=O(U(0, 1.1), .1), _post=upost, _n=.3, _hull=False)
s("specific_speed", lambda Q, H, n=3600.: n*Q**.5/H**.75, Q=L(1e-4, 20), H=L(.1, 2000), n=O(L(100, 1e5)))
s("specific_diameter", lambda Q, H, D: D*H**.25/Q**.5, Q=L(1e-4, 20), H=L(.1, 2000), D=L(.01, 5))
s("speed_synchronous", lambda f, poles=2: 120*f/poles, f=L(1, 1000), poles=O(C(2, 4, 6, 8, 10, 12, 24)))
s("current_ideal", lambda P, V, phase=3, PF=1: BAD if phase not in (1, 3) else P/V/PF/(sqrt(3) if phase == 3 else 1), P=L(1, 1e7), V=L(12, 2e4), phase=O(C(1, 3, 1, 3, 2, 0)), PF=O(U(.1, 1)), _n=2)
def table(n):
    import fluids.pump as p
    v = getattr(p, n)
    if n in ("residential_power", "industrial_power"):
        v = {k: [x.country, x.voltage, x.freq, x.plugs] for k, x in v.items()}
        assert all("CountryPower(" in repr(x) for x in getattr(p, n).values())
    return json.loads(json.dumps(v))
s("tables", lambda n: T[n], n=C(*sorted(k for k in T if k != "VFD_efficiencies")), _target=table, _rtol=1e-15, _n=.05, _sites=False)
