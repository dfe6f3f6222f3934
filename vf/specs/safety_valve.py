"""P13 relief-valve sizing and flare noise"""
import json, os
from math import *
from ..dom import *
from ..lib import adder
from ..engine import Raises, SKIP, Approx
from ..refs import lin, bilin
T = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "safety_valve.json")))
S = []
s = adder(S, "safety_valve")
BAD = Raises(ValueError)
ATM = 101325.0
P, ED = L(1e3, 3e7), C("10E", "10E", "7E", "11E")
def rnd(A):
    v = [a*.0254**2 for a in T["API526_A_sq_inch"]]
    ok = [a for a in v if a >= A]
    return min(ok) if ok else BAD
def again(a, g):
    if isinstance(g, float):
        import fluids.safety_valve as q
        b = q.API520_round_size(g)
        if b != g: return "the standard size %r is rounded to %r" % (g, b)
s("API520_round_size", rnd, _post=again, A=L(1e-5, .03))
def c(k):
    if k == 1: return .03948*exp(-.5)
    if abs(k - 1) < 1e-6: return SKIP
    return .03948*sqrt(k)*(2/(k + 1))**(.5*(k + 1)/(k - 1))
s("API520_C", c, k=U(.9, 2), _rtol=1e-8)
s("API520_C", c, k=C(1, 1.0, 1.4, 1.1), _rtol=1e-8, _n=.1)
def f2(k, P1, P2):
    r = P2/P1
    if r > 1 - 1e-6 or abs(k - 1) < 1e-4: return SKIP
    return sqrt(k/(k - 1)*r**(2/k)*-expm1(log(r)*(k - 1)/k)/(1 - r))
lo = lambda a: a if a["P1"] > a["P2"] else dict(a, P1=a["P2"], P2=a["P1"])
s("API520_F2", f2, k=U(1.01, 2), P1=P, P2=P, _fix=lo, _rtol=1e-7)
def kn(P1): p = P1/1e3; return 1.0 if p <= 10339 else (.02764*p - 1000)/(.03324*p - 1061)
s("API520_N", kn, P1=L(1e5, 2.9e7), _rtol=1e-8, _n=.5)
def sh(T1, P1, edition="10E"):
    if edition not in ("7E", "10E") or T1 > 649 + 273.15: return BAD
    if edition == "7E":
        if P1 > 20780325: return BAD
        return 1.0 if T1 < 422.15 else bilin(T1, P1, T["_KSH_tempKs_7E"], T["_KSH_Pa_7E"], T["_KSH_factors_7E"])
    if T1 < 478.15: return 1.0
    return BAD if P1 > 22063223.338138755 else bilin(T1, P1, T["_KSH_K_10E"], T["_KSH_Pa_10E"], T["_KSH_factors_10E"])
s("API520_SH", sh, T1=U(350, 950), P1=L(1e5, 2.4e7), edition=O(ED), _n=2)
def gb(Pset, Pback): return (Pback - ATM)/(Pset - ATM)*100
def bk(frac):
    """back pressures as a fraction of the set gauge pressure"""
    def f(a):
        if a["Pset"] <= ATM*1.01: return None
        return a
    return f
def kb(Pset, Pback, overpressure=.1):
    g = gb(Pset, Pback)
    if overpressure not in (.1, .16, .21): return BAD
    lim = {.1: 30, .16: 38, .21: 50}[overpressure]
    if abs(g - lim) < 1e-9 or abs(g - 50) < 1e-9: return SKIP
    if g < lim: return 1.0
    if g > 50: return BAD
    k = "16" if overpressure == .16 else "10"
    return lin(g, T["Kb_%s_over_x" % k], T["Kb_%s_over_y" % k])
def pick(rng, lo, hi):
    Ps = ATM*(1 + 10**rng.uniform(-1, 2)); return Ps, ATM + (Ps - ATM)*rng.uniform(lo, hi)
s("API520_B", kb, Pset=L(1.2e5, 1e7), Pback=L(9e4, 6e6), overpressure=O(C(.1, .16, .21, .16, .25)), _fix=bk(1))
s("API520_B", kb, _gen=lambda r: (lambda p: dict(Pset=p[0], Pback=p[1], overpressure=r.choice((.1, .16, .21))))(pick(r, .25, .53)))
def kw(Pset, Pback):
    g = gb(Pset, Pback)
    if abs(g - 15) < 1e-9: return SKIP
    return 1.0 if g < 15 else lin(g, T["Kw_x"], T["Kw_y"])
s("API520_W", kw, Pset=L(1.2e5, 1e7), Pback=L(9e4, 6e6), _fix=bk(1))
s("API520_W", kw, _gen=lambda r: (lambda p: dict(Pset=p[0], Pback=p[1]))(pick(r, .1, .53)))
def ag(m, T, Z, MW, k, P1, P2=101325, Kd=.975, Kb=1, Kc=1):
    if P2 >= P1*(1 - 1e-9): return SKIP
    rc = (2/(k + 1))**(k/(k - 1)) if k != 1 else exp(-.5)
    if abs(P2/P1/rc - 1) < 1e-9: return SKIP
    if P2/P1 < rc: return m*3600/(c(k)*Kd*Kb*Kc*P1/1e3)*sqrt(T*Z/MW)*1e-6
    return 17.9*m*3600/(f2(k, P1, P2)*Kd*Kc)*sqrt(T*Z/(MW*P1*(P1 - P2)*1e-6))*1e-6
F = U(.3, 1)
s("API520_A_g", ag, m=L(1e-4, 1e3), T=U(200, 1200), Z=U(.3, 1.5), MW=L(2, 500), k=U(1.02, 1.9), P1=P, P2=O(P, .3), Kd=O(F), Kb=O(F), Kc=O(F), _fix=lambda a: a if a["P2"] is OMIT else lo(a), _rtol=1e-7, _n=1.5)
def ast(m, T, P1, Kd=.975, Kb=1, Kc=1, edition="10E"):
    h = sh(T, P1, edition)
    return h if h is BAD else 190.5*m*3600/(P1/1e3*Kd*Kb*Kc*kn(P1)*h)*1e-6
s("API520_A_steam", ast, m=L(1e-4, 1e3), T=U(350, 950), P1=L(1e5, 2.4e7), Kd=O(F), Kb=O(F), Kc=O(F), edition=O(ED), _n=1.5)
def kv(Re, edition="10E"):
    if edition == "7E": return min(1/(.9935 + 2.878/Re**.5 + 342.75/Re**1.5), 1.0)
    return (1 + 170/Re)**-.5 if edition == "10E" else BAD
s("API520_Kv", kv, Re=L(1, 1e8), edition=O(ED))
def al(m, rho, P1, P2, overpressure, Kd=.65, Kc=1.0, Kw=None, Kv=None, edition="10E", mu=None):
    if P1 <= P2*(1 + 1e-9): return SKIP
    if Kw is None:
        w = ATM + (P1 - ATM)/(1 + overpressure)
        Kw = kw(w, P2)
        if Kw is SKIP: return SKIP
    def area(Kv): return 11.78*m/rho*6e4*sqrt(rho/999.0107539518483/((P1 - P2)/1e3))/(Kd*Kw*Kc*Kv)*1e-6
    if Kv is None:
        Kv = 1.0
        if mu is not None:
            A = area(1.0); Kv = kv(m*sqrt(4*A/pi)/A/mu, edition)
            if Kv is BAD: return BAD
    return area(Kv)
s("API520_A_l", al, m=L(1e-3, 1e3), rho=L(300, 3000), P1=L(1.5e5, 3e7), P2=P, overpressure=U(0, .3), Kd=O(F), Kc=O(F), Kw=O(F), Kv=O(F, .7), edition=O(ED), mu=O(L(1e-4, 10)), _fix=lo, _n=2, _rtol=1e-8)
s("API520_A_l", al, _gen=lambda r: (lambda p: dict(m=10**r.uniform(-2, 3), rho=r.uniform(500, 1500), P1=p[0], P2=p[1], overpressure=r.choice((.1, .25, .16)), **({"mu": 10**r.uniform(-4, 1)} if r.random() < .5 else {}), edition=r.choice(("10E", "7E"))))(pick(r, .05, .55)), _rtol=1e-8)
def ng(P_ratio):
    x = log10(max(P_ratio, 1.0))
    a, b = 87.9084*x + 12.7647, 4.8239*x + 51.6217
    t = min(max((P_ratio - 2.92)/.01, 0), 1)
    return a + (b - a)*t
s("API521_noise_graph", ng, P_ratio=L(.5, 100))
s("API521_noise_graph", ng, P_ratio=U(2.9, 2.95), _n=.3)
s("API521_noise", lambda m, P1, P2, c, r: ng(P1/P2) + 10*log10(.5*m*c*c) - 20*log10(r/30), m=L(1e-2, 1e3), P1=P, P2=P, c=U(200, 1000), r=L(1, 1e4), _fix=lo, _atol=1e-9)
KF = lambda a0, b0: [("P13-VDI-3732-units", lambda a, got: abs(got - (a0 + b0*log10(360.*a["m"]))) < 1e-9)]
s("VDI_3732_noise_ground_flare", lambda m: 100 + 15*log10(3.6*m), m=L(1e-2, 1e3), _known=KF(100, 15), _n=.2)
s("VDI_3732_noise_elevated_flare", lambda m: 112 + 17*log10(3.6*m), m=L(1e-2, 1e3), _known=KF(112, 17), _n=.2)
