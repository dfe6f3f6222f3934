"""P04: compressible flow"""
from math import log, exp, sqrt, pi
from ..dom import *
from ..engine import Spec, Raises, SKIP, Approx, Err
import fluids.compressible as fc
R = 8.31446261815324
S = []
def s(name, ref, **d):
    kw = {k[1:]: d.pop(k) for k in list(d) if k.startswith("_")}
    S.append(Spec("compressible." + name, d, ref, **kw))
P, T, k_ = L(1e3, 1e8), L(50, 3000), L(1.01, 1.9)
s("isothermal_work_compression", lambda P1, P2, T, Z=1.0: Z*R*T*log(P2/P1), P1=P, P2=P, T=T, Z=O(L(.1, 2)))
s("isentropic_T_rise_compression", lambda T1, P1, P2, k, eta=1.0: T1*(1 + ((P2/P1)**((k-1)/k) - 1)/eta), T1=T, P1=P, P2=P, k=k_, eta=O(L(.1, 1)), _atol=1e-9)
def W_(T1, k, Z, P1, P2, eta): return k/(k-1)*Z*R*T1*((P2/P1)**((k-1)/k) - 1)/eta
s("polytropic_exponent", lambda k, n=None, eta_p=None: Raises(ValueError) if (n is None) == (eta_p is None) else (k*eta_p/(1-k*(1-eta_p)) if n is None else n*(k-1)/k/(n-1)),
  k=k_, n=O(L(1.01, 3)), eta_p=O(L(.05, 1)))
def iseff(P1, P2, k, eta_s=None, eta_p=None):
    if (eta_s is None) == (eta_p is None): return Raises(ValueError)
    r = (P2/P1)**((k-1)/k)
    if eta_s is None: return (r - 1)/((P2/P1)**((k-1)/k/eta_p) - 1)
    return (k-1)*log(P2/P1)/k/log((eta_s + r - 1)/eta_s)
s("isentropic_efficiency", iseff, P1=P, P2=P, k=k_, eta_s=O(L(.05, 1)), eta_p=O(L(.05, 1)), _rtol=1e-8)
s("T_critical_flow", lambda T, k: 2*T/(k+1), T=T, k=k_)
s("P_critical_flow", lambda P, k: P*(2/(k+1))**(k/(k-1)), P=P, k=k_)
s("is_critical_flow", lambda P1, P2, k: P1*(2/(k+1))**(k/(k-1)) > P2, P1=P, P2=P, k=k_)
s("stagnation_energy", lambda V: V*V/2, V=Z(1e4))
s("P_stagnation", lambda P, T, Tst, k: P*(Tst/T)**(k/(k-1)), P=P, T=L(200, 900), Tst=L(200, 900), k=k_)
s("T_stagnation", lambda T, P, Pst, k: T*(Pst/P)**((k-1)/k), T=T, P=P, Pst=P, k=k_)
s("T_stagnation_ideal", lambda T, V, Cp: T + V*V/2/Cp, T=T, V=Z(2000), Cp=L(100, 2e4))
def crit_ratio(C):
    """r with r^2 (C + 1 - 2 ln r) = 1 : P2/P1 of maximum isothermal flow (dm/dP2 = 0)"""
    lo, hi = -60.0, 0.0      # ln r ; u(C+1-ln u) increasing in u for u < exp(C)
    for _ in range(200):
        m = (lo + hi)/2
        if exp(2*m)*(C + 1 - 2*m) > 1: hi = m
        else: lo = m
    return exp((lo+hi)/2)
s("P_isothermal_critical_flow", lambda P, fd, D, L: P*crit_ratio(fd*L/D), P=P, fd=L(.004, .1), D=L(.01, 2), L=L(.1, 1e4), _rtol=1e-7)

def miso(rho, fd, P1, P2, L, D): return sqrt((pi*D*D/4)**2*rho*(P1*P1-P2*P2)/(P1*(fd*L/D + 2*log(P1/P2))))
iso = dict(rho=L(.1, 300), fd=L(.005, .1), P1=L(2e4, 1e7), L=L(1, 1e4), D=L(.02, 1.5))
# forward, including infeasible outlet pressures
def iso_fwd(rho, fd, P1, f, L, D, up):
    pr = crit_ratio(fd*L/D)
    P2 = P1*f
    if P2 > P1: return Raises(ValueError)
    if f < pr*(1-1e-9): return Raises(ValueError)
    if f < pr*(1+1e-9): return SKIP
    d = 1 - (P2/P1)**2
    return Approx(miso(rho, fd, P1, P2, L, D), 1e-9 + 4e-16/d) if d > 1e-13 else SKIP if d > 0 else 0.0
S.append(Spec("isothermal_gas:m", dict(iso, f=U(0.005, 1.05), up=K(0)), iso_fwd,
    target=lambda rho, fd, P1, f, L, D, up: fc.isothermal_gas(rho, fd, P1=P1, P2=P1*f, L=L, D=D), rtol=1e-9, n=2))
def iso_case(rho, fd, P1, w, L, D, u, k):
    pr = crit_ratio(fd*L/D)
    P2 = P1*(pr + (1-pr)*w)
    return P2, miso(rho, fd, P1, P2, L, D)
def iso_t(rho, fd, P1, w, L, D, u, k):
    P2, m = iso_case(rho, fd, P1, w, L, D, u, k)
    st = dict(P1=P1, P2=P2, L=L, D=D, m=m*k)
    st.pop(u)
    return fc.isothermal_gas(rho, fd, **st)
def iso_post(a, got):
    P2, m = iso_case(**a)
    rho, fd, P1, Ln, D, u, k = (a[x] for x in ("rho", "fd", "P1", "L", "D", "u", "k"))
    m = m*k
    if k > 1:     # a flow above the maximum for the given pressures
        pr = crit_ratio(fd*Ln/D)
        if u == "P2":
            if m > miso(rho, fd, P1, P1*pr, Ln, D)*(1+1e-7) and not isinstance(got, Err): return "flow above the choked maximum accepted: P2=%r" % (got,)
            return None if isinstance(got, Err) else SKIP
        return SKIP
    if isinstance(got, Err): return "feasible state rejected: %r" % got
    if isinstance(got, complex): return "complex result"
    st = dict(P1=P1, P2=P2, L=Ln, D=D); 
    true = dict(st)[u]
    if abs(got/true - 1) < 1e-5: return None      # solver tolerance
    st[u] = got
    if got <= 0: return "non-positive %s = %r" % (u, got)
    if st["P2"] > st["P1"]*(1 + 1e-9): return "P2 > P1 in solution: %r" % got
    if st["P2"] < st["P1"]*crit_ratio(fd*st["L"]/st["D"])*(1 - 1e-6): return "choked solution returned: %s=%r, true %r" % (u, got, true)
    mm = miso(rho, fd, **st)
    if abs(mm/m - 1) > 1e-5: return "%s=%r gives flow %r, wanted %r (true %s %r)" % (u, got, mm, m, u, true)
S.append(Spec("isothermal_gas:solve", dict(iso, w=U(0.002, 0.998), u=C("P1", "P2", "L", "D"), k=C(1.0, 1.0, 1.0, 1.0, 1.2, 3.0)), None, target=iso_t, post=iso_post, n=2))
# very long pipes: the exponentials of the explicit solutions underflow, gradually
def iso_long(r):
    D, fd = .02*75**r.random(), .005*20**r.random()
    a = dict(rho=r.uniform(.1, 300), fd=fd, P1=10**r.uniform(4.3, 7), L=D/fd*r.uniform(60, 1500), D=D, w=r.uniform(.002, .998), u=r.choice(("P1", "P2", "P2", "P2", "L", "D")), k=1.0)
    if a["u"] == "P2" and r.random() < .5:
        for _ in range(60):
            C, w = r.uniform(60, 1500), r.uniform(.002, .998)
            pr = crit_ratio(C); q = pr + (1 - pr)*w
            x = (C - 2*log(q))/(1 - q*q)
            if 738 < x - C < 745: a.update(L=C*D/fd, w=w); break
    return a
S.append(Spec("isothermal_gas:long", {}, None, target=iso_t, gen=iso_long, post=iso_post, n=1))
# under-specified
def under(fname, base, vars_):
    def t(**a):
        miss = a.pop("_m")
        return getattr(fc, fname)(**{k: v for k, v in a.items() if k not in miss})
    from itertools import combinations
    combos = [()] + [c for n in (2, 3) for c in combinations(vars_, n)]
    S.append(Spec(fname + ":underspecified", dict(base, _m=C(*combos)), lambda **a: Raises(ValueError), target=t, n=.3))
under("isothermal_gas", dict(rho=L(.1, 300), fd=L(.005, .1), P1=L(2e5, 1e6), P2=L(1e5, 2e5), L=L(1, 1e2), D=L(.02, 1.5), m=L(.1, 10)), ("P1", "P2", "L", "D", "m"))

def solve_any(fname, fwd, base, out, unknowns, opts={}, vtol=1e-7, rtol_res=1e-7, kmul=(1.0,), bad=None):
    """full state from the reference equation; the function under test recovers each variable"""
    def state(a):
        a = {k: v for k, v in a.items() if k != "u_"}
        return dict(a, **{out: fwd(**a)})
    def t(**a):
        st = state(a); st.pop(a["u_"])
        return getattr(fc, fname)(**st)
    def ref(**a):
        return state(a)[a["u_"]]
    def post(a, got):
        st = state(a); u = a["u_"]
        if st[out] == 0: return SKIP      # no work at equal pressures: the inverse problems are undefined
        if isinstance(got, Err): return "feasible state rejected for unknown %s: %r" % (u, got)
        if isinstance(got, complex): return "complex"
        if abs(got - st[u]) <= vtol*abs(st[u]): return None
        if u == out: return "%s=%r, model %r" % (u, got, st[u])
        b = {k: v for k, v in a.items() if k != "u_"}; b[u] = got
        r = fwd(**b)
        if isinstance(r, complex) or not abs(r - st[out]) <= rtol_res*abs(st[out]): return "%s=%r gives %s=%r, wanted %r (true %r)" % (u, got, out, r, st[out], st[u])
    S.append(Spec(fname + ":solve", dict(base, u_=C(*unknowns), **{k: O(d) for k, d in opts.items()}), None, target=t, post=post, n=1.5))
    under(fname, dict(base, **{out: L(.1, 10)}), tuple(unknowns))
solve_any("isentropic_work_compression", lambda T1, k, P1, P2, eta, Z=1.0: W_(T1, k, Z, P1, P2, eta), dict(T1=T, k=k_, P1=L(1e4, 1e7), P2=L(1e4, 1e7), eta=L(.3, 1)), "W", ("W", "P1", "P2", "eta"), dict(Z=L(.3, 1.5)))
gas = dict(SG=L(.3, 1.5), Tavg=L(250, 400), L=L(100, 1e6), D=L(.03, 2), P1=L(2.1e5, 2e7), f=U(.02, .99))
opts = dict(Ts=L(270, 300), Ps=L(9e4, 1.1e5), Zavg=L(.6, 1.1), E=L(.7, 1))
def pip(fname, fwd, base=None, E=0.92):
    base = dict(base or gas)
    # P2 = f*P1 keeps the state feasible
    def fw(SG, Tavg, L, D, P1, P2, Ts=288.7, Ps=101325.0, Zavg=1.0, E=E, **kw): return fwd(SG=SG, Tavg=Tavg, L=L, D=D, P1=P1, P2=P2, Ts=Ts, Ps=Ps, Z=Zavg, E=E, **kw)
    def state(a):
        b = {k: v for k, v in a.items() if k not in ("u_", "f")}
        b["P2"] = a["P1"]*a["f"]
        return dict(b, Q=fw(**b))
    def t(**a):
        st = state(a); st.pop(a["u_"])
        return getattr(fc, fname)(**st)
    def post(a, got):
        st = state(a); u = a["u_"]
        if isinstance(got, Err): return "feasible state rejected for unknown %s: %r" % (u, got)
        if isinstance(got, complex): return "complex"
        if abs(got - st[u]) <= 1e-8*abs(st[u]): return None
        if u == "Q": return "Q=%r, model %r" % (got, st[u])
        b = {k: v for k, v in st.items() if k != "Q"}; b[u] = got
        if not got > 0: return "%s=%r not positive" % (u, got)
        if b["P1"] < b["P2"]: return "P1<P2"
        r = fw(**b)
        if isinstance(r, complex) or not abs(r - st["Q"]) <= 1e-8*abs(st["Q"]): return "%s=%r gives Q=%r, wanted %r (true %s %r)" % (u, got, r, st["Q"], u, st[u])
    S.append(Spec(fname + ":solve", dict(base, u_=C("Q", "P1", "P2", "L", "D"), **{k: O(d) for k, d in opts.items()}), None, target=t, post=post, n=1.5))
    # a demanded flow with no positive outlet pressure must raise
    def t2(**a):
        st = state(a); st.pop("P2"); st["Q"] *= a.pop("x_", 1); st.pop("x_", None)
        return getattr(fc, fname)(**st)
    def state2(a): return a
    def t3(**a):
        x = a.pop("x_")
        st = state(dict(a, f=1e-6, u_="P2")); st.pop("P2"); st["Q"] *= x
        return getattr(fc, fname)(**st)
    low = fname == "Spitzglass_low"
    if not low:
        S.append(Spec(fname + ":infeasible", dict({k: v for k, v in base.items() if k != "f"}, x_=L(1.01, 10)), lambda **a: Raises(ValueError), target=t3, n=.2))
    b2 = {k: v for k, v in base.items() if k != "f"}
    b2.update(P2=L(1e5, 2e5), Q=L(1, 10))
    under(fname, b2, ("P1", "P2", "L", "D", "Q"))
p2 = lambda P1, P2: P1*P1 - P2*P2
pip("Panhandle_A", lambda SG, Tavg, L, D, P1, P2, Ts, Ps, Z, E: 45965*10**(591/1250)/864*E*(Ts/Ps)**1.0788*(p2(P1, P2)/(L*SG**.8539*Tavg*Z))**.5394*D**2.6182)
pip("Panhandle_B", lambda SG, Tavg, L, D, P1, P2, Ts, Ps, Z, E: 4175*10**(3/25)/36*E*(Ts/Ps)**1.02*(p2(P1, P2)/(L*SG**.961*Tavg*Z))**.51*D**2.53)
pip("Weymouth", lambda SG, Tavg, L, D, P1, P2, Ts, Ps, Z, E: 37435*10**(501/1000)/864*E*Ts/Ps*(p2(P1, P2)/(L*SG*Tavg*Z))**.5*D**2.667)
sp = lambda D: 1 + 0.09144/D + 150/127*D
pip("Spitzglass_high", lambda SG, Tavg, L, D, P1, P2, Ts, Ps, Z, E: 125.1060*E*Ts/Ps*(p2(P1, P2)/(L*SG*Tavg*Z*sp(D)))**.5*D**2.5, E=1.0)
pip("Spitzglass_low", lambda SG, Tavg, L, D, P1, P2, Ts, Ps, Z, E: 125.1060*E*Ts/Ps*(2*(P1-P2)*(Ps+1210)/(L*SG*Tavg*Z*sp(D)))**.5*D**2.5, E=1.0)
pip("Oliphant", lambda SG, Tavg, L, D, P1, P2, Ts, Ps, Z, E: 84.587176139918568651*(D**2.5 + D**3/(30*0.0254**.5))*Ts/Ps*(p2(P1, P2)/(L*SG*Tavg))**.5)
pip("Fritzsche", lambda SG, Tavg, L, D, P1, P2, Ts, Ps, Z, E: 14135*10**(57/125)/432*Ts/Ps*E*(p2(P1, P2)/(L*SG**.8587*Tavg*Z))**.538*D**2.69, E=1.0)
gm = dict(gas, mu=L(5e-6, 5e-5))
pip("Muller", lambda SG, Tavg, L, D, P1, P2, Ts, Ps, Z, E, mu: 15.77439908642077352939746*Ts/Ps*E*(p2(P1, P2)/(L*Z*Tavg))**.575*D**2.725/mu**.15/SG**.425, gm, E=1.0)
pip("IGT", lambda SG, Tavg, L, D, P1, P2, Ts, Ps, Z, E, mu: 24.62412451461407054875302*Ts/Ps*E*(p2(P1, P2)/(L*Z*Tavg))**(5/9)*D**(8/3)/mu**(1/9)/SG**(4/9), gm, E=1.0)
