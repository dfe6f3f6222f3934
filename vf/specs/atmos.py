"""P25 standard atmosphere and air mass, from the 1976 document's definitions"""
from math import *
from ..dom import *
from ..lib import adder
from ..engine import Raises, SKIP, Approx, Err, Spec
from ..refs import *
S = []
s = adder(S, "atmosphere.ATMOSPHERE_1976")
R, M0, g0, r0 = 8314.32, 28.9644, 9.80665, 6356766.0
HB = [0, 11e3, 20e3, 32e3, 47e3, 51e3, 71e3]
LB = [-6.5e-3, 0, 1e-3, 2.8e-3, 0, -2.8e-3, -2e-3]
def ladder():
    T, P, out = 288.15, 101325.0, []
    for i, h in enumerate(HB):
        out.append((h, T, P, LB[i]))
        top = HB[i+1] if i < 6 else 84852.0
        T2 = T + LB[i]*(top - h)
        P = P*exp(-g0*M0*(top - h)/(R*T)) if LB[i] == 0 else P*(T/T2)**(g0*M0/(R*LB[i]))
        T = T2
    out.append((84852.0, T, P, 0.0))
    return out
LAD = ladder()
def std(Z):
    """T, P of the standard atmosphere at geometric height Z"""
    H = r0*Z/(r0 + Z)
    h, T, P, l = LAD[0]
    for e in LAD:
        if H >= e[0]: h, T, P, l = e
    T2 = T + l*(H - h)
    return T2, (P*exp(-g0*M0*(H - h)/(R*T)) if l == 0 else P*(T/T2)**(g0*M0/(R*l)))
def k_air(T): return 2.64638e-3*T**1.5/(T + 245.4*10**(-12./T))
def mu_air(T): return 1.458e-6*T**1.5/(T + 110.4)
def rho_air(T, P): return P*M0/(T*R)
def c_air(T): return sqrt(1.4*R*T/M0)
def grav(Z): return g0*(r0/(r0 + Z))**2
ZB = [r0*h/(r0 - h) for h in HB + [84852.0]]
ZD = Mix(-610, 86000, 0.0, -2000.0, 86000.0, 90000.0, 1e5, *ZB, *[z - 1e-3 for z in ZB], *[z + 1e-3 for z in ZB])
def atm(**kw):
    import fluids.atmosphere as a
    o = a.ATMOSPHERE_1976(**kw)
    return {k: getattr(o, k) for k in ("Z", "dT", "H", "T", "P", "rho", "v_sonic", "mu", "k", "g")}
def r_atm(Z, dT=0.0):
    T, P = std(Z); T += dT
    A = lambda v: Approx(v, 2e-9, 1e-12)     # the layer pressures are tabulated to ~1e-12, the layer temperature at 84.852 km to 6 figures
    if Z > 85000: A = lambda v: Approx(v, 1e-7)
    return dict(Z=Z, dT=dT, H=Approx(r0*Z/(r0 + Z), 1e-12), T=A(T), P=A(P), rho=A(rho_air(T, P)), v_sonic=A(c_air(T)), mu=A(mu_air(T)), k=A(k_air(T)), g=A(grav(Z)))
S.append(Spec("atmosphere.ATMOSPHERE_1976", dict(Z=ZD, dT=O(Mix(-40, 60, 0.0))), r_atm, target=atm, n=4))
TD = L(20, 3000); PD = L(1e-3, 1e7)
s("thermal_conductivity", lambda T: k_air(T), T=TD, _n=.3)
s("viscosity", lambda T: mu_air(T), T=TD, _n=.3)
s("density", lambda T, P: rho_air(T, P), T=TD, P=PD, _n=.3, _rtol=1e-8)
s("sonic_velocity", lambda T: c_air(T), T=TD, _n=.3, _rtol=1e-8)
s("gravity", lambda Z: grav(Z), Z=Mix(-610, 1e6, 0.0), _n=.3)
# structure: hydrostatic balance, continuity and monotonic pressure, on whatever the object reports
def probe(Z, d):
    import fluids.atmosphere as a
    lo, mid, hi = (a.ATMOSPHERE_1976(Z - d), a.ATMOSPHERE_1976(Z), a.ATMOSPHERE_1976(Z + d))
    return dict(dP=hi.P - lo.P, T=(lo.T, mid.T, hi.T), P=(lo.P, mid.P, hi.P), rho=mid.rho, g=mid.g)
def p_probe(a, g):
    if isinstance(g, Err): return "raised %s" % g
    if not g["P"][0] > g["P"][1] > g["P"][2]: return "pressure does not fall with height: %r" % (g["P"],)
    w = -g["rho"]*g["g"]*2*a["d"]
    kink = 0 if all(abs(a["Z"] - z) > 2*a["d"] for z in ZB) else 1
    if abs(g["dP"]/w - 1) > (2e-4 if kink else 1e-5): return "dP/dZ %r is not -rho*g %r" % (g["dP"], w)
    if max(abs(g["T"][0] - g["T"][1]), abs(g["T"][2] - g["T"][1])) > 7e-3*a["d"] + 1e-6: return "temperature jumps %r" % (g["T"],)
S.append(Spec("atmosphere.hydrostatic", dict(Z=Mix(-600, 86000, *ZB), d=L(5, 15)), None, target=probe, post=p_probe, n=2))
# integrals
def gl(f, a, b, n=20):
    X = GL[n]
    return (b - a)/2*sum(w*f((a + b)/2 + (b - a)/2*x) for x, w in X)
def gauss(n):
    out = []
    for i in range(n):
        x = cos(pi*(i + .75)/(n + .5))
        for _ in range(100):
            p0, p1 = 1.0, x
            for k in range(2, n + 1): p0, p1 = p1, ((2*k - 1)*x*p1 - (k - 1)*p0)/k
            dp = n*(x*p1 - p0)/(x*x - 1)
            dx = p1/dp; x -= dx
            if abs(dx) < 1e-15: break
        out.append((x, 2/((1 - x*x)*dp*dp)))
    return out
GL = {20: gauss(20)}
def integ(f, a, b, cuts, step=4000.0):
    if a == b: return 0.0
    if b < a: return -integ(f, b, a, cuts, step)
    pts = sorted({a, b, *[c for c in cuts if a < c < b]})
    t = 0.0
    for u, v in zip(pts, pts[1:]):
        n = max(1, ceil((v - u)/step))
        for i in range(n): t += gl(f, u + (v - u)*i/n, u + (v - u)*(i + 1)/n)
    return t
def zofP(P):
    lo, hi = -610.0, 86000.0
    for _ in range(200):
        m = .5*(lo + hi)
        if std(m)[1] > P: lo = m
        else: hi = m
    return .5*(lo + hi)
def r_pi(T1, P1, dH):
    if not std(86000.0)[1] < P1 < std(-610.0)[1]: return SKIP
    z = zofP(P1)
    if not 0 <= z + dH <= 86000: return SKIP
    dT = T1 - std(z)[0]
    f = lambda q: grav(q)*rho_air(std(q)[0] + dT, std(q)[1])
    return Approx(integ(f, z, z + dH, ZB), 2e-5, 3e-7)
s("pressure_integral", r_pi, T1=U(200, 330), P1=Mix(2e3, 1.08e5, 101325.0), dH=Mix(-1500, 6000, 10.0, 100.0), _n=.5)
def models():
    import fluids.atmosphere as a
    return dict(std=lambda Z: a.ATMOSPHERE_1976(Z).rho, exp=lambda Z: 1.225*exp(-Z/8434.5), thin=lambda Z: .02*exp(-Z/11100.), lin=lambda Z: max(0.0, 1.2*(1 - Z/5e4)))
RHO = dict(std=lambda Z: rho_air(*std(Z)), exp=lambda Z: 1.225*exp(-Z/8434.5), thin=lambda Z: .02*exp(-Z/11100.), lin=lambda Z: max(0.0, 1.2*(1 - Z/5e4)))
def am(func, **kw):
    import fluids.atmosphere as a
    return a.airmass(models()[func], **kw)
def r_am(func, angle, H_max=86400.0, R_planet=6.371229e6, RI=1.000276):
    f = RHO[func]; d = RI - 1
    def q(Z): return f(Z)/sqrt(1 - (1 + 2*d*(1 - f(Z)/f(0.0)))*(cos(radians(angle))/(1 + Z/R_planet))**2)
    # the integrand has a weak layer near the ground at low angles: substitute Z = t*t
    r = 2*integ(lambda t: t*q(t*t), 0.0, sqrt(H_max), [sqrt(z) for z in ZB if z > 0] + [sqrt(5e4)], 12.0)
    return Approx(r, 1e-5 if angle > 3 else 3e-4)
S.append(Spec("atmosphere.airmass", dict(func=C("std", "exp", "thin", "lin"), angle=Mix(1, 90, 90.0), H_max=O(U(2e4, 86400)), R_planet=O(L(3e6, 1e7)), RI=O(Mix(1.0, 1.0005, 1.0))), r_am, target=am, n=.1))
