"""P14 two-phase pressure drop and flow regimes"""
import json, os
from math import *
from ..dom import *
from ..lib import adder
from ..engine import Raises, SKIP, Approx
from ..refs import spl
from .friction import colebrook
T = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "two_phase.json")))
S = []
s = adder(S, "two_phase")
BAD, TE, G = Raises(ValueError), Raises(TypeError), 9.80665
def fd(Re, eD): return 64/Re if Re < 2040 else colebrook(Re, eD)
def grad(m, rho, mu, D, e=0.0, L=1.0, f=fd):
    """single-phase pressure drop"""
    v = m/rho/(pi/4*D*D); Re = rho*v*D/mu
    return f(Re, e/D)*L/D*.5*rho*v*v
def rh(x, rl, rg): return 1/(x/rg + (1 - x)/rl)
def q(a):
    if a["mug"] > a["mul"]: a = dict(a, mug=a["mul"], mul=a["mug"])
    if a.get("roughness", OMIT) is not OMIT and a["roughness"] > .1*a["D"]: a = dict(a, roughness=a["roughness"]*.1*a["D"]/1e-2)
    return a
X, M, DD = U(.001, .999), L(1e-4, 1e3), L(2e-4, 2)
RL, RG, ML, MG, SG = L(300, 2500), L(.05, 250), L(2e-5, 1), L(2e-6, 1e-4), L(1e-3, .1)
EL = dict(roughness=O(Z(1e-2, 1e-7)), L=O(L(.01, 1e4)))
B2 = dict(m=M, x=X, rhol=RL, rhog=RG, mul=ML, mug=MG, D=DD, **EL)
B4 = dict(B2, sigma=SG)
def reg(name, d):
    def w(f): s(name, f, **d, _fix=q if "mug" in d else None, _rtol=1e-6, _n=.7); F[name] = f; return f
    return w
F = {}
def hold(reg, lam, Fr, th, LV):
    a, b, c = {"s": (.98, .4846, .0868), "i": (.845, .5351, .0173), "d": (1.065, .5824, .0609)}[reg]
    H = max(a*lam**b/Fr**c, lam)
    if th == 0 or (th > 0 and reg == "d"): return H
    d, e, f, h = (4.7, -.3692, .1244, -.5056) if th < 0 else {"s": (.011, -3.768, 3.539, -1.614), "i": (2.96, .305, -.4473, .0978)}[reg]
    C = max((1 - lam)*log(d*lam**e*LV**f*Fr**h), 0)
    z = sin(1.8*th)
    return H*(1 + C*(z - z**3/3))
def bb(m, x, rhol, rhog, mul, mug, sigma, P, D, angle, roughness=0.0, L=1.0, g=G, acceleration=True):
    A = pi/4*D*D
    vg, vl = x*m/rhog/A, (1 - x)*m/rhol/A
    v = vg + vl; Fr = v*v/g/D; lam = vl/v
    L1, L2, L3, L4 = 316*lam**.302, .0009252*lam**-2.4684, .1*lam**-1.4516, .5*lam**-6.738
    th = radians(angle or 0)
    LV = vl*(rhol/g/sigma)**.25
    up = L1 if lam < .4 else L4
    if (lam < .01 and Fr < L1) or (lam >= .01 and Fr < L2): r = "s"
    elif lam >= .01 and L2 <= Fr <= L3: r = "t"
    elif lam >= .01 and L3 < Fr <= up and not (lam < .4 and Fr == up): r = "i"
    else: r = "d"
    if r == "t":
        w = (L3 - Fr)/(L3 - L2)
        H = w*hold("s", lam, Fr, th, LV) + (1 - w)*hold("i", lam, Fr, th, LV)
    else: H = hold(r, lam, Fr, th, LV)
    mix = lambda a, b, h: a*h + b*(1 - h)
    rs, rn = mix(rhol, rhog, H), mix(rhol, rhog, lam)
    y = lam/H**2
    if 1 < y < 1.2: S_ = log(2.2*y - 1.2)
    else:
        l = log(y); S_ = l/(-.0523 + 3.182*l - .8725*l*l + .01853*l**4)
    f = fd(rn*D*v/mix(mul, mug, lam), roughness/D)*exp(min(S_, 7))
    dP = g*sin(th)*rs*L + f*L/D*.5*rn*v*v
    return dP/(1 - vg*v*rs/(P if P is not None else 101325.0)) if acceleration else dP
def bok(a):
    a = q(a)
    if a is None: return None
    # documented as primitive: keep the acceleration group clear of its pole
    A = pi/4*a["D"]**2; v = a["m"]/rh(a["x"], a["rhol"], a["rhog"])/A
    if a.get("acceleration", OMIT) is not False and v > 60: a = dict(a, acceleration=False)
    return a
s("Beggs_Brill", bb, **B4, P=O(L(1e5, 2e7), 0), angle=C(0, 0.0, 90, -90, 10, -10, 45., -30., 3., None), acceleration=O(C(True, False), .3), g=O(U(5, 15), .7), _fix=bok, _rtol=1e-6, _n=4,)
@reg("Friedel", B4)
def fr(m, x, rhol, rhog, mul, mug, sigma, D, roughness=0.0, L=1.0):
    A = pi/4*D*D; g = m/A
    lo, go = grad(m, rhol, mul, D, roughness, L), grad(m, rhog, mug, D, roughness, L)
    E = (1 - x)**2 + x*x*go/lo
    H = (rhol/rhog)**.91*(mug/mul)**.19*(1 - mug/mul)**.7
    r = rh(x, rhol, rhog)
    return lo*(E + 3.24*x**.78*(1 - x)**.224*H/((g*g/(G*D*r*r))**.0454*(g*g*D/sigma/r)**.035))
@reg("Gronnerud", B2)
def _(m, x, rhol, rhog, mul, mug, D, roughness=0.0, L=1.0):
    Fl = (m/(pi/4*D*D))**2/(G*D*rhol**2)
    f = 1 if Fl >= 1 else Fl**.3 + .0055*log(1/Fl)**2
    return grad(m, rhol, mul, D, roughness, L)*(1 + f*(x + 4*(x**1.8 - x**10*f**.5))*(rhol/rhog/(mul/mug)**.25 - 1))
def ch(m, x, rhol, rhog, mul, mug, D, roughness=0.0, L=1.0, rough_correction=False, baroczy=False):
    g = m/(pi/4*D*D)
    lo, go = grad(m, rhol, mul, D, roughness, L), grad(m, rhog, mug, D, roughness, L)
    Ga = sqrt(go/lo)
    if Ga <= 9.5: B = 55/sqrt(g) if baroczy or g >= 1900 else 2400/g if g > 500 else 4.8
    elif Ga <= 28: B = 520/sqrt(g)/Ga if baroczy or g <= 600 else 21/Ga
    else: B = 15000/(Ga*Ga*sqrt(g))
    if rough_correction:
        Rl, Rg = g*D/mul, g*D/mug
        if abs(log(Rg/Rl)) < 1e-3: return SKIP
        n = log(fd(Rl, roughness/D)/fd(Rg, roughness/D))/log(Rg/Rl)
        B *= (.5*(1 + (mug/mul)**2 + 10**(-600*roughness/D)))**((.25 - n)/.25)
    else: n = .25
    return lo*(1 + (Ga**2 - 1)*(B*(x*(1 - x))**((2 - n)/2) + x**(2 - n)))
F["Chisholm"] = ch; F["Chisholm rough"] = lambda **k: ch(rough_correction=True, **k); F["Baroczy_Chisholm"] = lambda **k: ch(baroczy=True, **k)
s("Chisholm", lambda **k: ch(**k), **B2, rough_correction=O(C(True, False)), _fix=q, _rtol=1e-6, _n=2)
s("Baroczy_Chisholm", F["Baroczy_Chisholm"], **B2, _fix=q, _rtol=1e-6, _n=1)
@reg("Muller_Steinhagen_Heck", B2)
def _(m, x, rhol, rhog, mul, mug, D, roughness=0.0, L=1.0):
    lo, go = grad(m, rhol, mul, D, roughness, L), grad(m, rhog, mug, D, roughness, L)
    return (lo + 2*(go - lo)*x)*(1 - x)**(1/3) + go*x**3
B5 = dict(m=M, x=U(0, 1), rhol=RL, rhog=RG, sigma=SG, D=DD, L=EL["L"])
@reg("Lombardi_Pedrocchi", B5)
def _(m, x, rhol, rhog, sigma, D, L=1.0): return .83*(m/(pi/4*D*D))**1.4*sigma**.4*L/(D**1.2*rh(x, rhol, rhog)**.866)
@reg("Theissing", dict(B2, x=C(0, 1.0, 0.0, 1, *[.003*k for k in range(1, 333)])))
def _(m, x, rhol, rhog, mul, mug, D, roughness=0.0, L=1.0):
    p = lambda mm, r, u: grad(mm, r, u, D, roughness, L)
    lo, go = p(m, rhol, mul), p(m, rhog, mug)
    if x in (0, 1): return go if x else lo
    l, g_ = p(m*(1 - x), rhol, mul), p(m*x, rhog, mug)
    n1, n2 = log(l/lo)/log(1 - x), log(g_/go)/log(x)
    r = (g_/l)**.1
    n = (n1 + n2*r)/(1 + r)
    e = 3 - 2*(2*sqrt(rhol/rhog)/(1 + rhol/rhog))**(.7/n)
    return (lo**(1/(n*e))*(1 - x)**(1/e) + go**(1/(n*e))*x**(1/e))**(n*e)
def xtt(x, rhol, rhog, mul, mug): return ((1 - x)/x)**.9*(rhog/rhol)**.5*(mul/mug)**.1
@reg("Jung_Radermacher", B2)
def _(m, x, rhol, rhog, mul, mug, D, roughness=0.0, L=1.0): return grad(m, rhol, mul, D, roughness, L)*12.82*xtt(x, rhol, rhog, mul, mug)**-1.47*(1 - x)**1.8
def conf(D, rl, rg, sg): return sqrt(sg/(G*(rl - rg)))/D
@reg("Tran", B4)
def _(m, x, rhol, rhog, mul, mug, sigma, D, roughness=0.0, L=1.0):
    lo, go = grad(m, rhol, mul, D, roughness, L), grad(m, rhog, mug, D, roughness, L)
    return lo*(1 + (4.3*go/lo - 1)*(conf(D, rhol, rhog, sigma)*(x*(1 - x))**.875 + x**1.75))
@reg("Chen_Friedel", B4)
def _(m, x, rhol, rhog, mul, mug, sigma, D, roughness=0.0, L=1.0):
    Bo = G*(rhol - rhog)*D*D/4/sigma
    A = pi/4*D*D
    We = (m/A)**2*D/sigma/rh(x, rhol, rhog)
    Om = .0333*(m*D/A/mul)**.45/((m*x*D/A/mug)**.09*(1 + .4*exp(-Bo))) if Bo < 2.5 else We**.2/(2.5 + .06*Bo)
    return Om*fr(m, x, rhol, rhog, mul, mug, sigma, D, roughness, L)
B0 = dict(m=M, x=X, rhol=RL, mul=ML, P=L(1e4, 1e7), Pc=L(1e6, 3e7), D=DD, **EL)
@reg("Zhang_Webb", B0)
def _(m, x, rhol, mul, P, Pc, D, roughness=0.0, L=1.0):
    p = .5 if P is None or Pc is None else P/Pc
    return grad(m, rhol, mul, D, roughness, L)*((1 - x)**2 + 2.87*x*x/p + 1.68*x**.8*(1 - x)**.25*p**-1.64)
@reg("Bankoff", B2)
def _(m, x, rhol, rhog, mul, mug, D, roughness=0.0, L=1.0):
    r = rhog/rhol
    ga = (.71 + 2.35*r)/(1 + (1 - x)/x*r)
    return grad(m, rhol, mul, D, roughness, L)*(1/(1 - x)*(1 - ga*(1 - r))**(3/7)*(1 + x*(1/r - 1)))**1.75
@reg("Xu_Fang", B4)
def _(m, x, rhol, rhog, mul, mug, sigma, D, roughness=0.0, L=1.0):
    lo, go = grad(m, rhol, mul, D, roughness, L), grad(m, rhog, mug, D, roughness, L)
    g, r = m/(pi/4*D*D), rh(x, rhol, rhog)
    Y = go/lo
    return lo*(Y*x**3 + (1 - x**2.59)**.632*(1 + 2*x**1.17*(Y - 1) + .00775*x**-.475*(g*g/(G*D*r*r))**.535*(g*g*D/sigma/r)**.188))
@reg("Yu_France", B2)
def _(m, x, rhol, rhog, mul, mug, D, roughness=0.0, L=1.0):
    A = pi/4*D*D
    X_ = 18.65*sqrt(rhog/rhol)*(1 - x)/x*(m*x*D/A/mug)**.1/(m*(1 - x)*D/A/mul)**.5
    return grad(m*(1 - x), rhol, mul, D, roughness, L)*X_**-1.9
@reg("Wang_Chiang_Lu", B2)
def _(m, x, rhol, rhog, mul, mug, D, roughness=0.0, L=1.0):
    l, g_ = grad(m*(1 - x), rhol, mul, D, roughness, L), grad(m*x, rhog, mug, D, roughness, L)
    X_ = sqrt(l/g_); g = m/(pi/4*D*D)
    if g >= 200: return g_*(1 + 9.397*X_**.62 + .564*X_**2.45)
    return g_*(1 + 4.566e-6*X_**.128*(g*D/mul)**.938*(rhol/rhog)**-2.15*(mul/mug)**5.1*X_ + X_**2)
def mart(l, g_, C): X_ = sqrt(l/g_); return l*(1 + C/X_ + 1/X_**2)
@reg("Hwang_Kim", B4)
def _(m, x, rhol, rhog, mul, mug, sigma, D, roughness=0.0, L=1.0):
    l, g_ = grad(m*(1 - x), rhol, mul, D, roughness, L), grad(m*x, rhog, mug, D, roughness, L)
    return mart(l, g_, .227*(m*D/(pi/4*D*D)/mul)**.452*sqrt(l/g_)**-.32*conf(D, rhol, rhog, sigma)**-.82)
def zhm(m, x, rhol, rhog, mul, mug, sigma, D, roughness=0.0, L=1.0, flowtype="adiabatic vapor"):
    k = {"adiabatic vapor": .142, "adiabatic gas": .674, "flow boiling": .358}.get(flowtype)
    if k is None: return BAD
    l, g_ = grad(m*(1 - x), rhol, mul, D, roughness, L), grad(m*x, rhog, mug, D, roughness, L)
    return mart(l, g_, -21*expm1(-k/conf(D, rhol, rhog, sigma)))
F["Zhang_Hibiki_Mishima"] = zhm
F["Zhang_Hibiki_Mishima adiabatic gas"] = lambda **k: zhm(flowtype="adiabatic gas", **k); F["Zhang_Hibiki_Mishima flow boiling"] = lambda **k: zhm(flowtype="flow boiling", **k)
s("Zhang_Hibiki_Mishima", zhm, **B4, flowtype=O(C("adiabatic vapor", "adiabatic gas", "flow boiling", "other")), _fix=q, _rtol=1e-6)
@reg("Mishima_Hibiki", B4)
def _(m, x, rhol, rhog, mul, mug, sigma, D, roughness=0.0, L=1.0):
    l, g_ = grad(m*(1 - x), rhol, mul, D, roughness, L), grad(m*x, rhog, mug, D, roughness, L)
    return mart(l, g_, -21*expm1(-319*D))
def fkm(Re, e=0): return 64/Re if Re < 2000 else .316*Re**-.25 if Re < 20000 else .184*Re**-.2
s("friction_factor_Kim_Mudawar", fkm, Re=L(1, 1e7), _n=.3)
@reg("Kim_Mudawar", dict({k: v for k, v in B4.items() if k != "roughness"}))
def _(m, x, rhol, rhog, mul, mug, sigma, D, L=1.0):
    l, g_ = grad(m*(1 - x), rhol, mul, D, 0, L, fkm), grad(m*x, rhog, mug, D, 0, L, fkm)
    A = pi/4*D*D
    lo, Su, r = m*D/A/mul, rhog*sigma*D/mug**2, rhol/rhog
    lt, gt = m*(1 - x)*D/A/mul >= 2000, m*x*D/A/mug >= 2000
    C_ = {(0, 0): 3.5e-5*lo**.44*Su**.5*r**.48, (0, 1): .0015*lo**.59*Su**.19*r**.36, (1, 0): 8.7e-4*lo**.17*Su**.5*r**.14, (1, 1): .39*lo**.03*Su**.1*r**.35}[lt, gt]
    return mart(l, g_, C_)
@reg("Lockhart_Martinelli", dict({k: v for k, v in B2.items() if k != "roughness"}, Re_c=O(C(2000.0, 1000.0, 1500), .6), x=U(0, 1)))
def _(m, x, rhol, rhog, mul, mug, D, L=1.0, Re_c=2000.0):
    f = lambda Re, e: 64/Re if Re < Re_c else .184*Re**-.2
    A = pi/4*D*D
    if x == 1: return grad(m, rhog, mug, D, 0, L, f)
    if x == 0: return grad(m, rhol, mul, D, 0, L, f)
    if x > 1 - 1e-9: return SKIP
    l, g_ = grad(m*(1 - x), rhol, mul, D, 0, L, f), grad(m*x, rhog, mug, D, 0, L, f)
    lt, gt = m*(1 - x)*D/A/mul >= Re_c, m*x*D/A/mug >= Re_c
    return mart(l, g_, {(0, 0): 5, (0, 1): 12, (1, 0): 10, (1, 1): 20}[lt, gt])
F["Beggs-Brill"] = None
NEED = {"Zhang_Webb": ("mul", "P", "Pc"), "Lombardi_Pedrocchi": ("rhog", "sigma")}
for k in ("Lockhart_Martinelli", "Bankoff", "Baroczy_Chisholm", "Chisholm", "Gronnerud", "Jung_Radermacher", "Muller_Steinhagen_Heck", "Theissing", "Wang_Chiang_Lu", "Yu_France", "Chisholm rough"): NEED[k] = ("rhog", "mul", "mug")
for k in ("Kim_Mudawar", "Friedel", "Hwang_Kim", "Mishima_Hibiki", "Tran", "Xu_Fang", "Zhang_Hibiki_Mishima", "Chen_Friedel", "Zhang_Hibiki_Mishima adiabatic gas", "Zhang_Hibiki_Mishima flow boiling"): NEED[k] = ("rhog", "mul", "mug", "sigma")
NEED["Beggs-Brill"] = ("rhog", "mul", "mug", "sigma", "P", "angle")
def tp(m, x, rhol, D, L=1.0, rhog=None, mul=None, mug=None, sigma=None, P=None, Pc=None, roughness=0.0, angle=None, Method=None):
    have = dict(rhog=rhog, mul=mul, mug=mug, sigma=sigma, P=P, Pc=Pc, angle=angle)
    have = {k: v for k, v in have.items() if v is not None}
    if Method is None:
        for k in ("Kim_Mudawar", "Chisholm", "Zhang_Webb", "Lombardi_Pedrocchi"):
            if all(j in have for j in NEED[k]): Method = k; break
        else: return BAD
    if Method not in NEED: return BAD
    if any(k not in have for k in NEED[Method]): return TE
    a = dict(m=m, x=x, rhol=rhol, D=D, L=L, **{k: have[k] for k in NEED[Method]})
    if Method not in ("Kim_Mudawar", "Lockhart_Martinelli", "Lombardi_Pedrocchi"): a["roughness"] = roughness
    if Method == "Beggs-Brill": return bb(acceleration=False, **a)
    return F[Method](**a)
def qq(a):
    if a["mug"] is not OMIT and a["mul"] is not OMIT and a["mug"] > a["mul"]: a = dict(a, mug=a["mul"], mul=a["mug"])
    if a["roughness"] is not OMIT: a = dict(a, roughness=min(a["roughness"], .09*a["D"]))
    return a
s("two_phase_dP", tp, m=M, x=X, rhol=RL, D=DD, L=EL["L"], rhog=O(RG, .04), mul=O(ML, .04), mug=O(MG, .04), sigma=O(SG, .1), P=O(L(1e4, 1e7), .1), Pc=O(L(1e6, 3e7), .1), angle=O(C(0, 10, -45., 90), .2), roughness=EL["roughness"], Method=O(C(*NEED, "no such"), .1), _fix=qq, _rtol=1e-6, _n=5)
s("two_phase_dP", tp, m=M, x=X, rhol=RL, D=DD, rhog=O(RG, .3), mul=O(ML, .3), mug=O(MG, .3), sigma=O(SG, .5), P=O(L(1e4, 1e7), .2), Pc=O(L(1e6, 3e7), .2), roughness=EL["roughness"], _fix=qq, _rtol=1e-6, _n=1)
# acceleration and gravity
A1 = U(.01, .99)
def acc(m, D, xi, xo, alpha_i, alpha_o, rho_li, rho_gi, rho_lo=None, rho_go=None):
    t = lambda x, al, rl, rg: (1 - x)**2/rl/(1 - al) + x*x/rg/al
    i, o = t(xi, alpha_i, rho_li, rho_gi), t(xo, alpha_o, rho_li if rho_lo is None else rho_lo, rho_gi if rho_go is None else rho_go)
    g = (m/(pi/4*D*D))**2
    return Approx(g*(o - i), 1e-9, g*max(i, o)*1e-12)
s("two_phase_dP_acceleration", acc, m=M, D=DD, xi=U(0, 1), xo=U(0, 1), alpha_i=A1, alpha_o=A1, rho_li=RL, rho_gi=RG, rho_lo=O(RL), rho_go=O(RG))
def accz(m, D, x, rhol, rhog, dv_dP_l, dv_dP_g, dx_dP, dP_dL, dA_dL):
    A = pi/4*D*D; g = (m/A)**2
    ts = ((1/rhog - 1/rhol)*dP_dL*dx_dP, dP_dL*x*dv_dP_g, dP_dL*(1 - x)*dv_dP_l, -dA_dL/(rh(x, rhol, rhog)*A))
    return Approx(-g*sum(ts), 1e-9, g*max(map(abs, ts))*1e-12)
s("two_phase_dP_dz_acceleration", accz, m=M, D=DD, x=U(0, 1), rhol=RL, rhog=RG, dv_dP_l=L(1e-13, 1e-9), dv_dP_g=U(-1e-4, 0), dx_dP=U(-1e-5, 1e-6), dP_dL=U(-1e5, 1e3), dA_dL=U(-.01, .01))
AN = U(-90, 90)
def gr(angle, z, alpha_i, rho_li, rho_gi, alpha_o=None, rho_lo=None, rho_go=None, g=G):
    m = lambda a, l, v: a*v + (1 - a)*l
    o = m(alpha_i if alpha_o is None else alpha_o, rho_li if rho_lo is None else rho_lo, rho_gi if rho_go is None else rho_go)
    return g*z*sin(radians(angle))*(m(alpha_i, rho_li, rho_gi) + o)/2
s("two_phase_dP_gravitational", gr, angle=AN, z=U(-100, 100), alpha_i=U(0, 1), rho_li=RL, rho_gi=RG, alpha_o=O(U(0, 1)), rho_lo=O(RL), rho_go=O(RG), g=O(U(1, 20)))
s("two_phase_dP_dz_gravitational", lambda angle, alpha, rhol, rhog, g=G: g*sin(radians(angle))*(alpha*rhog + (1 - alpha)*rhol), angle=AN, alpha=U(0, 1), rhol=RL, rhog=RG, g=O(U(1, 20)))
def near(a, b): return abs(a/b - 1) < 1e-9
def td(m, x, rhol, rhog, mul, mug, D, angle, roughness=0.0, g=G):
    c = cos(radians(angle))
    if c < 1e-6: return SKIP
    A = pi/4*D*D
    l, g_ = grad(m*(1 - x), rhol, mul, D, roughness), grad(m*x, rhog, mug, D, roughness)
    vl, vg = m*(1 - x)/rhol/A, m*x/rhog/A
    X_ = sqrt(l/g_); dr = (rhol - rhog)*g*c
    T_, F_ = sqrt(l/dr), sqrt(rhog/dr/D)*vg
    K_ = F_*sqrt(D*vl*rhol/mul)
    cv = lambda k: 10**spl(log10(X_), T["X" + k])
    A_ = cv("A")
    if F_ >= A_: r = "annular" if X_ <= 1.7917 else "bubbly" if T_ >= cv("D") else "intermittent"
    else: r = "stratified wavy" if K_ >= cv("C") else "stratified smooth"
    tests = ((F_, A_),) + (((X_, 1.7917),) if F_ >= A_ else ((K_, cv("C")),)) + (((T_, cv("D")),) if F_ >= A_ and X_ > 1.7917 else ())
    if any(b == 0 or abs(a/b - 1) < 1e-5 for a, b in tests): return SKIP
    return (r, X_, T_, F_, K_)
s("Taitel_Dukler_regime", td, **{k: v for k, v in B2.items() if k != "L"}, angle=O(U(-85, 85), 0), g=O(U(1, 20), .7), _fix=q, _rtol=1e-6, _n=2)
def mg(m, x, rhol, rhog, mul, mug, sigma, D):
    A = pi/4*D*D
    L_, V_ = m*(1 - x)/rhol/A/.3048, m*x/rhog/A/.3048
    pf = (rhol*.0724/(999.552*sigma))**.25
    X1, Y1 = (rhog/1.294292)**.333*pf*(mug/1.8e-5)**.2, pf*(mul/1e-3)**.2
    def seg(v, rows):
        for hi, c, r, e in rows:
            if v <= hi: return c*(v/r)**e
    a = X1*seg(L_, ((.1, 14, .1, -.368), (.2, 14, .1, -.415), (1.15, 10.5, .2, -.816), (4.8, 2.5, 1, 0), (inf, 2.5, 4.8, .248)))
    b = X1*seg(L_, ((.1, 70, .01, -.0675), (.3, 60, .1, -.415), (.56, 38, .3, .0813), (1, 40, .56, .385), (2.5, 50, 1, .756), (inf, 100, 2.5, .463)))
    if any(near(u, v) for u, v in ((L_, 14*Y1), (V_, a), (V_, b), (L_, .5/Y1), (L_, .3*Y1), (V_, 230*(L_/14)**.206*X1), (L_, .1), (L_, .2), (L_, .3), (L_, 1.15))): return SKIP
    if L_ >= 14*Y1: r = "dispersed bubble" if V_ <= 230*(L_/14)**.206*X1 else "annular mist"
    elif V_ <= a: r = "elongated bubble" if L_ >= .5/Y1 else "stratified"
    elif V_ <= b: r = "slug" if L_ > .3*Y1 else "wave"
    else: r = "annular mist"
    return (r, L_, V_)
s("Mandhane_Gregory_Aziz_regime", mg, **{k: v for k, v in B4.items() if k not in ("L", "roughness")}, _fix=q, _rtol=1e-9, _n=3)
def mgfix(a):
    """close to the map's own curves: superficial velocities recomputed from the drawn flow and quality"""
    a = q(a); f = lambda v, k: math.modf(abs(math.log(v))*k)[0]
    pf = (a["rhol"]*.0724/(999.552*a["sigma"]))**.25; X1 = (a["rhog"]/1.294292)**.333*pf*(a["mug"]/1.8e-5)**.2
    l = 10**(-2 + 3.4*f(a["m"], 971.)); sel = f(a["D"], 1713.); w = 1 + 10**(-7*f(a["rhol"], 1231.))*(-.9 if f(a["rhog"], 777.) < .5 else 1)
    rows1 = ((.1, 14, .1, -.368), (.2, 14, .1, -.415), (1.15, 10.5, .2, -.816), (4.8, 2.5, 1, 0), (inf, 2.5, 4.8, .248))
    rows2 = ((.1, 70, .01, -.0675), (.3, 60, .1, -.415), (.56, 38, .3, .0813), (1, 40, .56, .385), (2.5, 50, 1, .756), (inf, 100, 2.5, .463))
    if sel < .1: v = 230*(l/14)**.206*X1
    else:
        for hi, c, r, e in rows1 if sel < .5 else rows2:
            if l <= hi: v = X1*c*(l/r)**e; break
    v *= w; A = pi/4*a["D"]**2*.3048; ml, mg_ = l*a["rhol"]*A, v*a["rhog"]*A
    return dict(a, m=ml + mg_, x=mg_/(ml + mg_))
s("Mandhane_Gregory_Aziz_regime", mg, **{k: v for k, v in B4.items() if k not in ("L", "roughness")}, _fix=mgfix, _rtol=1e-9, _n=3)
