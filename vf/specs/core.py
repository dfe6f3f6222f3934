"""P03: dimensionless groups and conversions (fluids.core)"""
from math import sqrt, sin, radians
from ..dom import *
from ..engine import Spec, Raises, OneOf, SKIP
G = 9.80665
R = 8.31446261815324
W = L(1e-7, 1e7)
P_ = L(1e-4, 1e4)
S = []
def s(name, ref, **d):
    kw = {k[1:]: d.pop(k) for k in list(d) if k.startswith("_")}
    S.append(Spec("core." + name, d, ref, **kw))
def w(*names): return {n: W for n in names}
s("thermal_diffusivity", lambda k, rho, Cp: k/rho/Cp, **w("k", "rho", "Cp"))
s("alpha", lambda k, rho, Cp: k/rho/Cp, **w("k", "rho", "Cp"))
s("c_ideal_gas", lambda T, k, MW: (k*R/(MW*1e-3)*T)**0.5, T=W, k=L(0.5, 3), MW=W)
def alt(make, *, nu=None, alpha=None):
    return make
def sets(**opts): return opts
def choose(a, *cands):
    """cands: (needed names, value fn); returns the defining value, or ValueError if no set is complete"""
    vals = [f() for need, f in cands if all(a.get(n) is not None for n in need)]
    if not vals: return Raises(ValueError)
    return OneOf(*vals) if len(vals) > 1 else vals[0]
OW = O(W)
OZ = O(Z(1e7, 1e-7, 0.06))   # zero is a value, not an omission
s("Reynolds", lambda **a: choose(a, (("rho", "mu"), lambda: a["rho"]*a["V"]*a["D"]/a["mu"]), (("nu",), lambda: a["D"]*a["V"]/a["nu"])), V=W, D=W, rho=OW, mu=OZ, nu=OZ)
def heat(num): # num: function of a
    return lambda **a: choose(a, (("rho", "Cp", "k"), lambda: num(a, a["k"]/(a["rho"]*a["Cp"]))), (("alpha",), lambda: num(a, a["alpha"])))
h4 = dict(rho=OW, Cp=OW, k=OZ, alpha=OZ)
s("Peclet_heat", heat(lambda a, al: a["V"]*a["L"]/al), V=W, L=W, **h4)
s("Fourier_heat", heat(lambda a, al: al*a["t"]/a["L"]**2), t=W, L=W, **h4)
s("Graetz_heat", heat(lambda a, al: a["V"]*a["D"]**2/al/a["x"]), V=W, D=W, x=W, **h4)
s("Lewis", heat(lambda a, al: al/a["D"]), D=W, **h4)
s("Peclet_mass", lambda V, L, D: L*V/D, **w("V", "L", "D"))
s("Fourier_mass", lambda t, L, D: D*t/L**2, **w("t", "L", "D"))
s("Schmidt", lambda **a: choose(a, (("mu", "rho"), lambda: a["mu"]/a["rho"]/a["D"]), (("nu",), lambda: a["nu"]/a["D"])), D=W, mu=OZ, nu=OZ, rho=OW)
s("Prandtl", lambda **a: choose(a, (("Cp", "mu", "k"), lambda: a["Cp"]*a["mu"]/a["k"]), (("nu", "rho", "Cp", "k"), lambda: a["Cp"]*a["rho"]*a["nu"]/a["k"]),
    (("nu", "alpha"), lambda: a["nu"]/a["alpha"])), Cp=OW, k=OZ, mu=OZ, nu=OZ, rho=OW, alpha=OZ)
s("Pr", lambda **a: choose(a, (("Cp", "mu", "k"), lambda: a["Cp"]*a["mu"]/a["k"]), (("nu", "rho", "Cp", "k"), lambda: a["Cp"]*a["rho"]*a["nu"]/a["k"]),
    (("nu", "alpha"), lambda: a["nu"]/a["alpha"])), Cp=OW, k=OZ, mu=OZ, nu=OZ, rho=OW, alpha=OZ)
s("Grashof", lambda **a: choose(a, (("rho", "mu"), lambda: a.get("g", G)*a["beta"]*abs(a["T1"] - a.get("T2", 0))*a["L"]**3*(a["rho"]/a["mu"])**2),
    (("nu",), lambda: a.get("g", G)*a["beta"]*abs(a["T1"] - a.get("T2", 0))*a["L"]**3/a["nu"]**2)),
    L=P_, beta=P_, T1=L(1, 5000), T2=O(L(1, 5000)), rho=O(P_), mu=O(Z(1e4,1e-4,.06)), nu=O(Z(1e4,1e-4,.06)), g=O(P_))
s("Weber", lambda V, L, rho, sigma: rho*L*V**2/sigma, **w("V", "L", "rho", "sigma"))
s("Mach", lambda V, c: V/c, **w("V", "c"))
gr = dict(g=O(L(1e-2, 1e2)))
lg = lambda a: dict(a, rhog=a["rhog"]*a["rhol"]) if a["rhog"] < 1 and not a.get("_f") else a
# two densities: rhol > rhog always
RHOL, RHOG = L(100, 2e4), L(1e-3, 99)
s("Confinement", lambda D, rhol, rhog, sigma, g=G: (sigma/g/(rhol - rhog))**0.5/D, D=W, rhol=RHOL, rhog=RHOG, sigma=W, **gr)
s("Morton", lambda rhol, rhog, mul, sigma, g=G: g*mul**4*(rhol - rhog)/rhol**2/sigma**3, rhol=RHOL, rhog=RHOG, mul=P_, sigma=P_, **gr)
s("Knudsen", lambda path, L: path/L, **w("path", "L"))
bond = lambda rhol, rhog, sigma, L: G*(rhol - rhog)*L**2/sigma
s("Bond", bond, rhol=RHOL, rhog=RHOG, sigma=W, L=W)
s("Eotvos", bond, rhol=RHOL, rhog=RHOG, sigma=W, L=W)
s("Rayleigh", lambda Pr, Gr: Pr*Gr, **w("Pr", "Gr"))
s("Froude", lambda V, L, g=G, squared=False: (V**2/(g*L)) if squared else V/(g*L)**0.5, V=W, L=W, squared=O(C(True, False)), **gr)
def frd(V, L, rho1, rho2, heavy=True, g=G):
    if rho1 <= rho2: return Raises(Exception)
    return V/(g*L)**0.5*((rho1 if heavy else rho2)/(rho1 - rho2))**0.5
s("Froude_densimetric", frd, V=W, L=W, rho1=L(1, 1e4), rho2=L(1, 1e4), heavy=O(C(True, False)), **gr)
s("Strouhal", lambda f, L, V: f*L/V, **w("f", "L", "V"))
s("Nusselt", lambda h, L, k: h*L/k, **w("h", "L", "k"))
s("Biot", lambda h, L, k: h*L/k, **w("h", "L", "k"))
s("Sherwood", lambda K, L, D: K*L/D, **w("K", "L", "D"))
s("Stanton", lambda h, V, rho, Cp: h/V/rho/Cp, **w("h", "V", "rho", "Cp"))
s("Euler", lambda dP, rho, V: dP/rho/V**2, **w("dP", "rho", "V"))
s("Cavitation", lambda P, Psat, rho, V: (P - Psat)*2/rho/V**2, **w("P", "Psat", "rho", "V"))
s("Eckert", lambda V, Cp, dT: V**2/Cp/dT, **w("V", "Cp", "dT"))
s("Jakob", lambda Cp, Hvap, Te: Cp*Te/Hvap, **w("Cp", "Hvap", "Te"))
s("Power_number", lambda P, L, N, rho: P/rho/N**3/L**5, **w("P", "L", "N", "rho"))
s("Drag", lambda F, A, V, rho: 2*F/A/rho/V**2, **w("F", "A", "V", "rho"))
s("Stokes_number", lambda V, Dp, D, rhop, mu: rhop*V*Dp**2/18/mu/D, **w("V", "Dp", "D", "rhop", "mu"))
s("Capillary", lambda V, mu, sigma: V*mu/sigma, **w("V", "mu", "sigma"))
s("Archimedes", lambda L, rhof, rhop, mu, g=G: L**3*rhof*(rhop - rhof)*g/mu**2, L=W, rhof=W, rhop=W, mu=W, **gr)
s("Ohnesorge", lambda L, rho, mu, sigma: mu/(L*rho*sigma)**0.5, **w("L", "rho", "mu", "sigma"))
s("Suratman", lambda L, rho, mu, sigma: rho*sigma*L/mu**2, **w("L", "rho", "mu", "sigma"))
s("Hagen", lambda Re, fd: fd/2*Re**2, **w("Re", "fd"))
s("Bejan_L", lambda dP, L, mu, alpha: dP*L**2/mu/alpha, **w("dP", "L", "mu", "alpha"))
s("Bejan_p", lambda dP, K, mu, alpha: dP*K/mu/alpha, **w("dP", "K", "mu", "alpha"))
s("Boiling", lambda G, q, Hvap: q/G/Hvap, **w("G", "q", "Hvap"))
s("Dean", lambda Re, Di, D: (Di/D)**0.5*Re, **w("Re", "Di", "D"))
s("relative_roughness", lambda D, roughness=1.52e-6: roughness/D, D=W, roughness=OZ)
def numu(rho, mu=None, nu=None):
    if (mu is None) == (nu is None): return Raises(ValueError)
    return mu/rho if nu is None else nu*rho
s("nu_mu_converter", numu, rho=W, mu=OZ, nu=OZ)
def grav(latitude, H):
    p = radians(latitude)
    return 9.780356*(1 + 0.0052885*sin(p)**2 - 0.0000059*sin(2*p)**2) - 3.086e-6*H
s("gravity", grav, latitude=U(-90, 90), H=U(-500, 1e5))
FD = O(L(1e-3, 1))
s("K_from_f", lambda fd, L, D: fd*L/D, **w("fd", "L", "D"))
s("f_from_K", lambda K, L, D: K*D/L, **w("K", "L", "D"))
s("K_from_L_equiv", lambda L_D, fd=0.015: fd*L_D, L_D=W, fd=FD)
s("L_equiv_from_K", lambda K, fd=0.015: K/fd, K=W, fd=FD)
s("L_from_K", lambda K, D, fd=0.015: K*D/fd, K=W, D=W, fd=FD)
s("dP_from_K", lambda K, rho, V: K*rho*V**2/2, **w("K", "rho", "V"))
s("head_from_K", lambda K, V, g=G: K*V**2/2/g, K=W, V=W, **gr)
s("head_from_P", lambda P, rho, g=G: P/rho/g, P=W, rho=W, **gr)
s("P_from_head", lambda head, rho, g=G: head*rho*g, head=W, rho=W, **gr)
TT = U(-500, 4000)
to_K = {"C": lambda t: t + 273.15, "F": lambda t: (t + 459.67)*5/9, "R": lambda t: t*5/9, "K": lambda t: t}
fr_K = {"C": lambda t: t - 273.15, "F": lambda t: t*9/5 - 459.67, "R": lambda t: t*9/5, "K": lambda t: t}
for a_ in "CFRK":
    for b_ in "CFRK":
        if a_ == b_: continue
        arg = {"C": "C", "F": "F", "K": "K", "R": "Ra"}[a_]
        s("%s2%s" % (a_, b_), (lambda a_, b_: lambda **k: fr_K[b_](to_K[a_](list(k.values())[0])))(a_, b_), _atol=2e-12, **{arg: TT})

# mutual inverses, observed on the real functions only
def roundtrip(name, chain, dom, tol=1e-12, atol=0.0):
    def target(**a): return chain(**a)
    def ref(**a): return a["x"]
    S.append(Spec("roundtrip:" + name, dict(dom), ref, target=target, rtol=tol, atol=atol, hull=False))
import fluids.core as fc
for a_ in "CFRK":
    for b_ in "CFRK":
        if a_ != b_:
            roundtrip("%s2%s" % (a_, b_), (lambda f, g: lambda x: getattr(fc, g)(getattr(fc, f)(x)))("%s2%s" % (a_, b_), "%s2%s" % (b_, a_)), dict(x=TT), 1e-12, 2e-12)
roundtrip("nu_mu", lambda x, rho: fc.nu_mu_converter(rho, nu=fc.nu_mu_converter(rho, mu=x)), dict(x=W, rho=W))
roundtrip("K_f", lambda x, l, d: fc.K_from_f(fc.f_from_K(x, l, d), l, d), dict(x=W, l=W, d=W))
roundtrip("K_Lequiv", lambda x, fd: fc.K_from_L_equiv(fc.L_equiv_from_K(x, fd), fd), dict(x=W, fd=L(1e-3, 1)))
roundtrip("K_L", lambda x, d, fd: fc.K_from_f(fd, fc.L_from_K(x, d, fd), d), dict(x=W, d=W, fd=L(1e-3, 1)))
roundtrip("head_P", lambda x, rho, g: fc.P_from_head(fc.head_from_P(x, rho, g), rho, g), dict(x=W, rho=W, g=L(1, 20)))
roundtrip("K_head_dP", lambda x, rho, V, g: fc.P_from_head(fc.head_from_K(x, V, g), rho, g)/(0.5*rho*V*V), dict(x=W, rho=W, V=W, g=L(1, 20)))
