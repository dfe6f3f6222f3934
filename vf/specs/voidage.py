"""P15 void fraction and two-phase viscosity"""
from math import *
from ..dom import *
from ..lib import adder
from ..engine import Raises, SKIP, Approx, Spec
from .two_phase import xtt, rh, q as q_
S = []
s = adder(S, "two_phase_voidage")
BAD, TE, G = Raises(ValueError), Raises(TypeError), 9.80665
X = U(1e-3, .999)
RL, RG, ML, MG, SG = L(300, 2500), L(.05, 250), L(2e-5, 1), L(2e-6, 1e-4), L(1e-3, .1)
M, DD, GG = L(1e-4, 1e3), L(2e-5, 2), O(U(1, 20))
DM = dict(x=X, rhol=RL, rhog=RG, mul=ML, mug=MG, sigma=SG, m=M, D=DD, P=L(1e4, 2e7), Pc=L(2e7, 4e7), g=GG, angle=O(U(-90, 90)))
F, NEED, NAMES = {}, {}, {}
def v(name, key=None):
    def w(f):
        n = f.__code__.co_varnames[:f.__code__.co_argcount]
        F[key or name] = f; NEED[key or name] = n; NAMES[key or name] = name
        s(name, f, **{k: DM[k] for k in n}, _rtol=1e-8, _n=.6)
        return f
    return w
def slip(x, y): return 1/(1 + (1 - x)/x*y)
@v("Thom")
def _(x, rhol, rhog, mul, mug): return slip(x, (rhog/rhol)**.89*(mul/mug)**.18)
@v("Zivi")
def _(x, rhol, rhog): return slip(x, (rhog/rhol)**(2/3))
@v("Smith")
def _(x, rhol, rhog):
    e = .4*(1 - x)/x
    return slip(x, rhog/rhol*(.4 + .6*sqrt((rhol/rhog + e)/(1 + e))))
@v("Fauske")
def _(x, rhol, rhog): return slip(x, (rhog/rhol)**.5)
@v("Chisholm_voidage")
def _(x, rhol, rhog): return slip(x, rhog/rhol*sqrt(1 - x*(1 - rhol/rhog)))
@v("Turner_Wallis", "Turner Wallis")
def _(x, rhol, rhog, mul, mug): return 1/(1 + ((1 - x)/x)**.72*(rhog/rhol)**.4*(mul/mug)**.08)
@v("homogeneous")
def hom(x, rhol, rhog): return x*rhol/(x*rhol + (1 - x)*rhog)
s("homogeneous", hom, x=C(0, 1, 0.0, 1.0, .5), rhol=RL, rhog=RG, _n=.1)
@v("Chisholm_Armand", "Chisholm Armand")
def _(x, rhol, rhog): a = hom(x, rhol, rhog); return a/(a + sqrt(1 - a))
@v("Armand")
def arm(x, rhol, rhog): return .833*hom(x, rhol, rhog)
@v("Nishino_Yamazaki", "Nishino Yamazaki")
def _(x, rhol, rhog): return Approx(1 - sqrt((1 - x)/x*rhog/rhol*hom(x, rhol, rhog)), 1e-8, 1e-12)
@v("Guzhov")
def _(x, rhol, rhog, m, D): return -.81*expm1(-2.2*m/(pi/4*D*D)/rh(x, rhol, rhog)/sqrt(G*D))*hom(x, rhol, rhog)
@v("Kawahara")
def _(x, rhol, rhog, D):
    if D > 250e-6: return arm(x, rhol, rhog)
    c = .03 if D > 75e-6 else .02
    r = sqrt(hom(x, rhol, rhog))
    return c*r/(1 - (1 - c)*r)
@v("Baroczy")
def _(x, rhol, rhog, mul, mug): return 1/(1 + ((1 - x)/x)**.74*(rhog/rhol)**.65*(mul/mug)**.13)
@v("Tandon_Varma_Gupta", "Tandon Varma Gupta")
def _(x, rhol, rhog, mul, mug, m, D):
    R = m*D/(pi/4*D*D)/mul; X_ = xtt(x, rhol, rhog, mul, mug)
    f = .15*(1/X_ + 2.85*X_**-.476)
    a, b = (1.928*R**-.315, .9293*R**-.63) if R < 1125 else (.38*R**-.088, .0361*R**-.176)
    return Approx(1 - a/f + b/f**2, 1e-8, 1e-12*(1 + a/f + b/f**2))
@v("Harms")
def _(x, rhol, rhog, mul, mug, m, D):
    R = m*D/(pi/4*D*D)*(1 - x)/mul
    t = 10.06*R**-.875*(1.74 + .104*R**.5)**2/sqrt(1.376 + 7.242/xtt(x, rhol, rhog, mul, mug)**1.655)
    return Approx((1 - t)**2, 1e-8, 1e-12*(1 + t*t))
@v("Domanski_Didion", "Domanski Didion")
def _(x, rhol, rhog, mul, mug):
    X_ = xtt(x, rhol, rhog, mul, mug)
    return SKIP if abs(X_ - 10) < 1e-7 else (1 + X_**.8)**-.378 if X_ < 10 else Approx(.823 - .157*log(X_), 1e-8, 1e-12)
def ft(x, rhog, m, D, g): return m/(pi/4*D*D)/rhog*sqrt(x**3/((1 - x)*g*D))
@v("Graham")
def _(x, rhol, rhog, mul, mug, m, D, g=G):
    f = ft(x, rhog, m, D, g)
    return SKIP if abs(f/.01032 - 1) < 1e-9 else 0.0 if f < .01032 else Approx(-expm1(-1 - .3*log(f) - .0328*log(f)**2), 1e-8, 1e-12)
@v("Yashar")
def _(x, rhol, rhog, mul, mug, m, D, g=G): return (1 + 1/ft(x, rhog, m, D, g) + xtt(x, rhol, rhog, mul, mug))**-.321
@v("Huq_Loth")
def _(x, rhol, rhog): return Approx(1 - 2*(1 - x)**2/(1 - 2*x + sqrt(1 + 4*x*(1 - x)*(rhol/rhog - 1))), 1e-8, 1e-9)
@v("Kopte_Newell_Chato")
def _(x, rhol, rhog, m, D, g=G):
    f = ft(x, rhog, m, D, g); l = log(f)
    return SKIP if abs(f/.044 - 1) < 1e-9 else hom(x, rhol, rhog) if f < .044 else Approx(1.045 - exp(-1 - .342*l - .0268*l*l + .00597*l**3), 1e-8, 1e-12)
def drift(x, rhol, rhog, m, D, C0, vgm): return x/rhog/(C0/rh(x, rhol, rhog) + vgm/m*pi/4*D*D)
def vr(x, rhol, rhog, sigma, g): return 1.18*(1 - x)*(g*sigma*(rhol - rhog))**.25/rhol**.5
@v("Steiner")
def _(x, rhol, rhog, sigma, m, D, g=G): return drift(x, rhol, rhog, m, D, 1 + .12*(1 - x), vr(x, rhol, rhog, sigma, g))
@v("Rouhani_1", "Rouhani 1")
def _(x, rhol, rhog, sigma, m, D, g=G): return drift(x, rhol, rhog, m, D, 1 + .2*(1 - x), vr(x, rhol, rhog, sigma, g))
@v("Rouhani_2", "Rouhani 2")
def _(x, rhol, rhog, sigma, m, D, g=G): return drift(x, rhol, rhog, m, D, 1 + .2*(1 - x)*(g*D)**.25*(rhol/m*pi/4*D*D)**.5, vr(x, rhol, rhog, sigma, g))
@v("Nicklin_Wilkes_Davidson", "Nicklin Wilkes Davidson")
def _(x, rhol, rhog, m, D, g=G): return drift(x, rhol, rhog, m, D, 1.2, .35*sqrt(g*D))
@v("Gregory_Scott")
def _(x, rhol, rhog): return hom(x, rhol, rhog)/1.19
def cdix(x, rhol, rhog): vg, vl = x/rhog, (1 - x)/rhol; return vg/(vl + vg)*(1 + (vl/vg)**((rhog/rhol)**.1))
@v("Dix")
def _(x, rhol, rhog, sigma, m, D, g=G): return drift(x, rhol, rhog, m, D, cdix(x, rhol, rhog), 2.9*(g*sigma*(rhol - rhog)/rhol**2)**.25)
@v("Sun_Duffey_Peng", "Sun Duffey Peng")
def _(x, rhol, rhog, sigma, m, D, P, Pc, g=G): return drift(x, rhol, rhog, m, D, 1/(.82 + .18*(P/Pc if Pc is not None else .5)), 1.41*(g*sigma*(rhol - rhog)/rhol**2)**.25)
S.append(Spec("two_phase_voidage.Sun_Duffey_Peng(Pc=None)", {k: DM[k] for k in ("x", "rhol", "rhog", "sigma", "m", "D", "P", "g")}, lambda x, rhol, rhog, sigma, m, D, P, g=G: F["Sun Duffey Peng"](x, rhol, rhog, sigma, m, D, .5, 1.0, g), target=lambda **k: __import__("fluids.two_phase_voidage", fromlist=["x"]).Sun_Duffey_Peng(Pc=None, **k), n=.3, rtol=1e-8))
@v("Xu_Fang_voidage", "Xu Fang voidage")
def _(x, rhol, rhog, m, D, g=G):
    Fr = (m/(pi/4*D*D))**2/(g*D*rhol**2)
    return slip(x, rhog/rhol*(1 + 2*Fr**-.2*hom(x, rhol, rhog)**3.5))
@v("Woldesemayat_Ghajar", "Woldesemayat Ghajar")
def wg(x, rhol, rhog, sigma, m, D, P, angle=0, g=G):
    A = pi/4*D*D; vg, vl = m*x/rhog/A, m*(1 - x)/rhol/A; t = radians(angle)
    P = 101325.0 if P is None else P
    return vg/(vg*(1 + (vl/vg)**((rhog/rhol)**.1)) + 2.9*(g*D*sigma*(1 + cos(t))*(rhol - rhog)/rhol**2)**.25*(1.22 + 1.22*sin(t))**(101325/P))
NEED["Woldesemayat Ghajar"] = ("x", "rhol", "rhog", "sigma", "m", "D", "P", "angle", "g")
def xt(x, rhol, rhog, mul, mug, pow_x=.9, pow_rho=.5, pow_mu=.1, n=None):
    if n is not None: pow_x, pow_mu = 1 - n/2, n/2
    return ((1 - x)/x)**pow_x*(rhog/rhol)**pow_rho*(mul/mug)**pow_mu
s("Lockhart_Martinelli_Xtt", xt, x=X, rhol=RL, rhog=RG, mul=ML, mug=MG, pow_x=O(U(.5, 1)), pow_rho=O(U(.3, 1)), pow_mu=O(U(0, .3)), n=O(C(0, .2, .25, 1.0), .6), _rtol=1e-8)
PAR = ("D", "m", "mul", "mug", "sigma", "P", "Pc")
def lgv(x, rhol, rhog, D=None, m=None, mul=None, mug=None, sigma=None, P=None, Pc=None, angle=0, g=G, Method=None):
    d = dict(x=x, rhol=rhol, rhog=rhog, D=D, m=m, mul=mul, mug=mug, sigma=sigma, P=P, Pc=Pc, angle=angle, g=g)
    k = "homogeneous" if Method is None else Method
    if k not in F: return BAD
    if any(d[j] is None for j in NEED[k] if j in PAR): return TE
    return F[k](**{j: d[j] for j in NEED[k]})
s("liquid_gas_voidage", lgv, x=X, rhol=RL, rhog=RG, **{k: O(DM[k], .04) for k in PAR}, angle=DM["angle"], g=GG, Method=O(C(*F, "no such"), .05), _rtol=1e-8, _n=4)
def lgm(x, rhol, rhog, D=None, m=None, mul=None, mug=None, sigma=None, P=None, Pc=None, angle=0, g=G, check_ranges=False):
    d = locals()
    have = {k for k in DM if d[k] is not None}
    return sorted(k for k in F if set(NEED[k]) <= have)
def srt(r): return sorted(r)
s("liquid_gas_voidage_methods", lgm, x=X, rhol=RL, rhog=RG, **{k: O(DM[k], .3) for k in PAR}, angle=O(C(0, 45., None)), check_ranges=O(C(True, False)), _target=lambda **k: srt(T_("liquid_gas_voidage_methods")(**k)))
def T_(n):
    import fluids.two_phase_voidage as m
    return getattr(m, n)
s("density_two_phase", lambda alpha, rhol, rhog: alpha*rhog + (1 - alpha)*rhol, alpha=U(0, 1), rhol=RL, rhog=RG, _n=.4)
s("two_phase_voidage_experimental", lambda rho_lg, rhol, rhog: (rhol - rho_lg)/(rhol - rhog), rho_lg=L(.05, 2500), rhol=RL, rhog=RG, _n=.4)
V = {}
def mu(name, key=None, **d):
    def w(f):
        V[key or name] = f
        n = f.__code__.co_varnames[:f.__code__.co_argcount]
        s(name, f, **{k: (U(0, 1) if k == "x" else DM[k]) for k in n}, _rtol=1e-9, _n=.6)
        return f
    return w
@mu("Beattie_Whalley", "Beattie Whalley")
def _(x, mul, mug, rhol, rhog): a = hom(x, rhol, rhog); return mul*(1 - a)*(1 + 2.5*a) + mug*a
@mu("McAdams")
def mc(x, mul, mug): return mul*mug/(x*mul + (1 - x)*mug)
@mu("Cicchitti")
def _(x, mul, mug): return x*mug + (1 - x)*mul
@mu("Lin_Kwok", "Lin Kwok")
def _(x, mul, mug): return mul*mug/(mug + x**1.4*(mul - mug))
@mu("Fourar_Bories", "Fourar Bories")
def _(x, mul, mug, rhol, rhog): return rh(x, rhol, rhog)*(x*mug/rhog + (1 - x)*mul/rhol + 2*sqrt(x*(1 - x)*mug*mul/rhog/rhol))
@mu("Duckler")
def _(x, mul, mug, rhol, rhog): return rh(x, rhol, rhog)*(x*mug/rhog + (1 - x)*mul/rhol)
RHO = ("Beattie Whalley", "Fourar Bories", "Duckler")
def glv(x, mul, mug, rhol=None, rhog=None, Method=None):
    k = Method or "McAdams"
    if k not in V: return BAD
    if k not in RHO: return V[k](x, mul, mug)
    return TE if rhol is None or rhog is None else V[k](x, mul, mug, rhol, rhog)
s("gas_liquid_viscosity", glv, x=U(0, 1), mul=ML, mug=MG, rhol=O(RL, .15), rhog=O(RG, .15), Method=O(C(*V, "no such"), .1), _n=2)
s("gas_liquid_viscosity_methods", lambda rhol=None, rhog=None, check_ranges=False: sorted(k for k in V if k not in RHO or (rhol is not None and rhog is not None)), rhol=O(RL), rhog=O(RG), check_ranges=O(C(True, False)), _target=lambda **k: srt(T_("gas_liquid_viscosity_methods")(**k)), _n=.2)
