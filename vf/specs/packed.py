"""P16 packed beds, packed towers, demisters"""
from math import *
from ..dom import *
from ..lib import adder
from ..engine import Raises, SKIP, Approx
S = []
b, t = adder(S, "packed_bed"), adder(S, "packed_tower")
BAD, G = Raises(ValueError), 9.80665
D = dict(dp=L(1e-5, .1), voidage=U(.2, .95), vs=L(1e-4, 10), rho=L(.1, 2000), mu=L(1e-6, .1), L=O(L(.01, 50)))
F = {}
def plain(name, key, a, bb, n):
    def f(dp, voidage, vs, rho, mu, L=1.0):
        h = 1 - voidage; R = rho*vs*dp/mu/h
        return (a/R + bb*R**(n - 1))*h/voidage**3*rho*vs*vs*L/dp
    reg(name, key, f)
def reg(name, key, f, **d):
    F[key] = f
    b(name, f, **D, **d, _rtol=1e-9)
for r in (("Ergun", "Ergun", 150, 1.75, 1), ("Kuo_Nydegger", "Kuo & Nydegger", 276.23, 5.05, .87), ("Tallmadge", "Tallmadge", 150, 4.2, 5/6),
          ("Jones_Krier", "Jones & Krier", 150, 3.89, .87), ("Carman", "Carman", 180, 2.871, .9), ("Brauer", "Brauer", 160, 3.1, .9), ("KTA", "KTA", 160, 3, .9)):
    plain(*r)
def _(dp, voidage, vs, rho, mu, L=1.0):
    R = rho*vs*dp/mu; h = 1 - voidage
    return (160 + 2.81*(R/h)**.904)*h*h*mu*vs*L/(dp*dp*voidage**3)
reg("Erdim_Akgiray_Demir", "Erdim, Akgiray & Demir", _)
reg("Hicks", "Hicks", lambda dp, voidage, vs, rho, mu, L=1.0: 6.8*(1 - voidage)**1.2/((rho*vs*dp/mu)**.2*voidage**3)*rho*vs**2*L/dp)
def _(dp, voidage, vs, rho, mu, L=1.0):
    e = voidage; R = rho*vs*dp/mu/(1 - e)
    q = exp(-e*e*(1 - e)/12.6*R)
    f = q*136/(1 - e)**.38/R - expm1(-e*e*(1 - e)/12.6*R)*(1.87*e**.75/(1 - e)**.26 + 29/((1 - e)**1.45*e*e)/R)
    return f*(1 - e)/e**3*rho*vs*vs*L/dp
reg("Fahien_Schriver", "Fahien & Schriver", _)
def _(dp, voidage, vs, rho, mu, L=1.0):
    R = .45/sqrt(voidage)*rho*vs*dp/mu/(1 - voidage)
    return .765/voidage**4.2*(30/R + 3/R**.7 + .3)*L*rho*vs**2/dp
reg("Idelchik", "Idelchik", _)
W = O(L(2e-5, 5), .25)
def _(dp, voidage, vs, rho, mu, L=1.0, Dt=None):
    h = 1 - voidage; R = rho*vs*dp/mu
    k = 0 if Dt is None else dp/Dt
    A = (1 + pi*k/6/h)**2; B = 1 - pi**2*k/24*(1 - k/2)
    return (119.8*A + 4.63*B*(R/h)**(5/6))*h*h/voidage**3/R*rho*vs*vs*L/dp
reg("Harrison_Brunner_Hecker", "Harrison, Brunner & Hecker", _, Dt=W)
def _(dp, voidage, vs, rho, mu, L=1.0, Dt=None):
    R = rho*vs*dp/mu
    if Dt is not None and abs(Dt/dp - 50) < 1e-9: return SKIP
    k = 2.2 if Dt is None or Dt/dp > 50 else (Dt/dp)**.2
    return (.061 if voidage < .4 else .05)*k*(1000/R + 60/sqrt(R) + 12)*(1 - voidage)/voidage**3*L*rho*vs*vs/dp
reg("Montillet_Akkari_Comiti", "Montillet, Akkari & Comiti", _, Dt=W)
def _(dp, voidage, vs, rho, mu, L=1.0, Dt=None):
    h = 1 - voidage; R = rho*vs*dp/mu/h
    k = 3.5 if Dt is None else dp/Dt
    c = (9.5374*k - 2.8054)*R**.97
    s = mu*vs*L*h*h/(dp**2*voidage**3)
    return Approx((180 + c)*s, 1e-9, 1e-12*(180 + abs(c) + 2.8*R)*s)
reg("Guo_Sun", "Guo, Sun, Zhang, Ding & Liu", _, Dt=W)
WALL = ["Harrison, Brunner & Hecker", "Montillet, Akkari & Comiti", "Guo, Sun, Zhang, Ding & Liu"]
ALL = WALL + ["Erdim, Akgiray & Demir", "Idelchik", "Fahien & Schriver", "KTA", "Brauer", "Hicks", "Carman", "Jones & Krier", "Kuo & Nydegger", "Tallmadge", "Ergun"]
def dpb(dp, voidage, vs, rho, mu, L=1.0, Dt=None, sphericity=None, Method=None):
    if sphericity is not None: dp = dp*sphericity
    k = Method or (ALL[3] if Dt is None else ALL[0])
    if k not in F: return BAD
    return F[k](dp, voidage, vs, rho, mu, L, **({"Dt": Dt} if k in WALL else {}))
b("dP_packed_bed", dpb, **D, Dt=W, sphericity=O(U(.2, 1)), Method=O(C(*F, "no such"), .2), _n=3)
b("dP_packed_bed_methods", lambda Dt=None, L=1.0, check_ranges=False, **k: ALL if Dt is not None else ALL[3:], **D, Dt=W, check_ranges=O(C(True, False)), _n=.3)
b("voidage_Benyahia_Oneil", lambda Dpe, Dt, sphericity: .1504 + .2024/sphericity + 1.0814/(Dt/Dpe + .1226)**2, Dpe=L(1e-4, .1), Dt=L(1e-3, 5), sphericity=U(.2, 1))
b("voidage_Benyahia_Oneil_spherical", lambda Dp, Dt: .390 + 1.740/(Dt/Dp + 1.14)**2, Dp=L(1e-4, .1), Dt=L(1e-3, 5))
b("voidage_Benyahia_Oneil_cylindrical", lambda Dpe, Dt, sphericity: .373 + 1.703/(Dt/Dpe + .611)**2, Dpe=L(1e-4, .1), Dt=L(1e-3, 5), sphericity=U(.2, 1))
# demisters
DD = dict(S=L(10, 600), voidage=U(.5, .999), vs=L(.01, 20), rho=L(.1, 100), mu=L(2e-6, 1e-3), L=O(L(.01, 3)))
def dem(a, c, d, e, f):
    def g(S, voidage, vs, rho, mu, L=1.0):
        x = S*L; d1, d2 = 69.6*x - x*x - 779, e - 4.85*x
        v = (a, c/d1, d/d2, f*(mu*voidage*S*x/rho/vs)**.75)
        k = rho*(vs/voidage)**2
        cond = abs(v[1])*(779 + 69.6*x + x*x)/abs(d1) + abs(v[2])*(e + 4.85*x)/abs(d2)
        return Approx(k*(v[0] - v[1] - v[2] + v[3]), 1e-9, 1e-12*k*(sum(map(abs, v)) + cond))
    return g
t("dP_demister_dry_Setekleiv_Svendsen", dem(10.29, 565, 74.9, 160.9, 45.33), **DD)
t("dP_demister_dry_Setekleiv_Svendsen_lit", dem(7.3, 320, 52.4, 161, 27.2), **DD)
E = dict(vs=L(.05, 20), voidage=U(.5, .999), d_wire=L(5e-5, 2e-3))
t("dP_demister_wet_ElDessouky", lambda vs, voidage, d_wire, L=1.0: L*.002356999643727531*(1 - voidage)**.375798*vs**.81317/d_wire**1.56114147, **E, L=D["L"])
t("separation_demister_ElDessouky", lambda vs, voidage, d_wire, d_drop: min(1.0, .858352355761947/d_wire**.28264*(1 - voidage)**.099625*vs**.106878*d_drop**.383197), **E, d_drop=L(1e-7, .02))
t("voidage_experimental", lambda m, rho, D, H: Approx(1 - m/rho/(pi*D*D*H/4), 1e-9, 1e-12*(1 + m/rho/(pi*D*D*H/4))), m=L(.01, 1e4), rho=L(100, 1e4), D=L(.1, 5), H=L(.05, 20))
t("specific_area_mesh", lambda voidage, d: 4*(1 - voidage)/d, voidage=U(.1, .999), d=L(1e-5, .01))
# Stichlmair
C_ = dict(C1=Z(1, 100), C2=Z(.1, 20), C3=U(.1, 5))
P_ = dict(rhog=L(.1, 100), mug=L(5e-6, 5e-5), voidage=U(.5, .98), specific_area=U(50, 500), **C_, H=O(L(.2, 20)))
def parts(Vg, rhog, mug, e, a, C1, C2, C3, H):
    dp = 6*(1 - e)/a; R = Vg*rhog*dp/mug
    f0 = C1/R + C2/sqrt(R) + C3
    return .75*f0*(1 - e)/e**4.65*rhog*H/dp*Vg**2, -(C1/R + C2/2/sqrt(R))/f0
def dry(Vg, rhog, mug, voidage, specific_area, C1, C2, C3, H=1.0): return parts(Vg, rhog, mug, voidage, specific_area, C1, C2, C3, H)[0]
t("Stichlmair_dry", dry, Vg=L(.01, 10), **P_)
def wet_roots(Vg, Vl, rhog, rhol, mug, e, a, C1, C2, C3, H=1.0):
    """the physical root: the smallest dP (per height) on the branch h_T < voidage, by bracketing and bisection"""
    pd, c = parts(Vg, rhog, mug, e, a, C1, C2, C3, 1.0)
    h0 = .555*(Vl*Vl*a/(G*e**4.65))**(1/3)
    if h0 >= e: return None
    def r(p):
        h = h0*(1 + 20*(p/rhol/G)**2)
        return pd*((1 - e + h)/(1 - e))**((2 + c)/3)*(e/(e - h))**4.65 - p
    top = rhol*G*sqrt((e/h0 - 1)/20)
    lo, n = pd, 400
    if r(lo) < 0: return None
    for i in range(1, n):
        hi = pd*(top/pd)**(i/n) if top > pd else None
        if hi is None or hi >= top: return None
        if r(hi) <= 0: break
        lo = hi
    else: return None
    for _ in range(200):
        m = .5*(lo + hi)
        if r(m) > 0: lo = m
        else: hi = m
    return lo
def wet(Vg, Vl, rhog, rhol, mug, voidage, specific_area, C1, C2, C3, H=1.0):
    p = wet_roots(Vg, Vl, rhog, rhol, mug, voidage, specific_area, C1, C2, C3)
    if p is None: return SKIP            # flooded: no operating point
    # keep to loadings well below flooding, where the equation has one well separated root
    q = wet_roots(1.6*Vg, 1.6*Vl, rhog, rhol, mug, voidage, specific_area, C1, C2, C3)
    return SKIP if q is None else p*H
t("Stichlmair_wet", wet, Vg=L(.02, 4), Vl=L(1e-5, .02), rhol=L(500, 2000), **P_, _rtol=1e-6, _n=3)
def flood_post(a, got):
    if type(got).__name__ == "Err": return None
    if not (isinstance(got, float) and isfinite(got)): return "flooding velocity %r" % (got,)
    e, H = a["voidage"], a.get("H", 1.0)
    pd, c = parts(got, a["rhog"], a["mug"], e, a["specific_area"], a["C1"], a["C2"], a["C3"], 1.0)
    h0 = .555*(a["Vl"]**2*a["specific_area"]/(G*e**4.65))**(1/3)
    rg = a["rhol"]*G
    # the second equation fixes dP_irr for this velocity on 0 < hT < voidage: solve it, then the first must hold
    def g(p):
        T = (p/rg)**2; h = h0*(1 + 20*T)
        return 1/T - 40*(2 + c)/3*h0/(1 - e + h) - 186*h0/(e - h)
    if got <= 0 or h0 >= e: return None
    lo, hi = 1e-9*rg, rg*sqrt((e/h0 - 1)/20)*(1 - 1e-13)
    for _ in range(200):
        m = .5*(lo + hi)
        if g(m) > 0: lo = m
        else: hi = m
    p = lo; h = h0*(1 + 20*(p/rg)**2)
    r = pd*((1 - e + h)/(1 - e))**((2 + c)/3)*(e/(e - h))**4.65
    return None if abs(r/p - 1) < 1e-5 else "pressure drop balance at the flood point: %.9g against %.9g per unit height" % (r, p)
t("Stichlmair_flood", None, Vl=L(1e-3, .02), rhol=L(700, 1300), rhog=L(1, 10), mug=L(1e-5, 5e-5), voidage=U(.6, .97), specific_area=U(80, 350), **C_, H=O(L(.5, 3)), _post=flood_post, _n=2)
def rob(L, G, rhol, rhog, mul, H=1.0, Fpd=24.0):
    l, g_ = L*737.33812, G*737.33812
    Lf = l*62.4/(rhol*.062427961)*sqrt(Fpd/20)*(mul*1e3)**.1
    Gf = g_*sqrt(.075/(rhog*.062427961))*sqrt(Fpd/20)
    y = 7.4e-8*Gf**2*10**(2.7e-5*Lf)
    return (y + .4*(Lf/20000)**.1*y**4)*817.22083*H
t("Robbins", rob, L=L(.01, 60), G=L(.01, 10), rhol=L(400, 2000), rhog=L(.1, 60), mul=L(1e-5, .1), H=O(L(.1, 50)), Fpd=O(U(10, 200)))
