"""P01 / P02: friction factors"""
import json, os
from math import log, log10, exp, sqrt, pi, sin, cos, tan, radians
from ..dom import *
from ..lib import adder
from ..engine import Spec, Raises, OneOf, SKIP, Approx, Err
S = []      # P01
C2 = []     # P02
s = adder(S, "friction")
RE, ED = L(100, 1e9), Z(0.1, 1e-8, .1)
def colebrook(Re, eD):
    """root of x + 2 log10(eD/3.7 + 2.51 x/Re) = 0 by bisection then Newton; fd = x**-2"""
    h = lambda x: x + 2*log10(eD/3.7 + 2.51*x/Re)
    lo, hi = 1e-300, 1.0
    while h(hi) < 0: hi *= 2
    for _ in range(200):
        m = (lo + hi)/2 if lo > 1e-12*hi else sqrt(lo*hi) if lo > 0 else hi/2
        if h(m) > 0: hi = m
        else: lo = m
        if hi - lo <= 1e-16*hi: break
    x = (lo + hi)/2
    for _ in range(3):
        d = 1 + 2/log(10)*(2.51/Re)/(eD/3.7 + 2.51*x/Re)
        x -= h(x)/d
    return x**-2
F = {}
def f(name):
    def w(fn): F[name] = fn; return fn
    return w
lg = log10
isq = lambda t, k=1.0: k/(t*t)
F["Moody"] = lambda Re, eD: 4*1.375e-3*(1 + (2e4*eD + 1e6/Re)**(1/3))
F["Alshul_1952"] = lambda Re, eD: .11*(68/Re + eD)**.25
F["Wood_1966"] = lambda Re, eD: .094*eD**.225 + .53*eD + 88*eD**.4*Re**(-1.62*eD**.134)
F["Churchill_1973"] = lambda Re, eD: isq(-2*lg(eD/3.7 + (7/Re)**.9))
F["Eck_1973"] = lambda Re, eD: isq(-2*lg(eD/3.715 + 15/Re))
F["Jain_1976"] = lambda Re, eD: isq(2.28 - 4*lg(eD + (29.843/Re)**.9), 4)
F["Swamee_Jain_1976"] = lambda Re, eD: isq(-4*lg((6.97/Re)**.9 + eD/3.7), 4)
F["Churchill_1977"] = lambda Re, eD: 8*((8/Re)**12 + ((2.457*log((7/Re)**.9 + .27*eD))**16 + (37530/Re)**16)**-1.5)**(1/12)
F["Chen_1979"] = lambda Re, eD: isq(-4*lg(eD/3.7065 - 5.0452/Re*lg(eD**1.1098/2.8257 + (7.149/Re)**.8981)), 4)
F["Round_1980"] = lambda Re, eD: isq(-3.6*lg(Re/(.135*Re*eD + 6.5)), 4)
F["Shacham_1980"] = lambda Re, eD: isq(-4*lg(eD/3.7 - 5.02/Re*lg(eD/3.7 + 14.5/Re)), 4)
F["Barr_1981"] = lambda Re, eD: isq(-2*lg(eD/3.7 + 4.518*lg(Re/7)/(Re*(1 + Re**.52/29*eD**.7))))
F["Zigrang_Sylvester_1"] = lambda Re, eD: isq(-4*lg(eD/3.7 - 5.02/Re*lg(eD/3.7 + 13/Re)), 4)
F["Zigrang_Sylvester_2"] = lambda Re, eD: isq(-4*lg(eD/3.7 - 5.02/Re*lg(eD/3.7 - 5.02/Re*lg(eD/3.7 + 13/Re))), 4)
F["Haaland"] = lambda Re, eD: 4*(-3.6*lg((eD/3.7)**1.11 + 6.9/Re))**-2
@f("Serghides_1")
def _(Re, eD):
    A = -2*lg(eD/3.7 + 12/Re); B = -2*lg(eD/3.7 + 2.51*A/Re); C = -2*lg(eD/3.7 + 2.51*B/Re)
    return (A - (B - A)**2/(C - 2*B + A))**-2
@f("Serghides_2")
def _(Re, eD):
    A = -2*lg(eD/3.7 + 12/Re); B = -2*lg(eD/3.7 + 2.51*A/Re)
    return (4.781 - (A - 4.781)**2/(B - 2*A + 4.781))**-2
def _ts(Re, eD):
    A = .11*(68/Re + eD)**.25
    return A if A >= .018 else .0028 + .85*A
F["Tsal_1989"] = _ts
F["Manadilli_1997"] = lambda Re, eD: isq(-2*lg(eD/3.7 + 95/Re**.983 - 96.82/Re))
F["Romeo_2002"] = lambda Re, eD: isq(-2*lg(eD/3.7065 - 5.0272/Re*lg(eD/3.827 - 4.567/Re*lg((eD/7.7918)**.9924 + (5.3326/(208.815 + Re))**.9345))))
def _sg(Re, eD):
    q = .124*eD*Re + log(.4587*Re)
    return (.8686*(log(.4587*Re) - q/(q + 1)*log(q)))**-2
F["Sonnad_Goudar_2006"] = _sg
F["Rao_Kumar_2007"] = lambda Re, eD: (2*lg(1/(2*eD)/((.444 + .135*Re)/Re*(1 - .55*exp(-.33*log(Re/6.5)**2)))))**-2
def _bz(Re, eD):
    B1 = (.774*log(Re) - 1.41)/(1 + 1.32*sqrt(eD)); B2 = eD/3.7*Re + 2.51*B1
    return (B1 - (B1 + 2*lg(B2/Re))/(1 + 2.18/B2))**-2
F["Buzzelli_2008"] = _bz
F["Avci_Karagoz_2009"] = lambda Re, eD: 6.4/(log(Re) - log(1 + .01*Re*eD*(1 + 10*sqrt(eD))))**2.4
F["Papaevangelo_2010"] = lambda Re, eD: (.2479 - .0000947*(7 - log(Re))**4)/lg(eD/3.615 + 7.366/Re**.9142)**2
def _beta(Re): return log(Re/(1.816*log(1.1*Re/log(1 + 1.1*Re))))
F["Brkic_2011_1"] = lambda Re, eD: (-2*lg(10**(-.4343*_beta(Re)) + eD/3.71))**-2
F["Brkic_2011_2"] = lambda Re, eD: (-2*lg(2.18*_beta(Re)/Re + eD/3.71))**-2
F["Fang_2011"] = lambda Re, eD: 1.613*log(.234*eD**1.1007 - 60.525/Re**1.1105 + 56.291/Re**1.0712)**-2
for k in sorted(F): s(k, F[k], Re=RE, eD=ED)
# tol=0 is documented to be bit-correct; None is the closed form, whose Lambert function cancels in part; a tolerance is met by the step
COLTOL = {0: 5e-15, None: 1e-12, -1.0: 1e-13, 1e-12: 1e-11}
s("Colebrook", lambda Re, eD, tol=None: Approx(colebrook(Re, eD), COLTOL[tol]), Re=L(1e-3, 1e10), eD=ED, tol=O(C(None, -1.0, 1e-12, 0)), _hull=False, _rtol=1e-12, _n=.7)
s("Clamond", lambda Re, eD, fast=False: Approx(colebrook(Re, eD), 2e-3) if fast else colebrook(Re, eD), Re=L(20, 1e12), eD=ED, fast=O(C(False, True)), _rtol=1e-8)
s("friction_laminar", lambda Re: 64/Re, Re=L(1e-3, 1e9))
s("Blasius", lambda Re: .3164/Re**.25, Re=L(1e-3, 1e9))
s("von_Karman", lambda eD: (-2*lg(eD/3.7))**-2, eD=L(1e-9, .5))
s("Prandtl_von_Karman_Nikuradse", lambda Re: colebrook(Re, 0.0), Re=L(1, 1e12), _rtol=1e-8)
def clamond_fast(Re, eD):
    X1 = eD*Re*log(10)/18.574; X2 = log(Re) - log(5.02/log(10))
    Y = X2 - .2
    E = (log(X1 + Y) - .2)/(1 + X1 + Y)
    Y = Y - (1 + X1 + Y + .5*E)*E*(X1 + Y)/(1 + X1 + Y + E*(1 + E/3))
    return (.5*log(10))**2/(Y*Y)
def ft(D):
    """documented: Colebrook at Re = 7.5e6 D with the Farshad carbon-steel roughness"""
    e = .0014*(D/.0254)**(-1.0112 + 1)*.0254
    return colebrook(7.5e6*D, e/D)
s("ft_Crane", lambda D: Approx(ft(D), 1e-4), D=L(1e-3, 5))
FR = dict(F, Colebrook=colebrook, Clamond=colebrook)
def ff(Re, eD=0.0, Method=None, Darcy=True):
    if Re < 2040: v = 64/Re
    elif Method == "laminar": v = 64/Re
    elif Method is None: v = colebrook(Re, eD)
    else:
        if Method not in FR: return Raises(ValueError)
        v = FR[Method](Re, eD)
    return v if Darcy else v/4
s("friction_factor", ff, Re=L(1, 1e9), eD=O(ED, .15), Method=O(C(None, "laminar", "no such method", *FR)), Darcy=O(C(True, False)), _rtol=1e-8, _n=5, _hull=True)
def dP1(m, rho, mu, D, roughness=0.0, L=1.0, Method=None):
    V = m/rho/(pi/4*D*D); Re = rho*V*D/mu
    return ff(Re, roughness/D, Method)*L/D*rho*V*V/2
s("one_phase_dP", dP1, m=L(1e-4, 1e3), rho=L(.1, 2e3), mu=L(1e-6, 1), D=L(1e-3, 2), roughness=O(Z(1e-3, 1e-7)), L=O(L(.01, 1e4)), Method=O(C("Moody", "Haaland", "Colebrook", "Swamee_Jain_1976", None)), _rtol=1e-8, _n=2,
  _fix=lambda a: None if a["roughness"] is not OMIT and a["roughness"] > .1*a["D"] else a)
def acc(m, D, rho_o, rho_i, D_i=None):
    if D_i is None: D_i = D
    vo = m/rho_o/(pi/4*D*D); vi = m/rho_i/(pi/4*D_i*D_i)
    return .5*(rho_o + rho_i)/2*(vo*vo - vi*vi)
dens = L(.1, 2e3)
s("one_phase_dP_acceleration", acc, m=L(1e-3, 1e3), D=L(.01, 1), rho_o=dens, rho_i=dens, D_i=O(L(.01, 1)))
def accz(m, D, rho, dv_dP, dP_dL, dA_dL):
    A = pi/4*D*D; G = m/A
    return -G*G*(dP_dL*dv_dP - dA_dL/rho/A)
s("one_phase_dP_dz_acceleration", accz, m=L(1e-3, 1e3), D=L(.01, 1), rho=dens, dv_dP=U(-1e-4, 0), dP_dL=U(-1e5, 1e6), dA_dL=U(-1e-3, 1e-3))
s("one_phase_dP_gravitational", lambda angle, rho, L=1.0, g=9.80665: L*rho*g*sin(radians(angle)), angle=U(-90, 90), rho=dens, L=O(L(.1, 1e4)), g=O(L(.1, 30)), _atol=1e-12)
s("transmission_factor", lambda fd=None, F=None: 2/sqrt(fd) if fd is not None else 4/F**2 if F is not None else Raises(ValueError), fd=O(L(1e-4, 1)), F=O(L(1, 100)))
T = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "roughness.json")))
def farshad(ID=None, D=None, coeffs=None):
    if ID is None and coeffs is not None:
        return Raises(ValueError) if D is None else coeffs[0]*(D/.0254)**(coeffs[1] + 1)*.0254
    if ID is None: return SKIP
    a, A, B = T["Farshad"][ID]
    return a if D is None else A*(D/.0254)**(B + 1)*.0254
s("roughness_Farshad", farshad, ID=O(C(*T["Farshad"])), D=O(L(1e-3, 3)), coeffs=O(Fn(lambda r: (r.uniform(1e-4, 3e-3), r.uniform(-1.2, -.8)))))
def mat(ID, D=None, optimism=None):
    if ID in T["Farshad"]: return farshad(ID, D)
    if ID in T["clean"]: return T["clean"][ID]
    lo, hi, av = T["HHR"][ID]
    o = (av, hi, lo) if optimism is None else (lo, av, hi) if optimism else (hi, av, lo)
    return next(v for v in o if v is not None)
s("material_roughness", mat, ID=C(*T["Farshad"], *T["clean"], *T["HHR"]), D=O(L(1e-3, 3)), optimism=O(C(None, True, False)), _n=2)
def misspelt(r):
    n = r.choice([*T["HHR"], *T["HHR"], *T["clean"]])
    for _ in range(r.randint(1, 3)):
        if len(n) > 4: k = r.randrange(len(n)); n = n[:k] + r.choice(("", "", n[k].upper(), n[k]*2)) + n[k + 1:]
    return n
def mat2(ID, D=None, optimism=None):
    """an unknown name stands for the nearest one the library knows, with the same options"""
    if ID in T["Farshad"] or ID in T["clean"] or ID in T["HHR"]: return mat(ID, D, optimism)
    import fluids.friction as q
    n = q.nearest_material_roughness(ID, clean=False)
    return mat(n, D, optimism) if n in T["HHR"] else Raises(KeyError)
s("material_roughness", mat2, ID=Fn(misspelt), D=O(L(1e-3, 3)), optimism=O(C(None, True, False)), _n=.05, _sites=False)
def near(name, clean=None):
    d = set(T["clean"]) | set(T["Farshad"]) if clean else set(T["HHR"]) if clean is False else set(T["clean"]) | set(T["HHR"])
    return name if name in d else SKIP
s("nearest_material_roughness", near, name=C(*T["Farshad"], *T["clean"], *T["HHR"]), clean=O(C(None, True, False)), _n=.1)

# ---------------------------------------------------------------- P02
s = adder(C2, "friction")
RC, DI, DC = L(10, 1e6), L(.002, .3), L(.05, 10)
def De(Re, Di, Dc): return Re*sqrt(Di/Dc)
H = {}
def white(Re, Di, Dc):
    d = De(Re, Di, Dc)
    return 64/Re/(1 - (1 - (11.6/d)**.45)**(1/.45)) if d >= 11.6 else 64/Re
def mori(Re, Di, Dc):
    d = De(Re, Di, Dc)
    return 64/Re*(.108*sqrt(d)/(1 - 3.253/sqrt(d)) if d >= 42.328036 else 1.405296)
HL = {"White": ("helical_laminar_fd_White", white), "Mori Nakayama laminar": ("helical_laminar_fd_Mori_Nakayama", mori),
      "Schmidt laminar": ("helical_laminar_fd_Schmidt", lambda Re, Di, Dc: 64/Re*(1 + .14*(Di/Dc)**.97*Re**(1 - .644*(Di/Dc)**.312)))}
def sch(Re, Di, Dc, roughness=0.0):
    b = ff(Re, roughness/Di); r = Di/Dc
    return b*(1 + 2.88e4/Re*r**.62) if Re < 2.2e4 else b*(1 + .0823*(1 + r)*r**.53*Re**.25)
def mnt(Re, Di, Dc):
    q = (Re*(Di/Dc)**2)**-.2
    return .3*(Di/Dc)**.5*q*(1 + .112*q)
HT = {"Schmidt turbulent": ("helical_turbulent_fd_Schmidt", sch, True),
      "Mori Nakayama turbulent": ("helical_turbulent_fd_Mori_Nakayama", mnt, False),
      "Prasad": ("helical_turbulent_fd_Prasad", lambda Re, Di, Dc, roughness=0.0: ff(Re, roughness/Di)*(1 + .18*(Re*(Di/Dc)**2)**.25), True),
      "Czop": ("helical_turbulent_fd_Czop", lambda Re, Di, Dc: .096*De(Re, Di, Dc)**-.1517, False),
      "Guo": ("helical_turbulent_fd_Guo", lambda Re, Di, Dc: .638*Re**-.15*(Di/Dc)**.51, False),
      "Ju": ("helical_turbulent_fd_Ju", lambda Re, Di, Dc, roughness=0.0: ff(Re, roughness/Di)*(1 + .11*Re**.23*(Di/Dc)**.14), True),
      "Mandal Nigam": ("helical_turbulent_fd_Mandal_Nigam", lambda Re, Di, Dc, roughness=0.0: ff(Re, roughness/Di)*(1 + .03*De(Re, Di, Dc)**.27), True),
      "Srinivasan turbulent": ("helical_turbulent_fd_Srinivasan", lambda Re, Di, Dc: .336/De(Re, Di, Dc)**.2, False)}
HC = {"Seth Stahel": ("helical_transition_Re_Seth_Stahel", lambda Di, Dc: 1900*(1 + 8*sqrt(Di/Dc))),
      "Ito": ("helical_transition_Re_Ito", lambda Di, Dc: 20000*(Di/Dc)**.32),
      "Kubair Kuloor": ("helical_transition_Re_Kubair_Kuloor", lambda Di, Dc: 12730*(Di/Dc)**.2),
      "Kutateladze Borishanskii": ("helical_transition_Re_Kutateladze_Borishanskii", lambda Di, Dc: 2300 + 10500*(Di/Dc)**.3),
      "Schmidt": ("helical_transition_Re_Schmidt", lambda Di, Dc: 2300*(1 + 8.6*(Di/Dc)**.45)),
      "Srinivasan": ("helical_transition_Re_Srinivasan", lambda Di, Dc: 2100*(1 + 12*(Di/Dc)**.5))}
def dd(a): return None if a["Di"] > a["Dc"] else a
def rr(a): return None if a["Di"] > a["Dc"] or (a.get("roughness", OMIT) is not OMIT and a["roughness"] > .1*a["Di"]) else a
for n, (fn, r) in HL.items(): s(fn, r, Re=RC, Di=DI, Dc=DC, _fix=dd)
for n, (fn, r, rough) in HT.items():
    if rough: s(fn, r, Re=RC, Di=DI, Dc=DC, roughness=O(Z(1e-2, 1e-7)), _fix=rr, _rtol=1e-8)
    else: s(fn, r, Re=RC, Di=DI, Dc=DC, _fix=dd)
for n, (fn, r) in HC.items(): s(fn, r, Di=DI, Dc=DC, _fix=dd)
s("helical_Re_crit", lambda Di, Dc, Method="Schmidt": HC[Method][1](Di, Dc) if Method in HC else Raises(ValueError), Di=DI, Dc=DC, Method=O(C("nonsense", *HC)), _fix=dd)
def curved(Re, Di, Dc, roughness=0.0, Method=None, Rec_method="Schmidt", laminar_method="Schmidt laminar", turbulent_method="Schmidt turbulent", Darcy=True):
    if Rec_method not in HC: return Raises(ValueError)
    lam = Re < HC[Rec_method][1](Di, Dc)
    m = Method or (laminar_method if lam else turbulent_method)
    if m in HL: v = HL[m][1](Re, Di, Dc)
    elif m in HT: v = HT[m][1](Re, Di, Dc, roughness) if HT[m][2] else HT[m][1](Re, Di, Dc)
    else: return Raises(ValueError)
    return v if Darcy else v/4
s("friction_factor_curved", curved, Re=RC, Di=DI, Dc=DC, roughness=O(Z(1e-2, 1e-7)), Method=O(C(None, "bad", *HL, *HT), .7), Rec_method=O(C(*HC)), laminar_method=O(C(*HL)), turbulent_method=O(C(*HT)), Darcy=O(C(True, False)), _fix=rr, _rtol=1e-8, _n=6)
def m99(Re, chevron_angle, d=4.0, vdi=False):
    p = radians(chevron_angle)
    if vdi:
        f0 = 64/Re if Re < 2000 else (1.8*lg(Re) - 1.5)**-2
        f1 = 597/Re + 3.85 if Re < 2000 else 39/Re**.289
        return (cos(p)/sqrt(.18*tan(p) + .36*sin(p) + f0/cos(p)) + (1 - cos(p))/sqrt(3.8*f1))**-2
    f0 = 16/Re if Re < 2000 else (1.56*log(Re) - 3)**-2
    f1 = 149/Re + .9625 if Re < 2000 else 9.75/Re**.289
    return 4*(cos(p)/sqrt(.045*tan(p) + .09*sin(p) + f0/cos(p)) + (1 - cos(p))/sqrt(3.8*f1))**-2
PL = dict(Re=L(1, 1e5), chevron_angle=U(0, 89))
s("friction_plate_Martin_1999", m99, **PL)
s("friction_plate_Martin_VDI", lambda Re, chevron_angle: m99(Re, chevron_angle, vdi=True), **PL)
KU = ((30, (10, 100), (50, 19.4, 2.99), (1, .589, .183)), (45, (15, 300), (47, 18.29, 1.441), (1, .652, .206)),
      (50, (20, 300), (34, 11.25, .772), (1, .631, .161)), (60, (40, 400), (24, 3.24, .76), (1, .457, .215)), (65, (50, 500), (24, 2.8, .639), (1, .451, .213)))
def kumar(Re, chevron_angle):
    row = next((k for k in KU if chevron_angle <= k[0]), KU[-1])
    j = 0 if Re <= row[1][0] else 1 if Re <= row[1][1] else 2
    return 4*row[2][j]/Re**row[3][j]
s("friction_plate_Kumar", kumar, _hull=False, Re=L(.1, 1e5), chevron_angle=Mix(20, 80, 30., 45., 50., 60., 65.), _n=2)   # the limits are plate classes: no slack at them
s("friction_plate_Muley_Manglik", lambda Re, chevron_angle, plate_enlargement_factor: 4*(2.917 - .1277*chevron_angle + 2.016e-3*chevron_angle**2)*(5.474 - 19.02*plate_enlargement_factor + 18.93*plate_enlargement_factor**2 - 5.341*plate_enlargement_factor**3)*Re**-(.2 + .0577*sin(pi*chevron_angle/45 + 2.1)),
  Re=L(100, 1e5), chevron_angle=U(20, 70), plate_enlargement_factor=U(1, 1.6), _atol=1e-12)
