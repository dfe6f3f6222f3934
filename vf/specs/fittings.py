"""P06 loss coefficients, P07 flow-coefficient conversions, P08 Crane valves and tees"""
import json, os
from math import *
from ..dom import *
from ..lib import adder
from ..engine import Spec, Raises, OneOf, SKIP, Approx, Within
from ..refs import lin, bilin, poly, spl, bispl
from .friction import colebrook, ft, ff, curved
T = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "fittings.json")))
S, KV, CR = [], [], []
s = adder(S, "fittings")
BAD = Raises(ValueError)
D = L(.005, 2)
def pick(table, none=None):
    """dispatch on method; unknown -> ValueError"""
    def ref(method=none, **a):
        if method is None: method = none
        return table[method](**a) if method in table else BAD
    return ref
def M(*ms, none=True): return O(C(*ms, "no such method", *((None,) if none else ())), .15)
s("entrance_sharp", pick({"Rennels": lambda: .57, "Swamee": lambda: .5, "Blevins": lambda: .5, "Crane": lambda: .5, "Idelchik": lambda: .5, "Miller": lambda: .5092676683721356}, "Rennels"),
  method=M("Rennels", "Swamee", "Blevins", "Idelchik", "Crane", "Miller"), _n=.05, _rtol=1e-12)
def ed(Di, t=None, l=None, method="Rennels"):
    method = method or "Rennels"
    if method == "Crane": return .78
    if method not in ("Rennels", "Miller", "Idelchik", "Harris") or t is None: return BAD
    x = t/Di
    if method == "Rennels":
        x = min(x, .05); return 1.12 - 22*x + 216*x**2 + 80*x**3
    if method == "Miller": return Approx(poly(T["entrance_distance_Miller_coeffs"], 20/3*(min(x, .3) - .15)), 1e-8)
    if method == "Idelchik": return max(0, bilin(min((Di if l is None else l)/Di, 10), min(x, 1), T["entrance_distance_Idelchik_l_Di"], T["entrance_distance_Idelchik_t_Di"], T["entrance_distance_Idelchik_dat"]))
    return spl(min(x, .289145), T["entrance_distance_Harris_tck"])
s("entrance_distance", ed, Di=D, t=O(Z(.5, 1e-5), .05), l=O(Z(5, 1e-4)), method=M("Rennels", "Miller", "Idelchik", "Harris", "Crane"), _n=2)
s("entrance_distance_45_Miller", lambda Di, Di0: Approx(poly(T["entrance_distance_45_Miller_coeffs"], 20/3*(min(.5*(Di0 - Di)/Di, .3) - .15)), 1e-8),
  Di=D, Di0=D, _fix=lambda a: a if a["Di0"] >= a["Di"] else dict(a, Di0=a["Di"]*(1 + a["Di0"]/a["Di"])) )
s("entrance_angled", pick({"Idelchik": lambda angle: .57 + .3*cos(radians(angle)) + .2*cos(radians(angle))**2}, "Idelchik"), angle=U(0, 90), method=M("Idelchik"))
def er(Di, rc, method="Rennels"):
    method = method or "Rennels"
    x = rc/Di
    if method == "Rennels":
        if x > 1: return .03
        l = 1 + .622*(1 - .3*sqrt(x) - .7*x)**4
        return .0696*(1 - .569*x)*l**2 + (l - 1)**2
    if method == "Swamee": return .5/(1 + 36*x**1.2)
    if method == "Crane": return lin(x, T["entrance_rounded_ratios_Crane"], T["entrance_rounded_Ks_Crane"])
    if method == "Miller": return Approx(poly(T["entrance_rounded_Miller_coeffs"], 20/3*(min(x, .3) - .15)), 1e-8)
    if method == "Harris": return 0.0 if x > .16 else Approx(spl(x, T["entrance_rounded_Harris_tck"]), 1e-9, 1e-14)
    if method == "Idelchik": return .03 if x > .2 else spl(x, T["entrance_rounded_Idelchik_tck"])
    return BAD
s("entrance_rounded", er, Di=D, rc=Z(2, 1e-4), method=M("Rennels", "Crane", "Miller", "Idelchik", "Harris", "Swamee"), _n=2)
def eb(Di, l, angle, method="Rennels"):
    method = method or "Rennels"
    x = l/Di
    if method == "Rennels":
        Cb = (1 - angle/90)*(angle/90)**(1/(1 + x))
        lb = 1 + .622*(1 - 1.5*Cb*x**((1 - x**.25)/2))
        return .0696*(1 - Cb*x)*lb**2 + (lb - 1)**2
    if method == "Idelchik": return bilin(2*angle, x, T["entrance_beveled_Idelchik_angles"], T["entrance_beveled_Idelchik_l_Di"], T["entrance_beveled_Idelchik_dat"])
    return BAD
s("entrance_beveled", eb, Di=D, l=L(1e-4, 1), angle=U(0, 90), method=M("Rennels", "Idelchik"))
def ebo(Di, Do, l, angle):
    x = l/Do
    Cb = (1 - angle/90)*(angle/90)**(1/(1 + x))
    lb = 1 + .622*(1 - Cb*x**((1 - x**.25)/2))
    return .0696*(1 - Cb*x)*lb**2 + (lb - (Do/Di)**2)**2
s("entrance_beveled_orifice", ebo, Di=D, Do=D, l=L(1e-4, 1), angle=U(0, 90), _fix=lambda a: a if a["Do"] <= a["Di"] else dict(a, Do=a["Di"], Di=a["Do"]))
s("exit_normal", lambda: 1.0, _n=.02)
# ---- bends
MT = {k: T[k] for k in ("tck_bend_rounded_Miller", "tck_bend_rounded_Miller_C_Re", "tck_bend_rounded_Miller_C_os", "bend_rounded_Miller_C_o_Kbs", "bend_rounded_Miller_C_o_limits", "bend_rounded_Miller_C_o_limit_0_01", "bend_rounded_Miller_C_Re_limit_1")}
def mrough(Re, Di, roughness):
    R = min(Re, 1e6)
    return ff(R, roughness/Di)/ff(R, 0.0)
def mco(Kb, Di, L_unimpeded):
    K = min(max(Kb, .1), 1); x = min(L_unimpeded/Di, 30)
    kb, lim, z = MT["bend_rounded_Miller_C_o_Kbs"], MT["bend_rounded_Miller_C_o_limits"], MT["bend_rounded_Miller_C_o_limit_0_01"]
    def curve(i): return 1 if x >= lim[i] else z[i] if x <= .01 else spl(x, MT["tck_bend_rounded_Miller_C_os"][i])
    i = 0
    while K > kb[i+1]: i += 1
    return curve(i) + (K - kb[i])*(curve(i+1) - curve(i))/(kb[i+1] - kb[i])
def mcre(Re, r): return bispl(log10(Re), r, MT["tck_bend_rounded_Miller_C_Re"])
def mre1(Re): return mcre(Re, 1.0) if Re < 207956.58904584477 else 1.0
def msharp(Kb, c1):
    v = Kb/(Kb - .2*c1 + .2)
    return 2.2 if v > 2.2 or v < 0 else v
def miller(Di, angle, Re, rc=None, bend_diameters=None, roughness=0.0, L_unimpeded=None):
    if rc is None: rc = Di*(5 if bend_diameters is None else bend_diameters)
    r = min(max(rc/Di, .5), 10)
    Kb = bispl(r, max(angle, 10), MT["tck_bend_rounded_Miller"])
    R = min(max(Re, 1e4), 1e8)
    if r >= 2: c = mcre(R, 2)
    elif r <= 1: c = mre1(R) if r > .7 or Kb < .4 else msharp(Kb, mre1(R))
    elif R > 1048884.4656835075 or R > poly(MT["bend_rounded_Miller_C_Re_limit_1"], r): c = 1
    else: c = mcre(R, r)
    return Kb*c*mrough(Re, Di, roughness)*mco(Kb, Di, 20*Di if L_unimpeded is None else L_unimpeded)
RE, RO = L(10, 1e9), Z(1e-3, 1e-8)
def rofix(a):
    r = a.get("roughness", OMIT)
    d = min(v for k, v in a.items() if k in ("Di", "Di1", "Di2") and isinstance(v, float)) if any(k in a for k in ("Di", "Di1")) and a.get("Di", 1) is not OMIT and a.get("Di", 1) is not None else 1
    return None if r is not OMIT and r is not None and r > .05*d else a
BD = dict(rc=O(L(.005, 10), .6), bend_diameters=O(L(.3, 40), .6))
def onebend(a): return None if a["rc"] is not OMIT and a["bend_diameters"] is not OMIT else rofix(a)
s("Miller_bend_roughness_correction", mrough, Re=RE, Di=D, roughness=RO, _fix=rofix, _rtol=1e-8)
s("Miller_bend_unimpeded_correction", mco, Kb=L(.02, 2), Di=D, L_unimpeded=Z(50, 1e-4), _n=2, _rtol=1e-8)
s("bend_rounded_Miller", miller, Di=D, angle=U(5, 180), Re=RE, roughness=O(RO), L_unimpeded=O(Z(40, 1e-3)), _fix=onebend, _rtol=1e-8, _n=3, **BD)
def bcrane(Di, angle, rc=None, bend_diameters=None):
    if rc is not None and bend_diameters is not None and abs(Di*bend_diameters/rc - 1) > 1e-12: return BAD
    r = min(max((5 if bend_diameters is None else bend_diameters) if rc is None else rc/Di, 1), 20)
    fd = ft(Di)
    K = fd*poly(T["bend_rounded_Crane_coeffs"], (r - 10.5)/9.5)
    return Approx((angle/90 - 1)*(.25*pi*fd*r + .5*K) + K, 1e-4)
s("bend_rounded_Crane", bcrane, Di=D, angle=U(5, 180), **BD)
def ito(Di, angle, Re, rc=None, bend_diameters=None, roughness=0.0):
    if not rc: rc = Di*(5 if bend_diameters is None else bend_diameters)
    q = Di/rc
    a45, a90, a180 = 1 + 5.13*q**1.47, .95 + 4.42*q**1.96 if 1/q < 9.85 else 1.0, 1 + 5.06*q**4.52
    al = 1 if 1/q > 50 else lin(angle, [45, 90, 180], [a45, a90, a180])
    if Re*q*q <= 360:
        fc = curved(Re, Di, 2*rc, roughness, Rec_method="Srinivasan", laminar_method="White", turbulent_method="Srinivasan turbulent")
        return .0175*al*fc*angle/q
    return .00431*al*angle*Re**-.17*q**-.84
s("bend_rounded_Ito", ito, _ties=False, Di=D, angle=U(5, 180), Re=RE, roughness=O(RO), _fix=onebend, _n=2, **BD)
def bend(Di, angle, fd=None, rc=None, bend_diameters=None, Re=None, roughness=0.0, L_unimpeded=None, method="Rennels"):
    method = method or "Rennels"
    if method == "Crane": return bcrane(Di, angle, rc, bend_diameters)
    r = (5 if bend_diameters is None else bend_diameters) if rc is None else rc/Di
    if method == "Rennels":
        if fd is None:
            if Re is None: return BAD
            fd = colebrook(Re, roughness/Di)
        a = radians(angle); sn = sin(a/2)
        return fd*a*r + (.1 + 2.4*fd)*sn + 6.6*fd*(sqrt(sn) + sn)/r**(4*a/pi)
    if method == "Crane standard": return Approx(ft(Di)*lin(angle, [45, 90, 180], [16, 30, 50], True), 1e-4)
    if method == "Swamee": return (.0733 + .923*r**-3.5)*sqrt(radians(angle))
    if method not in ("Miller", "Ito") or Re is None: return BAD
    if method == "Miller": return miller(Di, angle, Re, r*Di, None, roughness, L_unimpeded)
    return ito(Di, angle, Re, r*Di, None, roughness)
REC = L(100, 1e9)
s("bend_rounded", bend, _ties=False, Di=D, angle=U(5, 180), fd=O(L(.005, .1)), Re=O(REC, .1), roughness=O(RO), L_unimpeded=O(Z(40, 1e-3)), method=M("Rennels", "Crane", "Crane standard", "Miller", "Swamee", "Ito"), _fix=onebend, _rtol=1e-8, _n=4, **BD)
def mmiller(Di, angle, Re, roughness=0.0, L_unimpeded=None):
    Kb = poly(T["bend_miter_Miller_coeffs"], (min(angle, 120) - 60)/60)
    R = min(max(Re, 1e4), 1e8)
    return Kb*msharp(Kb, mre1(R))*mrough(Re, Di, roughness)*mco(Kb, Di, 20*Di if L_unimpeded is None else L_unimpeded)
s("bend_miter_Miller", mmiller, Di=D, angle=U(3, 150), Re=RE, roughness=O(RO), L_unimpeded=O(Z(40, 1e-3)), _fix=rofix, _rtol=1e-8, _n=2)
def miter(angle, Di=None, Re=None, roughness=0.0, L_unimpeded=None, method="Rennels"):
    method = method or "Rennels"
    if method == "Rennels":
        x = sin(radians(angle)/2); return .42*x + 2.56*x**3
    if method == "Crane": return BAD if Di is None else Approx(ft(Di)*lin(angle, T["bend_miter_Crane_angles"], T["bend_miter_Crane_fds"]), 1e-4)
    if method == "Miller": return BAD if Di is None or Re is None else mmiller(Di, angle, Re, roughness, L_unimpeded)
    if method == "Blevins": return BAD if Re is None else lin(angle, T["bend_miter_Blevins_angles"], T["bend_miter_Blevins_Ks"])*(2e5/Re)**.2
    return BAD
s("bend_miter", miter, angle=U(3, 150), Di=O(D, .05), Re=O(RE, .05), roughness=O(RO), L_unimpeded=O(Z(40, 1e-3)), method=M("Rennels", "Miller", "Crane", "Blevins"), _fix=rofix, _rtol=1e-8, _n=3)
FD = L(.005, .1)
s("helix", lambda Di, rs, pitch, N, fd: N*(fd*sqrt((2*pi*rs)**2 + pitch**2)/Di + .2 + 4.8*fd), Di=D, rs=L(.01, 5), pitch=L(.01, 5), N=I(1, 100), fd=FD)
s("spiral", lambda Di, rmax, rmin, pitch, fd: (rmax - rmin)/pitch*(fd*pi*(rmax + rmin)/Di + .2 + 4.8*fd) + 13.2*fd/(rmin/Di)**2, Di=D, rmax=L(.01, 5), rmin=L(.01, 5), pitch=L(.01, 1), fd=FD,
  _fix=lambda a: a if a["rmax"] >= a["rmin"] else dict(a, rmax=a["rmin"], rmin=a["rmax"]), _atol=1e-9)
# ---- contractions
def dec(a):
    """Di1 >= Di2"""
    if a["Di1"] == a["Di2"]: return None
    return rofix(a if a["Di1"] > a["Di2"] else dict(a, Di1=a["Di2"], Di2=a["Di1"]))
def inc(a):
    if a["Di1"] == a["Di2"]: return None
    return rofix(a if a["Di1"] < a["Di2"] else dict(a, Di1=a["Di2"], Di2=a["Di1"]))
DD = dict(Di1=D, Di2=D)
def crm(Di1, Di2, rc): return max(0, bispl((Di2/Di1)**2, min(rc/Di2, .1), T["tck_contraction_abrupt_Miller"]))
s("contraction_round_Miller", crm, rc=Z(.5, 1e-5), _fix=dec, _atol=1e-11, **DD)
def hoop_c(Di1, Di2, Re, fd, roughness):
    q = Di1/Di2
    if Re <= 2500: K = (1.2 + 160/Re)*(q**4 - 1)
    else: K = (.6 + .48*(colebrook(Re, roughness/Di1) if fd is None else fd))*q**2*(q**2 - 1)
    return K/q**4
def ccrane(Di1, Di2, l=None, angle=None):
    if l is not None: a = pi if l == 0 else 2*atan((Di1 - Di2)/(2*l))
    elif angle is not None: a = radians(angle)
    else: return BAD
    return (.8*sin(a/2) if a < pi/4 else .5*sqrt(sin(a/2)))*(1 - (Di2/Di1)**2)
def cs(Di1, Di2, fd=None, Re=None, roughness=0.0, method="Rennels"):
    if method == "Rennels":
        b = Di2/Di1; l = 1 + .622*(1 - .215*b**2 - .785*b**5)
        return .0696*(1 - b**5)*l**2 + (l - 1)**2
    if method == "Hooper": return BAD if Re is None else hoop_c(Di1, Di2, Re, fd, roughness)
    if method == "Crane": return ccrane(Di1, Di2, l=0.0)
    return BAD
s("contraction_sharp", cs, fd=O(FD), Re=O(REC, .1), roughness=O(RO), method=M("Rennels", "Hooper", "Crane", none=False), _fix=dec, _n=2, _rtol=1e-8, **DD)
def cround(Di1, Di2, rc, method="Rennels"):
    method = method or "Rennels"
    b = Di2/Di1; x = rc/Di2
    if method == "Rennels":
        l = 1 + .622*(1 - .3*sqrt(x) - .7*x)**4*(1 - .215*b**2 - .785*b**5)
        return .0696*(1 - .569*x)*(1 - sqrt(x)*b)*(1 - b**5)*l**2 + (l - 1)**2
    if method == "Miller": return crm(Di1, Di2, rc)
    if method == "Idelchik": return lin(x, T["contraction_round_Idelchik_ratios"], T["contraction_round_Idelchik_factors"])*(1 - b**2)
    return BAD
s("contraction_round", cround, rc=Z(.5, 1e-5), method=M("Rennels", "Miller", "Idelchik"), _fix=dec, _n=2, _atol=1e-11, **DD)
LA = dict(l=O(Z(5, 1e-3), .5), angle=O(U(.5, 180), .5))
s("contraction_conical_Crane", ccrane, _fix=dec, _atol=1e-13, **DD, **LA)
fric_id = lambda deg, A: bilin(deg, A, T["contraction_conical_angles_Idelchik"], T["contraction_conical_A_ratios_Idelchik"], T["contraction_conical_friction_Idelchik"])
def cc(Di1, Di2, fd=None, l=None, angle=None, Re=None, roughness=0.0, method="Rennels"):
    b = Di2/Di1
    if angle is not None: a = radians(angle); l = (Di1 - Di2)/(2*tan(a/2))
    elif l is not None: a = pi if l == 0 else 2*atan((Di1 - Di2)/(2*l))
    else: return BAD
    if method == "Rennels":
        if fd is None:
            if Re is None: return BAD
            fd = colebrook(Re, roughness/Di2)
        lb = 1 + .622*(a/pi)**.8*(1 - .215*b**2 - .785*b**5)
        return fd*(1 - b**4)/(8*sin(a/2)) + .0696*sin(a/2)*(1 - b**5)*lb**2 + (lb - 1)**2
    if method == "Crane": return ccrane(Di1, Di2, angle=degrees(a))
    if method == "Swamee": return .315*a**(1/3)
    if method == "Idelchik":
        K0 = bilin(degrees(a), l/Di2, T["entrance_beveled_Idelchik_angles"], T["entrance_beveled_Idelchik_l_Di"], T["entrance_beveled_Idelchik_dat"])
        return K0*(1 - b*b) + fric_id(degrees(a), b*b)
    if method == "Blevins": return bilin(l/Di2, 1/b**2, T["contraction_conical_l_ratios_Blevins"], T["contraction_conical_A_ratios_Blevins"], T["contraction_conical_Ks_Blevins"])
    if method == "Miller": return min(max(bispl(log(min(max(l/(Di2/2), .1), 10)), log(min(max(b**-2, 1.1), 4)), T["contraction_conical_Miller_tck"]), 0), .5)
    if method == "Hooper":
        if Re is None: return BAD
        return hoop_c(Di1, Di2, Re, fd, roughness)*(sqrt(sin(a/2)) if a > pi/4 else 1.6*sin(a/2))
    return BAD
s("contraction_conical", cc, fd=O(FD), Re=O(REC, .1), roughness=O(RO), method=M("Rennels", "Idelchik", "Crane", "Swamee", "Blevins", "Miller", "Hooper", none=False), _fix=dec, _n=5, _rtol=1e-8, _atol=1e-11, **DD, **LA)
def cbev(Di1, Di2, l, angle):
    a = radians(angle); b = Di2/Di1
    CB = l/Di2*2*b*tan(a/2)/(1 - b)
    lb = 1 + .622*(1 + CB*((a/pi)**.8 - 1))*(1 - .215*b**2 - .785*b**5)
    return .0696*(1 + CB*(sin(a/2) - 1))*(1 - b**5)*lb**2 + (lb - 1)**2
s("contraction_beveled", cbev, l=L(1e-4, 1), angle=U(1, 170), _fix=dec, _atol=1e-10, **DD)
# ---- expansions
def hoop_d(Di1, Di2, Re, fd, roughness):
    b = Di1/Di2
    if Re < 4000: return 2*(1 - b**4)
    if fd is None: fd = colebrook(Re, roughness/Di1)
    return (1 + .8*fd)*(1 - b*b)**2
def ds(Di1, Di2, Re=None, fd=None, roughness=0.0, method="Rennels"):
    if method == "Rennels": return (1 - (Di1/Di2)**2)**2
    if method == "Hooper": return BAD if Re is None else hoop_d(Di1, Di2, Re, fd, roughness)
    return BAD
s("diffuser_sharp", ds, fd=O(FD), Re=O(REC, .1), roughness=O(RO), method=M("Rennels", "Hooper", none=False), _fix=inc, _rtol=1e-8, **DD)
def dcrane(Di1, Di2, l=None, angle=None):
    b = Di1/Di2
    if angle is None:
        if l is None: return BAD
        angle = 180 if l == 0 else degrees(2*atan((Di2 - Di1)/(2*l)))
    return (2.6*sin(radians(angle)/2) if angle < 45 else 1)*(1 - b*b)**2
s("diffuser_conical_Crane", dcrane, _fix=inc, _atol=1e-13, **DD, **LA)
def dc(Di1, Di2, l=None, angle=None, fd=None, Re=None, roughness=0.0, method="Rennels"):
    method = method or "Rennels"
    b = Di1/Di2
    if l is not None: a = 2*atan((Di2 - Di1)/(2*l))
    elif angle is not None: a = radians(angle); l = (Di2 - Di1)/(2*tan(a/2))
    else: return BAD
    deg = degrees(a)
    if method == "Rennels":
        if fd is None:
            if Re is None: return BAD
            fd = colebrook(Re, roughness/Di2)
        fr = fd*(1 - b**4)/(8*sin(a/2)); q = (1 - b*b)**2
        if deg <= 20: return 8.3*tan(a/2)**1.75*q + fr
        if deg <= 60:
            k = 1.366*sqrt(sin(2*pi*(deg - 15)/180)) - .17
            return (k - 3.28*(.0625 - b**4)*sqrt((deg - 20)/40))*q + fr if b < .5 else k*q + fr
        if deg > 180: return BAD
        if b < .5: return (1.205 - 3.28*(.0625 - b**4) - 12.8*b**6*sqrt((deg - 60)/120))*q
        return (1.205 - .2*sqrt((deg - 60)/120))*q
    if method == "Crane": return dcrane(Di1, Di2, angle=deg)
    if method == "Miller": return max(0, bispl(log(min(max(l/(Di1/2), .1), 20)), log(min(max(b**-2, 1.1), 4)), T["tck_diffuser_conical_Miller"]))
    if method == "Idelchik": return fric_id(deg, b*b) + bispl(min(.6, b*b), max(3, deg), T["diffuser_conical_Idelchik_tck"])
    if method == "Swamee":
        r = Di2/Di1
        return (.25/a**3*(1 + .6/r**1.67*(pi - a)/a)**(.533*r - 2.6))**-.5
    if method == "Hooper":
        if Re is None: return BAD
        k = hoop_d(Di1, Di2, Re, fd, roughness)
        return k if a > pi/4 else 2.6*sin(a/2)*k
    return BAD
LB = dict(l=O(L(1e-3, 5), .5), angle=O(U(.5, 180), .5))
s("diffuser_conical", dc, fd=O(FD), Re=O(REC, .1), roughness=O(RO), method=M("Rennels", "Crane", "Miller", "Swamee", "Idelchik", "Hooper"), _fix=inc, _n=5, _rtol=1e-8, _atol=1e-11, **DD, **LB)
def staged(Di1, Di2, DEs, ls, fd=None, method="Rennels"):
    ds_ = [Di1, *DEs, Di2]
    t = 0
    for i in range(len(ds_) - 1):
        k = dc(ds_[i], ds_[i+1], l=ls[i], fd=fd, method=method)
        if k is BAD: return BAD
        t += k
    return t
def gst(r):
    n = r.randint(1, 4)
    d = [r.uniform(.01, .1)]
    for _ in range(n + 1): d.append(d[-1]*r.uniform(1.05, 2))
    a = dict(Di1=d[0], Di2=d[-1], DEs=d[1:-1], ls=[r.uniform(.01, .5) for _ in range(n + 1)])
    if r.random() < .9: a["fd"] = r.uniform(.005, .05)
    a["method"] = r.choice(("Rennels", "Crane", "Miller", "Swamee", "Idelchik"))
    return a
s("diffuser_conical_staged", staged, _gen=gst, _n=.4, _atol=1e-11)
s("diffuser_curved", lambda Di1, Di2, l: (1.01 - .624*(l/Di1) + .3*(l/Di1)**2 - .074*(l/Di1)**3 + .007*(l/Di1)**4)*(1.43 - 1.3*(Di1/Di2)**2)*(1 - (Di1/Di2)**2)**2, l=L(1e-3, 1), _fix=inc, _atol=1e-12, **DD)
def dpr(Di1, Di2, l, fd1, fd2=None):
    if fd2 is None: fd2 = fd1
    b = Di1/Di2; a = 2*atan((Di2 - Di1)/(1.2*l))
    return fd1*.2*l/Di1 + fd1*(1 - b)/(8*sin(a/2)) + fd2*.2*l/Di2*b**4
s("diffuser_pipe_reducer", dpr, l=L(1e-3, 5), fd1=FD, fd2=O(FD), _fix=inc, **DD)
def darby(NPS=None, Re=None, name=None, K1=None, Ki=None, Kd=None, Di=None):
    if Di is not None: NPS = lin(Di*1000, T["S40i"], T["NPS40"], True)
    if name is not None:
        if name not in T["Darby"]: return BAD
        K1, Ki, Kd = T["Darby"][name]
    if None in (NPS, Re, K1, Ki, Kd): return BAD
    return K1/Re + Ki*(1 + Kd/NPS**.3)
s("Darby3K", darby, NPS=O(L(.1, 60), .3), Re=O(RE, .05), name=O(C("no such fitting", *T["Darby"]), .3), K1=O(L(10, 3000), .15), Ki=O(L(.01, 10), .15), Kd=O(L(.1, 10), .15), Di=O(L(.004, 2), .5), _n=2)
def hooper(Di, Re, name=None, K1=None, Kinfty=None):
    if name is not None:
        if name not in T["Hooper"]: return BAD
        K1, Kinfty = T["Hooper"][name]
    if None in (K1, Kinfty): return BAD
    return K1/Re + Kinfty*(1 + 1/Di)
s("Hooper2K", hooper, Di=L(.1, 60), Re=RE, name=O(C("no such fitting", *T["Hooper"]), .3), K1=O(L(10, 3000), .15), Kinfty=O(L(.01, 10), .15), _n=2)
# ---------------------------------------------------------------- P07
s = adder(KV, "fittings")
W = L(1e-6, 1e6)
s("change_K_basis", lambda K1, D1, D2: K1*(D2/D1)**4, K1=Z(1e4, 1e-4), D1=D, D2=D)
# exact definitions: Cv in US gal/min at 1 psi, Kv in m3/h at 1 bar
CVKV = 60*231*.0254**3*sqrt(1e5/(.45359237*9.80665/.0254**2))    # m3/h per (gal/min), scaled from psi to bar
KVCV = 1/CVKV
s("Kv_to_Cv", lambda Kv: Kv*KVCV, Kv=W, _rtol=1e-12)
s("Cv_to_Kv", lambda Cv: Cv*CVKV, Cv=W, _rtol=1e-12)
s("Kv_to_K", lambda Kv, D: 1.6e9*D**4/Kv**2, Kv=W, D=D)
s("K_to_Kv", lambda K, D: 4e4*sqrt(D**4/K), K=W, D=D)
s("K_to_Cv", lambda K, D: KVCV*4e4*sqrt(D**4/K), K=W, D=D)
s("Cv_to_K", lambda Cv, D: 1.6e9*D**4/(Cv*CVKV)**2, Cv=W, D=D)
# ---------------------------------------------------------------- P08
s = adder(CR, "fittings")
def fdv(fd, D): return ft(D) if fd is None else fd
def vdec(a): return a if a["D1"] <= a["D2"] else dict(a, D1=a["D2"], D2=a["D1"])
VD = dict(D1=L(.005, 2), D2=L(.005, 2), fd=O(L(.005, .1)))
V_RT = 1e-4   # ft_Crane is documented as an approximation; tight when fd is given
def A(v, fd): return Approx(v, 1e-4) if fd is None else v
def gate(D1, D2, angle, fd=None, N=8, style_formula=True):
    f = fdv(fd, D2); b = D1/D2; a = radians(angle); q = 1 - b*b
    if a <= pi/4: v = (N*f + sin(a/2)*(.8*q + 2.6*q*q))/b**4
    else: v = (N*f + .5*sqrt(sin(a/2))*q + q*q)/b**4
    return A(v, fd)
def gate0(D1, D2, angle, fd=None):
    # documented: with beta = 1 or no taper the loss is that of the open valve itself
    if D1 == D2 or angle == 0: return A(8*fdv(fd, D2), fd)
    return gate(D1, D2, angle, fd)
def same(a):
    a = vdec(a)
    return a
def VDx(**k): return dict(VD, **k)
def samefix(a):
    """one case in eight has D1 == D2"""
    a = vdec(a)
    if int(a["D1"]*1e9) % 8 == 0: a = dict(a, D1=a["D2"])
    return a
s("K_gate_valve_Crane", gate0, angle=U(0, 180), _fix=samefix, **VD)
s("K_ball_valve_Crane", lambda D1, D2, angle, fd=None: gate(D1, D2, angle, fd, 3), angle=U(0, 180), _fix=samefix, **VD)
def f7(N, D1, D2, fd):
    f = fdv(fd, D2); b = D1/D2; q = 1 - b*b
    return A((N*f + b*(.5*q + q*q))/b**4, fd)
def f7_pinned(N, D1, D2, fd=None):
    f = fdv(fd, D2); b = D1/D2; q = 1 - b*b
    return (N*f + b*(.5*(1 - b)**2 + q*q))/b**4
def kn(N):
    def pred(a, got):
        if not isinstance(got, float): return False
        n = N(a.get("style", 0))
        return n is not None and a["D1"] != a["D2"] and abs(got/f7_pinned(n, a["D1"], a["D2"], a.get("fd")) - 1) < (1e-4 if "fd" not in a else 1e-9)
    return [("P08-globe-angle-crane-beta", pred)]
s("K_globe_valve_Crane", lambda D1, D2, fd=None: f7(340, D1, D2, fd), _fix=samefix, _known=kn(lambda st: 340), **VD)
ST = O(C(0, 1, 2, 3), .2)
def styl(tab): return lambda D1, D2, fd=None, style=0: f7(tab[style], D1, D2, fd) if style in tab else BAD
AV = {0: 55, 1: 150, 2: 55}
s("K_angle_valve_Crane", styl(AV), style=ST, _fix=samefix, _known=kn(lambda st: AV.get(st)), **VD)
s("K_globe_stop_check_valve_Crane", styl({0: 400, 1: 300, 2: 55}), style=ST, _fix=samefix, **VD)
s("K_angle_stop_check_valve_Crane", styl({0: 200, 1: 350, 2: 55}), style=ST, _fix=samefix, **VD)
s("K_lift_check_valve_Crane", lambda D1, D2, fd=None, angled=True: f7(55 if angled else 600, D1, D2, fd), angled=O(C(True, False)), _fix=samefix, **VD)
def plug(D1, D2, angle, fd=None, style=0):
    N = {0: 18, 1: 30, 2: 90}.get(style)
    if N is None: return BAD
    f = fdv(fd, D2); b = D1/D2; q = 1 - b*b
    return A((N*f + .5*sqrt(sin(radians(angle)/2))*q + q*q)/b**4, fd)
s("K_plug_valve_Crane", plug, angle=U(0, 180), style=ST, _fix=samefix, **VD)
D1v = dict(D=O(L(.005, 2), .2), fd=O(L(.005, .1)))
def one(tab, key="style", default=0):
    def ref(D=None, fd=None, **a):
        k = a.get(key, default)
        if D is None and fd is None or k not in tab: return BAD
        return A(tab[k]*fdv(fd, D), fd)
    return ref
s("K_swing_check_valve_Crane", one({True: 100, False: 50}, "angled", True), angled=O(C(True, False)), **D1v)
s("K_diaphragm_valve_Crane", one({0: 149, 1: 39}), style=ST, **D1v)
s("K_foot_valve_Crane", one({0: 420, 1: 75}), style=ST, **D1v)
def band(D): return 0 if D <= 9*.0254 else 1 if D <= 15*.0254 else 2
DV = dict(D=L(.02, 1.5), fd=O(L(.005, .1)))
s("K_tilting_disk_check_valve_Crane", lambda D, angle, fd=None: A(((40, 30, 20) if angle < 10 else (120, 90, 60))[band(D)]*fdv(fd, D), fd), angle=U(0, 30), _ties=False, **DV)   # 9 and 15 inches lie between the listed sizes
BV = {0: (45, 35, 25), 1: (74, 52, 43), 2: (218, 96, 55)}
s("K_butterfly_valve_Crane", lambda D, fd=None, style=0: A(BV[style][band(D)]*fdv(fd, D), fd) if style in BV else BAD, style=ST, _n=1.5, **DV)
LIFT = {"swing check angled": (45, 0), "swing check straight": (75, 0), "swing check UL": (120, 0), "lift check straight": (50, 1), "lift check angled": (170, 1),
  "tilting check 5°": (100, 0), "tilting check 15°": (40, 0), "stop check globe 1": (70, 1), "stop check angle 1": (95, 1), "stop check globe 2": (75, 1), "stop check angle 2": (75, 1),
  "stop check globe 3": (170, 1), "stop check angle 3": (170, 1), "foot valve poppet disc": (20, 0), "foot valve hinged disc": (45, 0)}
def vl(rho, D1=None, D2=None, style="swing check angled"):
    if style not in LIFT: return BAD
    N, full = LIFT[style]
    if full and (D1 is None or D2 is None): return Raises(Exception)
    return N*sqrt(1/rho)*((D1/D2)**2 if full else 1)
s("v_lift_valve_Crane", vl, rho=L(.1, 3000), D1=O(L(.005, 2), .05), D2=O(L(.005, 2), .05), style=O(C("none", *LIFT), .05))
CL = {"GATE_VALVE": lambda a, b, g, f: gate0(a, b, g, f), "GLOBE_VALVE": lambda a, b, g, f: OneOf(f7(340, a, b, f), f7_pinned(340, a, b, f)),
 "ANGLE_VALVE_0": lambda a, b, g, f: f7_pinned(55, a, b, f), "ANGLE_VALVE_1": lambda a, b, g, f: f7_pinned(150, a, b, f), "ANGLE_VALVE_2": lambda a, b, g, f: f7_pinned(55, a, b, f),
 "SWING_CHECK_VALVE": lambda a, b, g, f: 50*fdv(f, b), "SWING_CHECK_VALVE_ANGLED": lambda a, b, g, f: 100*fdv(f, b),
 "LIFT_CHECK_VALVE": lambda a, b, g, f: f7(600, a, b, f), "LIFT_CHECK_VALVE_ANGLED": lambda a, b, g, f: f7(55, a, b, f),
 "TILTING_CHECK_VALVE_5DEG": lambda a, b, g, f: (40, 30, 20)[band(b)]*fdv(f, b), "TILTING_CHECK_VALVE_15DEG": lambda a, b, g, f: (120, 90, 60)[band(b)]*fdv(f, b),
 "BALL_VALVE": lambda a, b, g, f: gate(a, b, g, f, 3), "DIAPHRAGM_VALVE_WEIR": lambda a, b, g, f: 149*fdv(f, b), "DIAPHRAGM_VALVE_STRAIGHT_THROUGH_WEIR": lambda a, b, g, f: 39*fdv(f, b),
 "FOOT_VALVE_POPPET_DISK": lambda a, b, g, f: 420*fdv(f, b), "FOOT_VALVE_HINGED_DISK": lambda a, b, g, f: 75*fdv(f, b)}
for i, (a1, a2) in enumerate(((400, 200), (300, 350), (55, 55))):
    CL["GLOBE_STOP_CHECK_VALVE_%d" % i] = lambda a, b, g, f, N=a1: f7(N, a, b, f)
    CL["ANGLE_STOP_CHECK_VALVE_%d" % i] = lambda a, b, g, f, N=a2: f7(N, a, b, f)
for i, nme in enumerate(("CENTRIC", "DOUBLE_OFFSET", "TRIPLE_OFFSET")): CL["BUTTERFLY_VALVE_" + nme] = lambda a, b, g, f, i=i: BV[i][band(b)]*fdv(f, b)
for i, nme in enumerate(("STRAIGHT_THROUGH", "3_WAY_STRAIGHT_THROUGH", "3_WAY_90_DEG")): CL["PLUG_VALVE_" + nme] = lambda a, b, g, f, i=i: plug(a, b, g, f, i)
def clc(D1, D2, angle, fitting, fd=None):
    k = fitting.replace("CRANE_", "")
    if k not in CL: return BAD
    v = CL[k](D1, D2, angle, fd)
    if isinstance(v, Approx) and fd is not None: v = v.v
    if "ANGLE_VALVE" in k or k == "GLOBE_VALVE":
        N = {"GLOBE_VALVE": 340, "ANGLE_VALVE_1": 150}.get(k, 55)
        return OneOf(f7(N, D1, D2, fd), Approx(f7_pinned(N, D1, D2, fd), 1e-4 if fd is None else 1e-9))
    return Approx(v, 1e-4) if fd is None and not isinstance(v, Approx) else v
s("Crane_loss_coefficient", clc, _ties=False, angle=U(0, 180), fitting=C("nothing", *("CRANE_" + k for k in CL)), _fix=samefix, _n=3, **VD)
def br(D_branch, D_run, Q_run, Q_branch): return (D_branch/D_run)**2, Q_branch/(Q_run + Q_branch)
def kbc(D_run, D_branch, Q_run, Q_branch, angle=90.0):
    b2, q = br(D_branch, D_run, Q_run, Q_branch)
    Cc = 1 if b2 <= .35 else .9*(1 - q) if q <= .4 else .55
    F = lin(angle, [30, 45, 60, 90], [1.74, 1.41, 1, 0])
    return Cc*(1 + (q/b2)**2 - 2*(1 - q)**2 - F/b2*q*q)
def krc(D_run, D_branch, Q_run, Q_branch, angle=90.0):
    b2, q = br(D_branch, D_run, Q_run, Q_branch)
    if angle >= 75: return 1.55*q - q*q
    return 1 - (1 - q)**2 - lin(angle, [30, 45, 60], [1.74, 1.41, 1])/b2*q*q
def kbd(D_run, D_branch, Q_run, Q_branch, angle=90.0):
    b2, q = br(D_branch, D_run, Q_run, Q_branch)
    H, J = (1, 2) if angle < 60 or sqrt(b2) <= 2/3 else (.3, 0)
    if angle < 75: G = ((1.1 - .7*q if q <= .4 else .85) if b2 <= .35 else (1 - .6*q if q <= .6 else .6))
    else: G = 1 if b2 <= 2/3 else 1 + .3*q*q
    return G*(1 + H*(q/b2)**2 - J*(q/b2)*cos(radians(angle)))
def krd(D_run, D_branch, Q_run, Q_branch, angle=90.0):
    b2, q = br(D_branch, D_run, Q_run, Q_branch)
    Mm = .4 if b2 <= .4 else 2*(2*q - 1) if q <= .5 else .3*(2*q - 1)
    return Mm*q*q
TEE = dict(D_run=L(.02, .5), D_branch=L(.02, .5), Q_run=L(1e-3, 1), Q_branch=L(1e-3, 1), angle=O(U(20, 120), .2))
def tfix(a): return a if a["D_branch"] <= a["D_run"] else dict(a, D_branch=a["D_run"], D_run=a["D_branch"])
for nme, r in (("K_branch_converging_Crane", kbc), ("K_run_converging_Crane", krc), ("K_branch_diverging_Crane", kbd), ("K_run_diverging_Crane", krd)):
    s(nme, r, _fix=tfix, _atol=1e-11, _n=1.5, **TEE)
