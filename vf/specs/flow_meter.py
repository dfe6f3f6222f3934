"""P09 flow-meter coefficients and pressure losses, P10 flow-meter solver"""
import json, os
from math import *
from ..dom import *
from ..lib import adder
from ..engine import Raises, OneOf, SKIP, Approx, Within, Err
from ..refs import lin, spl, bispl
T = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "flow_meter.json")))
S, SV = [], []
s = adder(S, "flow_meter")
BAD = Raises(ValueError)
D, Dl = L(.01, 2), L(.002, 2)
def order(a, small="Do"):
    if a[small] > a["D"]: a = dict(a, D=a[small], **{small: a["D"]})
    return a if a[small] < a["D"]*.995 else None
def pp(a):
    if a["P2"] > a["P1"]: a = dict(a, P1=a["P2"], P2=a["P1"])
    return a
def ok(small="Do"):
    return lambda a: (lambda b: b and pp(b))(order(a, small)) if "P1" in a else order(a, small)
P = L(1e4, 2e7)
SIMPLE = ("ISO 5167 orifice", "ISO 15377 eccentric orifice", "ISO 15377 conical orifice", "ISO 15377 quarter-circle orifice", "Miller orifice", "Miller eccentric orifice", "Miller segmental orifice", "Miller conical orifice", "Miller quarter circle orifice", "orifice", "eccentric orifice", "conical orifice", "segmental orifice", "quarter circle orifice", "unspecified meter", "Hollingshead venturi sharp", "Hollingshead venturi smooth", "Hollingshead orifice", "long radius nozzle", "ISA 1932 nozzle", "venturi nozzle", "as cast convergent venturi tube", "machined convergent venturi tube", "rough welded convergent venturi tube")
CONE, WEDGE = ("cone meter", "Hollingshead v cone"), ("wedge meter", "Hollingshead wedge")
ALL = SIMPLE + CONE + WEDGE
MT = C(*ALL, "no such meter")
def bcone(D, d): return sqrt((D - d)*(D + d))/D
def bwedge(D, H):
    th = 2*asin(sqrt(H/D))                     # half angle of the open segment
    return sqrt((th - sin(th)*cos(th))/pi)
def beta(D, d, mt):
    if mt in SIMPLE: return d/D
    if mt in CONE: return bcone(D, d)
    if mt in WEDGE: return bwedge(D, d)
    return None
s("differential_pressure_meter_beta", lambda D, D2, meter_type: BAD if beta(D, D2, meter_type) is None else beta(D, D2, meter_type), D=D, D2=Dl, meter_type=MT, _fix=ok("D2"), _rtol=1e-8)
s("diameter_ratio_cone_meter", bcone and (lambda D, Dc: bcone(D, Dc)), D=D, Dc=Dl, _fix=ok("Dc"))
s("diameter_ratio_wedge_meter", lambda D, H: bwedge(D, H), D=D, H=Dl, _fix=ok("H"), _rtol=1e-8)
def Q(D, Do, P1, P2, rho, C, expansibility=1.0, meter_type="ISO 5167 orifice"):
    b = beta(D, Do, meter_type)
    if b is None: return BAD
    A2, A1 = pi/4*(b*D)**2, pi/4*D**2
    return C*expansibility*A2*sqrt(2*rho*(P1 - P2)/(1 - (A2/A1)**2))
s("flow_meter_discharge", Q, D=D, Do=Dl, P1=P, P2=P, rho=L(.05, 2e3), C=U(.3, 1.1), expansibility=O(U(.2, 1)), meter_type=O(MT, .2), _fix=ok(), _rtol=1e-7, _n=1.5)
def eo(D, Do, P1, P2, k): b = Do/D; return 1 - (.351 + .256*b**4 + .93*b**8)*(1 - (P2/P1)**(1/k))
s("orifice_expansibility", eo, D=D, Do=Dl, P1=P, P2=P, k=U(1.01, 2), _fix=ok())
s("orifice_expansibility_1989", lambda D, Do, P1, P2, k: 1 - (.41 + .35*(Do/D)**4)*(P1 - P2)/k/P1, D=D, Do=Dl, P1=P, P2=P, k=U(1.01, 2), _fix=ok(), _atol=1e-12)
def en(D, Do, P1, P2, k, beta=None):
    b, t = (Do/D if beta is None else beta), P2/P1
    if abs(k - 1) < 1e-4 and k != 1: return SKIP       # documented floating-point noise
    if t > 1 - 1e-9: return 1.0 if t == 1 else SKIP
    x = -log(t)*(k - 1)/k
    g = (-expm1(-x)/x if x else 1.0)*(-log(t))           # -> k/(k-1)*(1 - t^((k-1)/k))
    return sqrt(t**(2/k)*(1 - b**4)/(1 - b**4*t**(2/k))*g/(1 - t))
def eqp(a):
    a = ok()(a)
    return a if a is None or int(a["P1"]*1000) % 12 else dict(a, P2=a["P1"])
s("nozzle_expansibility", en, D=D, Do=Dl, P1=P, P2=P, k=C(1.0, 1.2, 1.3, 1.4, 1.01, 1.1, 1.667, .95, 1.33, 2.0, 1.05), beta=O(U(.05, .98), .5), _fix=eqp, _rtol=1e-6, _n=1.5)
TAPS = C("corner", "flange", "D", "D/2", "D and D/2", "pipe", "vena contracta", "nowhere")
def reD(D, rho, mu, m): return 4*m/(pi*D*mu)
def rhg(D, Do, rho, mu, m, taps="corner"):
    b, Re = Do/D, reD(D, rho, mu, m)
    if taps == "corner": L1 = L2 = 0
    elif taps == "flange": L1 = L2 = .0254/D
    elif taps in ("D", "D/2", "D and D/2"): L1, L2 = 1, .47
    else: return BAD
    A, M2 = (19000*b/Re)**.8, 2*L2/(1 - b)
    C = .5961 + .0261*b**2 - .216*b**8 + .000521*(1e6*b/Re)**.7
    C += (.0188 + .0063*A)*b**3.5*max((1e6/Re)**.3, 22.7 - .0047*Re)
    C += (.043 + .08*exp(-10*L1) - .123*exp(-7*L1))*(1 - .11*A)*b**4/(1 - b**4)
    C -= .031*(M2 - .8*M2**1.1)*b**1.3*(1 + 8*max(log10(3700/Re), 0))
    if D < .07112: C += .011*(.75 - b)*(2.8 - D/.0254)
    return C
FL = dict(rho=L(.1, 1500), mu=L(1e-6, .1), m=L(1e-3, 1e3))
def okr(small="Do"):
    g = ok(small)
    def f(a):
        a = g(a)
        if a is None: return None
        Re = reD(a["D"], a["rho"], a["mu"], a["m"])
        if not 20 < Re < 1e9:
            R = exp(log(50) + (hash(round(a["m"]*1e6)) % 997)/997*log(2e6))
            a = dict(a, m=R*pi/4*a["D"]*a["mu"])
        return a
    return f
s("C_Reader_Harris_Gallagher", rhg, D=D, Do=Dl, taps=O(TAPS), **FL, _fix=okr(), _rtol=1e-8, _n=2, _atol=1e-9)
ECC = {("flange", "180 degree", 0): ((.5917, .3061, .3406, -.1019, -.2715), (7.3, -15.7, 170.8, -399.7, 332.2)),
       ("flange", "180 degree", 1): ((.6016, .3312, -1.5581, .6510, -.7308), (-139.7, 1328.8, -4228.2, 5691.9, -2710.4)),
       ("flange", "90 degree", 0): ((.5866, .3917, .7586, -.2273, -.3343), (69.1, -469.4, 1245.6, -1287.5, 486.2)),
       ("flange", "90 degree", 1): ((.6037, .1598, -.2918, .0244, -.0790), (-103.2, 898.3, -2557.3, 2977.0, -1131.3)),
       ("vena contracta", "180 degree", 0): ((.5925, .3380, .4016, -.1046, -.3212), (23.3, -207.0, 821.5, -1388.6, 900.3)),
       ("vena contracta", "180 degree", 1): ((.5922, .3932, .3412, -.0569, -.4628), (55.7, -471.4, 1721.8, -2722.6, 1569.4)),
       ("vena contracta", "90 degree", 0): ((.5875, .3813, .6898, -.1963, -.3366), (-69.3, 556.9, -1332.2, 1303.7, -394.8)),
       ("vena contracta", "90 degree", 1): ((.5949, .4078, .0547, .0955, -.5608), (52.8, -434.2, 1571.2, -2460.9, 1420.2))}
SEG = {("flange", 0): (.6284, .1462, -.8464, .2603, -.2886), ("flange", 1): (.6276, .0828, .2739, -.0934, -.1132),
       ("vena contracta", 0): (.6261, .1851, -.2879, .1170, -.2845), ("vena contracta", 1): (.6276, .0828, .2739, -.0934, -.1132)}
def five(c, b): return c[0] + c[1]*b**2.1 + c[2]*b**8 + c[3]*b**4/(1 - b**4) + c[4]*b**3
def miller(D, Do, rho, mu, m, subtype="orifice", taps="corner", tap_position="180 degree"):
    b, Re, mm = Do/D, reD(D, rho, mu, m), 1000*D
    big = int(D >= .1)
    sub = subtype.replace("Miller ", "")
    if subtype.count("Miller") > 1: return BAD
    if sub == "orifice":
        base = .5959 + .0312*b**2.1 - .184*b**8
        x = b**4/(1 - b**4)
        if taps == "corner": c = base
        elif taps == "flange": c = base + (2.286*x/mm if mm >= 58.4 else .039*x) - .856*b**3/mm
        elif taps == "D and D/2": c = base + .039*x - .01584
        elif taps == "pipe": c = .5959 + .461*b**2.1 + .48*b**8 + .039*x
        else: return BAD
        return c + 91.706*b**2.5/Re**.75
    if sub == "eccentric orifice":
        k = (taps, tap_position, big)
        if k not in ECC: return BAD
        return five(ECC[k][0], b) + sum(v*b**i for i, v in enumerate(ECC[k][1]))/Re**.75
    if sub == "segmental orifice": return five(SEG[(taps, big)], b) if (taps, big) in SEG else BAD
    if sub == "conical orifice": return .734 if 250*b <= Re <= 500*b else .73
    if sub == "quarter circle orifice": return .7746 - .1334*b**2.1 + 1.4098*b**8 + .0675*b**4/(1 - b**4) + .3865*b**3
    return BAD
SUB = C("orifice", "eccentric orifice", "segmental orifice", "conical orifice", "quarter circle orifice", "Miller orifice", "Miller eccentric orifice", "Miller segmental orifice", "Miller conical orifice", "Miller quarter circle orifice", "eccentric orifice", "Miller eccentric orifice", "odd orifice")
s("C_Miller_1996", miller, D=D, Do=Dl, subtype=O(SUB, .1), taps=O(C("corner", "flange", "flange", "vena contracta", "vena contracta", "D and D/2", "pipe", "D", None), .1), tap_position=O(C("180 degree", "90 degree", "90 degree", "45 degree", None), .3), **FL, _fix=okr(), _n=5, _rtol=1e-9, _atol=1e-10)
s("C_Miller_1996", miller, D=D, Do=Dl, subtype=C("conical orifice", "Miller conical orifice"), **dict(FL, m=L(1e-6, 10)), _fix=ok())
cecc = lambda D, Do: .9355 - 1.6889*(Do/D) + 3.0428*(Do/D)**2 - 1.7989*(Do/D)**3
cqc = lambda D, Do: .73823 + .3309*(Do/D) - 1.16158*(Do/D)**2 + 1.5084*(Do/D)**3
s("C_eccentric_orifice_ISO_15377_1998", cecc, D=D, Do=Dl, _fix=ok(), _n=.3)
s("C_quarter_circle_orifice_ISO_15377_1998", cqc, D=D, Do=Dl, _fix=ok(), _n=.3)
def c2k(D, Do, C): b = Do/D; return (sqrt(1 - b**4*(1 - C*C))/(C*b*b) - 1)**2
s("discharge_coefficient_to_K", c2k, D=D, Do=Dl, C=U(.3, 1), _fix=ok(), _atol=1e-12)
def k2c_post(a, got):      # inverse: the C returned reproduces K through the forward definition
    b = a["Do"]/a["D"]
    if not got > 0 or 1 - b**4*(1 - got*got) < 0: return "bad C %r" % got
    r = sqrt(1 - b**4*(1 - got*got))/(got*b*b)
    return None if abs(r - 1 - sqrt(a["K"])) <= 1e-7*(1 + sqrt(a["K"])) else "K %r from C %r" % ((r - 1)**2, got)
s("K_to_discharge_coefficient", lambda D, Do, K: sqrt((1 - (Do/D)**4)/(2*sqrt(K) + K))/(Do/D)**2, D=D, Do=Dl, K=L(1e-3, 1e5), _fix=ok(), _post=k2c_post)
def dpo(D, Do, P1, P2, C): b = Do/D; r = sqrt(1 - b**4*(1 - C*C)); return (r - C*b*b)/(r + C*b*b)*(P1 - P2)
s("dP_orifice", dpo, D=D, Do=Dl, P1=P, P2=P, C=U(.3, 1), _fix=ok(), _rtol=1e-8, _atol=1e-6)
s("velocity_of_approach_factor", lambda D, Do: (1 - (Do/D)**4)**-.5, D=D, Do=Dl, _fix=ok(), _n=.3)
s("flow_coefficient", lambda D, Do, C: C*(1 - (Do/D)**4)**-.5, D=D, Do=Dl, C=U(.1, 1), _fix=ok(), _n=.3)
clr = lambda D, Do, rho, mu, m: .9965 - .00653*sqrt(Do/D)*sqrt(1e6/reD(D, rho, mu, m))
s("C_long_radius_nozzle", clr, D=D, Do=Dl, **FL, _fix=okr(), _n=.5, _atol=1e-10)
def cisa(D, Do, rho, mu, m): b = Do/D; return .99 - .2262*b**4.1 - (.00175*b**2 - .0033*b**4.15)*(1e6/reD(D, rho, mu, m))**1.15
s("C_ISA_1932_nozzle", cisa, D=D, Do=Dl, **FL, _fix=okr(), _n=.5, _atol=1e-10)
cvn = lambda D, Do: .9858 - .196*(Do/D)**4.5
s("C_venturi_nozzle", cvn, D=D, Do=Dl, _fix=ok(), _n=.3)
def dpv(D, Do, P1, P2):
    b = Do/D
    return lin(D, T["D_bound_venturi_tube"], [lin(b, T["venturi_tube_betas"], T["venturi_tube_dP_high"]), lin(b, T["venturi_tube_betas"], T["venturi_tube_dP_low"])])*(P1 - P2)
s("dP_venturi_tube", dpv, D=D, Do=Dl, P1=P, P2=P, _fix=ok(), _n=1.5)
ecn = lambda D, Dc, P1, P2, k: 1 - (.649 + .696*bcone(D, Dc)**4)*(P1 - P2)/k/P1
s("cone_meter_expansibility_Stewart", ecn, D=D, Dc=Dl, P1=P, P2=P, k=U(1.01, 2), _fix=ok("Dc"), _atol=1e-10, _n=.5)
dpc = lambda D, Dc, P1, P2: (1.09 - .813*bcone(D, Dc))*(P1 - P2)
s("dP_cone_meter", dpc, D=D, Dc=Dl, P1=P, P2=P, _fix=ok("Dc"), _n=.5)
def cwm(D, H):
    x = 1 - bwedge(D, H)**2
    return .7883 + .107*x if D <= .7*.0254 else .6143 + .718*x if D <= 1.4*.0254 else .5433 + .2453*x
s("C_wedge_meter_Miller", cwm, D=L(.005, 1), H=L(.001, .5), _fix=ok("H"))
cwi = lambda D, H: .77 - .09*bwedge(D, H)
s("C_wedge_meter_ISO_5167_6_2017", cwi, D=D, H=Dl, _fix=ok("H"), _n=.4)
dpw = lambda D, H, P1, P2: (1.09 - .79*bwedge(D, H))*(P1 - P2)
s("dP_wedge_meter", dpw, D=D, H=Dl, P1=P, P2=P, _fix=ok("H"), _n=.5)
def frg(mg, rhog, rhol, D): return 4*mg/(rhog*pi*D**2)/sqrt(9.80665*D)*sqrt(rhog/(rhol - rhog))
def cwet(mg, ml, rhog, rhol, D, Do, H=1):
    X = ml/mg*sqrt(rhog/rhol)
    return 1 - .0463*exp(-.05*frg(mg, rhog, rhol, D)/(Do/D)**2.5)*min(1, sqrt(X/.016))
WET = dict(mg=L(.01, 100), ml=L(1e-5, 10), rhog=L(.5, 100), rhol=L(200, 1500), D=D, Do=Dl)
s("C_Reader_Harris_Gallagher_wet_venturi_tube", cwet, H=O(C(1, 1.35, .79, 1)), **WET, _fix=ok())
def dpwet(D, Do, P1, P2, ml, mg, rhol, rhog, H=1):
    X, F = ml/mg*sqrt(rhog/rhol), frg(mg, rhog, rhol, D)
    Ym = .61*exp(-11*rhog/rhol - .045*F/H)
    return (P1 - P2)*(Ym*-expm1(-35*X**.75*exp(-.28*F/H)) + .0896 + .48*(Do/D)**9)
s("dP_Reader_Harris_Gallagher_wet_venturi_tube", dpwet, H=O(C(1, 1.35, .79, 1)), P1=P, P2=P, **WET, _fix=ok())
# ---- dispatchers
def hre(D, rho, mu, m): return log(reD(D, rho, mu, m))
CANON = {"orifice": "ISO 5167 orifice", "eccentric orifice": "ISO 15377 eccentric orifice", "conical orifice": "ISO 15377 conical orifice", "quarter circle orifice": "ISO 15377 quarter-circle orifice", "segmental orifice": "Miller segmental orifice"}
def Ceps(D, D2, m, P1, P2, rho, mu, k, meter_type, taps=None, tap_position=None, C_specified=None, epsilon_specified=None):
    mt = CANON.get(meter_type, meter_type)
    if mt not in ALL: return BAD
    a5 = dict(D=D, Do=D2, rho=rho, mu=mu, m=m)
    if mt == "ISO 5167 orifice": c = rhg(taps=taps or "corner", **a5)
    elif mt == "ISO 15377 eccentric orifice": c = cecc(D, D2)
    elif mt == "ISO 15377 quarter-circle orifice": c = cqc(D, D2)
    elif mt == "ISO 15377 conical orifice": c = .734
    elif mt.startswith("Miller"): c = miller(subtype=mt, taps=taps, tap_position=tap_position, **a5)
    elif mt == "long radius nozzle": c = clr(**a5)
    elif mt == "ISA 1932 nozzle": c = cisa(**a5)
    elif mt == "venturi nozzle": c = cvn(D, D2)
    elif mt == "as cast convergent venturi tube": c = .984
    elif mt == "machined convergent venturi tube": c = .995
    elif mt == "rough welded convergent venturi tube": c = .985
    elif mt == "cone meter": c = .82
    elif mt == "wedge meter": c = cwi(D, D2)
    elif mt == "Hollingshead orifice": c = bispl(D2/D, hre(D, rho, mu, m), T["orifice_std_Hollingshead_tck"])
    elif mt == "Hollingshead venturi smooth": c = lin(hre(D, rho, mu, m), T["venturi_logRes_Hollingshead"], T["venturi_smooth_Cs_Hollingshead"], True)
    elif mt == "Hollingshead venturi sharp": c = lin(hre(D, rho, mu, m), T["venturi_logRes_Hollingshead"], T["venturi_sharp_Cs_Hollingshead"], True)
    elif mt == "Hollingshead v cone": c = bispl(bcone(D, D2), hre(D, rho, mu, m), T["cone_Hollingshead_tck"])
    elif mt == "Hollingshead wedge": c = bispl(bwedge(D, D2), hre(D, rho, mu, m), T["wedge_Hollingshead_tck"])
    elif mt == "unspecified meter": c = BAD if C_specified is None else C_specified
    if c is BAD: return BAD
    if mt in CONE: e = ecn(D, D2, P1, P2, k)
    elif mt in WEDGE: e = en(D, D2, P1, P2, k, bwedge(D, D2))
    elif "conical" in mt: e = .5*(eo(D, D2, P1, P2, k) + en(D, D2, P1, P2, k)) if en(D, D2, P1, P2, k) is not SKIP else SKIP
    elif "orifice" in mt or mt == "unspecified meter": e = eo(D, D2, P1, P2, k)
    else: e = en(D, D2, P1, P2, k)
    if epsilon_specified is not None: e = epsilon_specified
    if C_specified is not None: c = C_specified
    if e is SKIP: return SKIP
    return (c, e)
s("differential_pressure_meter_C_epsilon", Ceps, D=D, D2=Dl, P1=P, P2=P, k=C(1.0, 1.1, 1.2, 1.3, 1.4, 1.5), meter_type=MT, taps=O(C("corner", "flange", "flange", "vena contracta", "D and D/2", "pipe"), .3), tap_position=O(C("180 degree", "90 degree"), .2),
  C_specified=O(U(.5, 1), .8), epsilon_specified=O(U(.5, 1), .8), **FL, _fix=okr("D2"), _n=8, _rtol=1e-6)
def mdp(D, D2, P1, P2, C=None, meter_type="ISO 5167 orifice"):
    if meter_type not in ALL: return BAD
    if meter_type in CONE: return dpc(D, D2, P1, P2)
    if meter_type in WEDGE: return dpw(D, D2, P1, P2)
    if meter_type == "venturi nozzle": return Raises(NotImplementedError)
    if "venturi" in meter_type: return dpv(D, D2, P1, P2)
    if meter_type == "unspecified meter": return BAD
    return BAD if C is None else dpo(D, D2, P1, P2, C)
s("differential_pressure_meter_dP", mdp, D=D, D2=Dl, P1=P, P2=P, C=O(U(.4, 1), .2), meter_type=O(MT, .1), _fix=ok("D2"), _n=4, _rtol=1e-8, _atol=1e-6)

# ---- solver: feasible states are constructed with the references above, one quantity is withheld
VALID = [(m, t, p) for m in ALL for t in ("corner", "flange", "D and D/2", "pipe", "vena contracta") for p in ("180 degree", "90 degree")
         if (lambda m: not ("Miller" in m and Ceps(.2, .1, 1., 2e5, 1.9e5, 1000., 1e-3, 1.3, m, t, p) is BAD) and not (m == "ISO 5167 orifice" and t not in ("corner", "flange", "D and D/2")))(CANON.get(m, m))
         and (("Miller" in CANON.get(m, m)) or CANON.get(m, m) == "ISO 5167 orifice" and p == "180 degree" or (t, p) == ("corner", "180 degree"))]
def resid(a):
    """relative error of the flow equation at the state a"""
    k = a.get("k"); k = 1.4 if k is None else k
    ce = Ceps(a["D"], a["D2"], a["m"], a["P1"], a["P2"], a["rho"], a["mu"], k, a["meter_type"], a.get("taps"), a.get("tap_position"), a.get("C_specified"), a.get("epsilon_specified"))
    return Q(a["D"], a["D2"], a["P1"], a["P2"], a["rho"], ce[0], ce[1], a["meter_type"])/a["m"] - 1
BR = {"Hollingshead orifice": (.5, .7), "Hollingshead v cone": (.6611, .8203), "Hollingshead wedge": (.5023, .611)}
def state(r):
    while 1:
        mt, taps, pos = r.choice(VALID)
        D = exp(r.uniform(log(.04), log(1.2)))
        lo, hi = BR.get(mt, (.25, .75) if mt not in CONE + WEDGE else (.35, .8))
        b = r.uniform(lo, hi)
        if mt in CONE: D2 = D*sqrt(1 - b*b)
        elif mt in WEDGE:
            x, y = 1e-3, .95
            for _ in range(60):
                z = .5*(x + y)
                if bwedge(1., z) < b: x = z
                else: y = z
            D2 = D*x
        else: D2 = D*b
        gas = r.random() < .5
        P1 = exp(r.uniform(log(8e4), log(1e7)))
        P2 = P1*(1 - 10**r.uniform(-3.5, log10(.24)))
        rho = P1/101325*r.uniform(.2, 3) if gas else r.uniform(500, 1500)
        mu = 10**r.uniform(-5.2, -4.5) if gas else 10**r.uniform(-4, 0)
        a = dict(D=D, D2=D2, P1=P1, P2=P2, rho=rho, mu=mu, k=r.choice((1.0, 1.1, 1.2, 1.3, 1.4, 1.667, 1.33)) , meter_type=mt)
        if "Miller" in mt or mt in ("orifice", "ISO 5167 orifice", "segmental orifice"):
            a["taps"] = taps
            if "ccentric" in mt or r.random() < .3: a["tap_position"] = pos
        if mt == "unspecified meter" or r.random() < .06: a["C_specified"] = r.uniform(.5, 1)
        if r.random() < .06:
            a["epsilon_specified"] = r.uniform(.6, 1)
            if r.random() < .5: del a["k"]
        m0 = Q(D, D2, P1, P2, rho, .7, 1.0, mt)
        try:
            xs = [m0*10**(-.6 + 1.2*i/12) for i in range(13)]
            f = [resid(dict(a, m=x)) for x in xs]
            ch = [i for i in range(12) if (f[i] > 0) != (f[i+1] > 0)]
            if len(ch) != 1: continue
            x, y = xs[ch[0]], xs[ch[0]+1]
            for _ in range(90):
                z = sqrt(x*y)
                if (resid(dict(a, m=z)) > 0) == (f[ch[0]] > 0): x = z
                else: y = z
            a["m"] = sqrt(x*y)
            if abs(resid(a)) > 1e-9: continue
            if reD(D, rho, mu, a["m"]) < (2000 if "Holl" not in mt else 20): continue
            c, e = Ceps(D, D2, a["m"], P1, P2, rho, mu, a.get("k", 1.4), mt, a.get("taps"), a.get("tap_position"))if mt != "unspecified meter" else (a["C_specified"], 1)
            if not (.45 if "Holl" not in mt else .15) < c < 1.25: continue
        except (ValueError, ArithmeticError, TypeError, IndexError): continue
        return a
def gen(unk):
    def g(r):
        a = state(r); a["_t"] = a[unk]; 
        if r.random() < .5: a[unk] = None
        else: del a[unk]
        return a
    return g
def target(unk):
    def f(_t, **a):
        from fluids.flow_meter import differential_pressure_meter_solver as g
        return g(**a)
    return f
def chk(unk):
    def post(a, got):
        if isinstance(got, Err): return "%r though %s=%r solves it" % (got, unk, a["_t"])
        try: g = float(got)
        except Exception: return "not a number: %r" % (got,)
        b = {k: v for k, v in a.items() if k != "_t"}; b[unk] = g
        if not g > 0: return "%s = %r" % (unk, g)
        if unk == "D2" and not g < a["D"]: return "D2 %r not inside D" % g
        if unk in ("P1", "P2") and not b["P1"] > b["P2"]: return "pressures %r, %r" % (b["P1"], b["P2"])
        # sensitivity of the residual at the returned point sets what 1e-6 of the answer is worth
        try:
            r0 = resid(b)
            if isinstance(r0, complex): raise ValueError
            if unk in ("P1", "P2"):
                dP = b["P1"] - b["P2"]
                tol = 1e-5 + 1e-6*b["P1"]/dP
            else: tol = 1e-5
        except (ValueError, ArithmeticError, TypeError) as e: return "returned %r, where the flow equation has no value" % g
        if abs(r0) <= tol: return None
        for e in (1e-7, -1e-7, 1e-6, -1e-6):
            if (resid(dict(b, **{unk: g*(1 + e)})) > 0) != (r0 > 0): return None
        return "%s=%r leaves the flow equation off by %.3g (a solution is %r)" % (unk, g, r0, a["_t"])
    return post
ss = adder(SV, "flow_meter")
for u in ("m", "D2", "P2", "P1"):
    ss("differential_pressure_meter_solver", None, _target=target(u), _gen=gen(u), _post=chk(u), _n=1)
    SV[-1].name += ":" + u
def badg(r):
    a = state(r); n = r.sample(("m", "D2", "P1", "P2"), r.choice((0, 2, 3)))
    for x in n: a[x] = None
    return a
ss("differential_pressure_meter_solver", lambda **a: BAD, _gen=badg, _n=.1)
SV[-1].name += ":misuse"; SV[-1].target = "flow_meter.differential_pressure_meter_solver"
