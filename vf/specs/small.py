"""P17 filters, separators, mixing, saltation, open-channel flow"""
import json, os
from math import *
from ..dom import *
from ..lib import adder
from ..engine import Raises, SKIP, Approx
from ..refs import lin, spl, poly
S = []
A = os.path.join(os.path.dirname(__file__), "..", "data", "%s.json")
D = {k: json.load(open(A % k)) for k in ("filters", "mixing", "open_flow", "separator")}
f, x, m, sa, o = (adder(S, k) for k in ("filters", "separator", "mixing", "saltation", "open_flow"))
BAD, G = Raises(ValueError), 9.80665
T = D["filters"]
# tables as published
def tables(mod, s):
    import importlib
    names = sorted(D[mod])
    def get(n):
        import fluids
        v = getattr(importlib.import_module("fluids." + mod), n)
        return json.loads(json.dumps(v, default=lambda q: q.tolist()))
    s("tables", lambda n: D[mod][n], n=C(*names), _target=get, _rtol=1e-15, _n=.01, _sites=False)
tables("mixing", m); tables("open_flow", o)
# screens and grills
def incl(angle, cut):
    if angle is None: return 1.0
    return cos(radians(angle))**2 if angle < 45 or (cut and angle == 45) else lin(angle, T["round_thetas"], T["round_gammas"])
def res(alpha, Re, angle=0.0): return lin(Re, T["round_Res"], T["round_betas"])*(1/alpha**2 - 1)*incl(angle, True)
ANG = O(C(0.0, 45.0, 85.0, 89.0, None), .2)
f("round_edge_screen", res, alpha=U(.02, .99), Re=L(1, 5e3), angle=O(U(0, 90), .3), _rtol=1e-8, _n=2)
f("round_edge_screen", res, alpha=U(.05, .8), Re=L(1, 5e3), angle=ANG, _n=.3)
ROM = {"round bar screen": (.95, .2), "diamond pattern wire": (.67, 1.3), "knotted net": (.7, 4.9), "knotless net": (.72, 2.1)}
def rom(alpha, subtype="diamond pattern wire", angle=0.0):
    if subtype not in ROM: return BAD
    a, b = ROM[subtype]; y = 1 - alpha
    return (a*y + b*y*y)*incl(angle, False)
f("round_edge_open_mesh", rom, alpha=U(.5, .999), subtype=O(C(*ROM, *ROM, *ROM, "mesh")), angle=O(U(0, 90), .3), _rtol=1e-8, _n=2)
f("square_edge_screen", lambda alpha: lin(alpha, T["square_alphas"], T["square_Ks"]), alpha=L(1e-3, 1), _n=2, _rtol=1e-8)
LG = dict(l=O(L(1e-3, 10)), Dh=O(L(1e-4, .2)), fd=O(L(.005, .1)))
def lng(l, Dh, fd): return None not in (l, Dh, fd) and l > 50*Dh
f("square_edge_grill", lambda alpha, l=None, Dh=None, fd=None: (.5*(1 - alpha) + 1 - alpha**2 + (fd*l/Dh if lng(l, Dh, fd) else 0))/alpha**2, alpha=U(.05, .999), **LG, _n=2)
f("round_edge_grill", lambda alpha, l=None, Dh=None, fd=None: Approx(spl(alpha, T["grills_rounded_tck"]) + (fd*l/Dh/alpha**2 if lng(l, Dh, fd) else 0), 1e-9, 1e-11), alpha=U(.3, .7), **LG, _n=2)
# separators
def wat(x, rhol, rhog, horizontal=False, method="spline"):
    X = log((1 - x)/x*sqrt(rhog/rhol))
    if method == "spline": k = exp(spl(X, D["separator"]["tck_Watkins"]))
    elif method == "blackwell": k = exp(poly([-.00101148518, -.0145228667, -.1870744085, -.81145804597, -1.877478097], X))
    elif method == "branan": k = exp(poly([.000259550, .000386235, -.0123790, -.179390, -.814894, -1.942936], X))
    else: return BAD
    return k*.3048*(1.25 if horizontal else 1)
def infac(a):
    t = (1 - a["x"])/a["x"]*sqrt(a["rhog"]/a["rhol"])
    return a if .0061 < t < 5.4 else None
x("K_separator_Watkins", wat, x=U(.01, .999), rhol=L(300, 2000), rhog=L(.1, 200), horizontal=O(C(True, False)), method=O(C("spline", "blackwell", "branan", "spline", "x"), .2), _fix=infac, _n=2, _rtol=1e-8)
def york(P, horizontal=False):
    p = P/6894.757293168361
    if min(abs(p/q - 1) for q in (1, 15, 40, 5500)) < 1e-12: return SKIP
    k = .1821 + .0029*max(p, 1) + .0460*log(max(p, 1)) if p < 15 else .35 if p < 40 else .430 - .023*log(min(p, 5500))
    return k*.3048*(1.25 if horizontal else 1)
x("K_separator_demister_York", york, P=L(1e3, 1e8), horizontal=O(C(True, False)), _n=2)
def dens(a): return a if a["rhol"] > a["rhog"]*1.0001 else None
for n in ("v_Souders_Brown", "v_Sounders_Brown"):
    x(n, lambda K, rhol, rhog: K*sqrt((rhol - rhog)/rhog), K=L(.01, 1), rhol=L(300, 2000), rhog=L(.1, 200), _fix=dens, _n=.5)
for n in ("K_Souders_Brown_theoretical", "K_Sounders_Brown_theoretical"):
    x(n, lambda D, Cd, g=G: sqrt(4*g*D/(3*Cd)), D=L(1e-6, .05), Cd=L(.05, 1e3), g=O(U(1, 20)), _n=.5)
# mixing
def agit(N, P, T, H, mu, rho, D=None, homogeneity=.95):
    D = .5*T if D is None else D
    c = (P*G/rho/N**3/D**5)**(1/3)*rho*D*D*N/mu
    if abs(c/6370 - 1) < 1e-9: return SKIP
    Fo = 5.2/c if c >= 6370 else (183/c)**2
    return Fo*rho*T**1.5*sqrt(H)/mu*log(1 - homogeneity)/log(.05)
m("agitator_time_homogeneous", agit, N=L(.1, 50), P=L(.1, 1e6), T=L(.1, 10), H=L(.1, 10), mu=L(1e-4, 50), rho=L(500, 2000), D=O(L(.05, 5)), homogeneity=O(U(.5, .9999)), _n=2)
m("adjust_homogeneity", lambda fraction: log1p(-fraction)/log(.05), fraction=U(.01, .9999), _n=.3)
m("Kp_helical_ribbon_Rieger", lambda D, h, nb, pitch, width, T: 82.8*h/D/(.5*(T - D)/D)**.38/(pitch/D)**.35*(width/D)**.2*nb**.78, D=L(.1, 5), h=L(.1, 8), nb=I(1, 4), pitch=L(.05, 5), width=L(.01, 1), T=L(.1, 8), _fix=lambda a: a if a["T"] > a["D"]*1.001 else None)
m("time_helical_ribbon_Grenville", lambda Kp, N: 896e3/N*Kp**-1.69, Kp=L(10, 2000), N=L(.01, 10), _n=.5)
TEE = {1: (1.33, .7, 1), 2: (1.44, .8, 1.5), 3: (1.75, .8, 1.8), 4: (1.97, 2, 2)}
def tee(Q1, Q2, D, D2=None, n=1, pipe_diameters=5):
    if n not in TEE: return BAD
    D2 = D*(Q2/Q1)**(2/3) if D2 is None else D2
    B = (n*Q2/Q1*D/D2)**2
    a, c, e = TEE[n]
    if abs(B/c - 1) < 1e-9: return SKIP
    E = a if B < c else a + .95*log(B/c)**e
    return sqrt(.32/B**.86/pipe_diameters**E)
m("size_tee", tee, Q1=L(.01, 50), Q2=L(.01, 50), D=L(.02, 3), D2=C(None) if 0 else Fn(lambda r: None if r.random() < .3 else exp(r.uniform(-4, 1))), n=O(C(1, 2, 3, 4, 1, 2, 3, 4, 5)), pipe_diameters=O(U(1, 20)), _n=3, _rtol=1e-8)
m("COV_motionless_mixer", lambda Ki, Q1, Q2, pipe_diameters: sqrt(Q1/Q2)*Ki**pipe_diameters, Ki=U(.2, .95), Q1=L(.01, 50), Q2=L(.01, 50), pipe_diameters=U(.5, 20), _rtol=1e-8)
m("K_motionless_mixer", lambda K, L, D, fd: K*fd*L/D, K=L(1, 500), L=L(.1, 20), D=L(.01, 2), fd=L(.005, .1), _n=.5)
# saltation
SD = dict(mp=L(.001, 100), rhop=L(300, 5000), dp=L(1e-5, 5e-3), rhog=L(.2, 50), D=L(.01, 1))
VT = O(L(.05, 20))
def mu1(mp, rhog, D): return mp/(pi/4*D*D)/rhog
def salt(a, n):   # V from mu/V = a*(V/sqrt(g D))^n
    return lambda mp, rhog, D: (mu1(mp, rhog, D)/a*sqrt(G*D)**n)**(1/(n + 1))
sa("Rizk", lambda mp, dp, rhog, D: exp((log(mu1(mp, rhog, D)) + (1440*dp + 1.96)*log(10) + (1100*dp + 2.5)*log(G*D)/2)/(1100*dp + 3.5)), **{k: SD[k] for k in ("mp", "dp", "rhog", "D")})
def mats(c, p, q):
    def r(mp, rhop, dp, rhog, D, Vterminal=1):
        return salt(c*(rhop/rhog)**p*(Vterminal/sqrt(G*dp)/10)**-q*.001, 3)(mp, rhog, D)
    return r
sa("Matsumoto_1974", mats(.448, .5, 1.75), **SD, Vterminal=VT)
sa("Matsumoto_1975", mats(1.11, .55, 2.3), **SD, Vterminal=VT)
def m77(mp, rhop, dp, rhog, D, Vterminal=1):
    ds = 1.39*D*(rhop/rhog)**-.74
    if abs(ds/dp - 1) < 1e-9: return SKIP
    if dp > ds: return salt(.373*(rhop/rhog)**1.06*(Vterminal/sqrt(G*dp)/10)**-3.7*10**-3.61, 3.61)(mp, rhog, D)
    return salt(5560*(dp/D)**1.43*1e-4, 4)(mp, rhog, D)
sa("Matsumoto_1977", m77, **SD, Vterminal=VT, _n=2)
sa("Schade", lambda mp, rhop, dp, rhog, D: exp((.11*log(mu1(mp, rhog, D)) + .025*log(D/dp) + .34*log(rhop/rhog) + .5*log(G*D))/1.11), **SD)
def web(mp, rhop, dp, rhog, D, Vterminal=4):
    return (sqrt(G*D)*(7 + 8/3*Vterminal if Vterminal <= 3 else 15)*mu1(mp, rhog, D)**.25*(dp/D)**.1)**.8
sa("Weber_saltation", web, **SD, Vterminal=VT, _n=2)
sa("Weber_saltation", web, **SD, Vterminal=C(3, 3.0, 2.9999999, 3.0000001), _n=.2)
def gel(mp, rhog, D, mug):
    g_ = mp/(pi/4*D*D)
    if abs(g_/D/47000 - 1) < 1e-9: return SKIP
    return (1.5*g_**.465*D**-.01 if g_/D < 47000 else 8.7*g_**.302*D**.153)*mug**.055/rhog**.42
sa("Geldart_Ling", gel, mp=SD["mp"], rhog=SD["rhog"], D=SD["D"], mug=L(5e-6, 5e-5), _n=2)
# weirs
AS = [20, 40, 60, 80, 100]
o("Q_weir_V_Shen", lambda h1, angle=90: lin(angle, AS, [.59, .58, .575, .575, .58])*tan(radians(angle/2))*sqrt(G)*(h1 + lin(angle, AS, [.0028, .0017, .0012, .001, .001]))**2.5, h1=L(.01, 2), angle=O(U(10, 120)), _n=2)
H3 = dict(h1=L(.01, 3), h2=L(.05, 5), b=L(.1, 20))
SG = sqrt(G)
o("Q_weir_rectangular_Kindsvater_Carter", lambda h1, h2, b: .554*(1 - .0035*h1/h2)*(b + .0025)*SG*(h1 + .0001)**1.5, **H3)
def sia(h1, h2, b, b1):
    k = b/b1
    return .544*(1 + .064*k*k + (.00626 - .00519*k*k)/(h1 + .0016))*(1 + .5*k**4*(h1/(h1 + h2))**2)*b*SG*(h1 + h2)**1.5
o("Q_weir_rectangular_SIA", sia, **H3, b1=L(.1, 40), _fix=lambda a: a if a["b1"] >= a["b"] else None)
o("Q_weir_rectangular_full_Ackers", lambda h1, h2, b: .564*(1 + .15*h1/h2)*b*SG*(h1 + .001)**1.5, **H3)
o("Q_weir_rectangular_full_SIA", lambda h1, h2, b: 2/3*sqrt(2)*(.615 + .000615/(h1 + .0016))*b*SG*h1 + .5*(h1/(h1 + h2))**2*b*SG*h1**1.5, **H3)
o("Q_weir_rectangular_full_Rehbock", lambda h1, h2, b: 2/3*sqrt(2)*(.602 + .0832*h1/h2)*b*SG*(h1 + .00125)**1.5, **H3)
o("Q_weir_rectangular_full_Kindsvater_Carter", lambda h1, h2, b: 2/3*sqrt(2)*(.602 + .075*h1/h2)*(b - .001)*SG*(h1 + .001)**1.5, **H3)
R_ = dict(Rh=L(.01, 20), S=L(1e-6, .2))
o("V_Manning", lambda Rh, S, n: Rh**(2/3)*S**.5/n, **R_, n=L(.005, .2))
o("V_Chezy", lambda Rh, S, C: C*(S*Rh)**.5, **R_, C=L(5, 150))
o("n_Manning_to_C_Chezy", lambda n, Rh: Rh**(1/6)/n, Rh=R_["Rh"], n=L(.005, .2))
o("C_Chezy_to_n_Manning", lambda C, Rh: Rh**(1/6)/C, Rh=R_["Rh"], C=L(5, 150))
def inv(n, Rh, S):
    import fluids.open_flow as q
    c = q.n_Manning_to_C_Chezy(n, Rh)
    return [q.C_Chezy_to_n_Manning(c, Rh), q.V_Chezy(Rh, S, c)/q.V_Manning(Rh, S, n)]
o("Chezy and Manning agree", lambda n, Rh, S: [n, 1.0], n=L(.005, .2), **R_, _target=inv, _n=.5)
