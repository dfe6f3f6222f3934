"""P05: sphere drag"""
from math import log, log10, exp, sqrt, tanh, expm1
from ..dom import *
from ..lib import adder
from ..engine import Spec, Raises, SKIP, Approx, Err, Within
S = []
s = adder(S, "drag")
g = 9.80665
lg = log10
D_ = {}
D_["Stokes"] = lambda R: 24/R
D_["Barati"] = lambda R: 5.4856e9*tanh(4.3774e-9/R) + .0709*tanh(700.6574/R) + .3894*tanh(74.1539/R) - .1198*tanh(7429.0843/R) + 1.7174*tanh(9.9851/(R + 2.3384)) + .4744
def bh(R):
    R = min(R, 1e6)
    return (8e-6*((R/6530)**2 + tanh(R) - 8*lg(R)) - .4119*exp(-2.08e43/(R + R*R)**4) - 2.1344*exp(-(lg(R*R + 10.7563)**2 + 9.9867)/R)
            + .1357*exp(-((R/1620)**2 + 10370)/R) - 8.5e-3*(2*lg(tanh(tanh(R))) - 2825.7162)/R + 2.4795)
D_["Barati_high"] = bh
D_["Rouse"] = lambda R: 24/R + 3/R**.5 + .34
D_["Engelund_Hansen"] = lambda R: 24/R + 1.5
D_["Clift_Gauvin"] = lambda R: 24/R*(1 + .152*R**.677) + .417/(1 + 5070/R**.94)
MA = ((.1, 24, 0, 0), (1, 22.73, .0903, 3.69), (10, 29.1667, -3.8889, 1.222), (100, 46.5, -116.67, .6167), (1000, 98.33, -2778, .3644), (5000, 148.62, -4.75e4, .357), (10000, -490.546, 57.87e4, .46), (1e99, -1662.5, 5.4167e6, .5191))
def ma(R):
    a, b, c = next(r[1:] for r in MA if R < r[0])
    return a/R + b/R/R + c
D_["Morsi_Alexander"] = ma
D_["Graf"] = lambda R: 24/R + 7.3/(1 + R**.5) + .25
D_["Flemmer_Banks"] = lambda R: 24/R*10**(.383*R**.356 - .207*R**.396 - .143/(1 + lg(R)**2))
D_["Khan_Richardson"] = lambda R: (2.49/R**.328 + .34*R**.067)**3.18
D_["Swamee_Ojha"] = lambda R: .5*(16*((24/R)**1.6 + (130/R)**.72)**2.5 + ((40000/R)**2 + 1)**-.25)**.25
D_["Yen"] = lambda R: 24/R*(1 + .15*R**.5 + .017*R) - .208/(1 + 1e4*R**-.5)
D_["Haider_Levenspiel"] = lambda R: 24/R*(1 + .1806*R**.6459) + .4251/(1 + 6880.95/R)
D_["Cheng"] = lambda R: 24/R*(1 + .27*R)**.43 + .47*(1 - exp(-.04*R**.38))
D_["Terfous"] = lambda R: 2.689 + 21.683/R + .131/R**2 - 10.616/R**.1 + 12.216/R**.2
D_["Mikhailov_Freire"] = lambda R: 3808*(1617933/2030 + 178861/1063*R + 1219/1084*R*R)/(681*R*(77531/422 + 13529/976*R - R*R/71154))
def clift(R):
    l = lg(R)
    for lim, f in ((.01, lambda: 24/R + 3/16), (20, lambda: 24/R*(1 + .1315*R**(.82 - .05*l))), (260, lambda: 24/R*(1 + .1935*R**.6305)),
        (1500, lambda: 10**(1.6435 - 1.1242*l + .1558*l*l)), (12000, lambda: 10**(-2.4571 + 2.5558*l - .9295*l*l + .1049*l**3)),
        (44000, lambda: 10**(-1.9181 + .637*l - .0636*l*l)), (338000, lambda: 10**(-4.339 + 1.5809*l - .1546*l*l)), (4e5, lambda: 29.78 - 5.3*l), (1e99, lambda: .19*l - .49)):
        if R < lim: return f()
D_["Clift"] = clift
D_["Ceylan"] = lambda R: 1 - .5*exp(.182) + 10.11*R**(-2/3)*exp(.952*R**-.25) - .03859*R**(-4/3)*exp(1.3*R**-.5) + .037e-4*R*exp(-.125e-4*R) - .116e-10*R*R*exp(-.444e-5*R)
def alm(R):
    p1 = (24/R)**10 + (21*R**-.67)**10 + (4*R**-.33)**10 + .4**10
    p2 = 1/((.148*R**.11)**-10 + .5**-10)
    p3 = (1.57e8*R**-1.625)**10
    p4 = 1/((6e-17*R**2.63)**-10 + .2**-10)
    return (1/(1/(p1 + p2) + 1/p3) + p4)**.1
D_["Almedeij"] = alm
D_["Morrison"] = lambda R: 24/R + 2.6*R/5/(1 + (R/5)**1.52) + .411*(R/263000)**-7.94/(1 + (R/263000)**-8) + R**.8/461000
def song(Re, sphericity=1.0, S=1.0): return 24/(Re*sphericity**.65*S**.3)*(1 + .35*Re)**.44
for k in sorted(D_): s(k, (lambda f: lambda Re: f(Re))(D_[k]), Re=L(1e-3, 1e6))
D_["Song_Xu"] = song
s("Song_Xu", song, Re=L(1e-3, 1e6), sphericity=O(L(.3, 1)), S=O(L(.3, 1)))
def auto(Re):
    if Re < .01: return 24/Re
    if Re < .1:
        t = (Re - .01)/.09
        return t*D_["Barati"](Re) + (1 - t)*24/Re
    return D_["Barati"](Re) if Re <= 212963.26847812787 else bh(Re)
def drag(Re, Method=None):
    if Method is None: return auto(Re)
    return D_[Method](Re) if Method in D_ else Raises(ValueError)
s("drag_sphere", drag, Re=L(1e-4, 1e6), Method=O(C(None, "unknown", *D_)), _n=4)
part = dict(D=L(1e-6, .05), rhop=L(1001, 2e4), rho=L(.5, 1000), mu=L(1e-6, 1))
def vlam(a): return g*a["D"]**2*(a["rhop"] - a["rho"])/18/a["mu"]
METH = ("Rouse", "Clift_Gauvin", "Graf", "Khan_Richardson", "Swamee_Ojha", "Haider_Levenspiel", "Cheng", "Stokes", "Morrison", "Almedeij")
RMAX = dict.fromkeys(METH, 2e5); RMAX.update(Morrison=1e6, Almedeij=1e6, Swamee_Ojha=1.5e5, Stokes=1e99); RMAX[None] = 1e6
def vt_res(a, V): # > 0 when the weight exceeds the drag at V
    Cd = drag(a["rho"]*a["D"]*V/a["mu"], a.get("Method"))
    return 4/3*g*a["D"]*(a["rhop"] - a["rho"])/a["rho"]/Cd/V/V - 1
def vpost(a, V):
    M = a.get("Method")
    k = a["rho"]*a["D"]/a["mu"]
    v0 = vlam(a)
    if k*v0 < .01*(1 - 1e-9) or M == "Stokes":
        if isinstance(V, Err) or abs(V/v0 - 1) > 1e-9: return "laminar terminal velocity %r, got %r" % (v0, V)
        return None
    if k*v0 < .01*(1 + 1e-9): return SKIP
    try: inside = vt_res(a, RMAX[M]*.9/k) < 0      # balance is reached inside the correlation's range
    except Exception: return SKIP
    if not inside: return SKIP
    if isinstance(V, Err): return "no terminal velocity found: %r" % V
    if isinstance(V, complex) or not V > 0: return "terminal velocity %r" % V
    if k*V > RMAX[M]: return "Re of the solution %r out of range" % (k*V)
    r = vt_res(a, V)
    if abs(r) > 1e-6 and vt_res(a, V*(1 - 1e-7))*vt_res(a, V*(1 + 1e-7)) > 0: return "weight and drag differ by %r at V=%r" % (r, V)
s("v_terminal", None, **part, Method=O(C(None, *METH)), _post=vpost, _n=3)
def tts(D, rhop, rho, mu, V0, tol=1e-14):
    tau = D*D*rhop/18/mu; v = g*D*D*(rhop - rho)/18/mu
    n = abs(v - V0)/(v*tol)
    t = tau*log(n)
    if abs(v - V0) < 1e-3*v: return SKIP
    if tol < 1e-9: return Within(t - 8*tau, t + 5.0*tau)      # the difference from the final velocity is of rounding size
    return Approx(t, 1e-5)
s("time_v_terminal_Stokes", tts, D=L(1e-6, 1e-3), rhop=L(1001, 2e4), rho=L(.5, 1000), mu=L(1e-6, 1), V0=Z(10, 1e-6), tol=O(L(1e-9, 5e-3)), _hull=False)
def traj(a):
    D, rhop, rho, mu, t = (a[k] for k in ("D", "rhop", "rho", "mu", "t"))
    V0 = a.get("V", 0.0); M = a.get("Method")
    from scipy.integrate import solve_ivp
    k = rho*D/mu
    if M == "Stokes" or (M is None and k*V0 < .01 and k*vlam(a) < .01):
        al = 18*mu/D/D/rhop; b = g*(rhop - rho)/rhop
        at = al*t
        V = V0*exp(-at) - b/al*expm1(-at)
        x = -(V0/al)*expm1(-at) + b/al*(t + expm1(-at)/al)
        return V, x, 4e-15*(V0/al + b/al/al), 1e-15*b/al
    f = lambda t, y: [g*(rhop - rho)/rhop - .75*rho/D/rhop*y[0]*y[0]*drag(k*y[0], M) if y[0] > 1e-250 else g*(rhop - rho)/rhop, y[0]]
    r = solve_ivp(f, (0, t), [V0, 0.0], method="LSODA", rtol=1e-9, atol=1e-13)
    return r.y[0, -1], r.y[1, -1], None, None
def ipost(a, got):
    k = a["rho"]*a["D"]/a["mu"]
    M = a.get("Method")
    V0 = a.get("V", 0.0)
    try:
        if not (vt_res(a, RMAX[M]*.5/k) < 0 and k*V0 < RMAX[M]*.5): return SKIP
    except Exception: return SKIP
    lam = k*vlam(a)
    if abs(lam - .01) < 1e-9 or abs(k*V0 - .01) < 1e-9: return SKIP
    V, x, xa, va = traj(a)
    if isinstance(got, Err): return "trajectory raised %r" % got
    if a.get("distance"):
        gv, gx = got
        if xa is not None: tolx = xa + 1e-7*abs(x) + 1e-8*abs(x)
        else: tolx = 1e-4*abs(x) + (abs(V0 - V) + abs(V))*a["t"]/800
        if abs(gx - x) > tolx: return "distance %r, equation of motion %r" % (gx, x)
    else: gv = got
    if abs(gv - V) > 1e-5*abs(V) + (va if va is not None else 3e-7): return "velocity %r, equation of motion %r" % (gv, V)
s("integrate_drag_sphere", None, D=L(1e-6, .02), rhop=L(1001, 1e4), rho=L(.5, 1000), mu=L(1e-6, 1), t=L(1e-3, 30), V=O(Z(30, 1e-4)), Method=O(C(None, "Stokes", "Rouse", "Morrison", "Haider_Levenspiel"), .6), distance=O(C(True, False)), _post=ipost, _n=.25, _sites=False)
