"""P20 liquid jet pumps and vacuum air leakage"""
from math import *
from ..dom import *
from ..lib import adder
from ..engine import Raises, SKIP, Approx, OneOf, Err
S = []
s = adder(S, "jet_pump")
BAD = Raises(ValueError)
PROP = dict(rhop=L(500, 1500), rhos=L(500, 1500), Kp=Z(1, .005), Ks=Z(1, .005))
def head(rhop, rhos, Kp, Ks, d_nozzle, d_mixing, Qp, Qs):
    """documented P1 - P2"""
    An, R, M, C = pi*d_nozzle**2/4, (d_nozzle/d_mixing)**2, Qs/Qp, rhos/rhop
    V = Qp/An
    return rhop*V*V/2*(1 + Kp), rhop*V*V/2*C*(1 + Ks)*(M*R/(1 - R))**2
def Nfun(rhop, rhos, Km, Kd, Ks, Kp, d_nozzle, d_mixing, d_diffuser, Qp, Qs, nozzle_retracted=True):
    R, al, M, C = (d_nozzle/d_mixing)**2, (d_mixing/d_diffuser)**2, Qs/Qp, rhos/rhop
    j = 0 if nozzle_retracted else 1
    S1 = 2*C*M**2*R**2/(1 - R)
    Q = R**2*(1 + C*M)*(1 + M)*(1 + Km + Kd + al**2)
    E = C*M**2*R**2/(1 - R)**2*(1 + Ks)
    num = (2*R + S1, -Q - E)
    den = (1 + Kp - 2*R - S1, Q, (1 - j)*E)
    return sum(num)/sum(den), sum(map(abs, num))/abs(sum(num)) + sum(map(abs, den))/abs(sum(den))
def state(r, phys=False):
    a = {k: d.sample(r) for k, d in PROP.items()}
    if r.random() < .1: a["Ks"] = 0.0
    a["d_nozzle"] = exp(r.uniform(log(.003), log(.3)))
    a["d_mixing"] = a["d_nozzle"]/sqrt(r.uniform(.05, .9 if not phys else .6))
    a["Qp"] = exp(r.uniform(log(5), log(60)))*pi*a["d_nozzle"]**2/4
    a["Qs"] = a["Qp"]*exp(r.uniform(log(.02), log(4 if not phys else 1.5)))
    a["P2"] = exp(r.uniform(log(2e3), log(1e6)))
    p, q = head(*(a[k] for k in ("rhop", "rhos", "Kp", "Ks", "d_nozzle", "d_mixing", "Qp", "Qs")))
    a["P1"] = a["P2"] + p - q
    return a
V6 = ("d_nozzle", "d_mixing", "Qp", "Qs", "P1", "P2")
def gen_anc(r):
    a = state(r)
    u = r.random()
    drop = [r.choice(V6)] if u < .93 else [] if u < .96 else r.sample(V6, 2)
    a["_drop"] = drop
    if len(drop) == 1 and r.random() < .15 and drop[0] in ("Qs", "Qp"): a["P1"] = a["P1"]*exp(r.uniform(-2, 2))
    a["_full"] = {k: a[k] for k in V6}
    for k in drop:
        if r.random() < .5: a[k] = None
        else: del a[k]
    return a
def t_anc(_drop=None, _full=None, **k):
    from fluids.jet_pump import liquid_jet_pump_ancillary as f
    return f(**k)
def anc(rhop, rhos, Kp, Ks, _drop, _full, d_nozzle=None, d_mixing=None, Qp=None, Qs=None, P1=None, P2=None):
    if len(_drop) != 1: return BAD
    k = _drop[0]
    if k in ("d_nozzle", "d_mixing"): return SKIP       # judged by residual
    C = rhos/rhop
    if k in ("P1", "P2"):
        p, q = head(rhop, rhos, Kp, Ks, d_nozzle, d_mixing, Qp, Qs)
        v = P2 + p - q if k == "P1" else P1 - p + q
        return Approx(v, 1e-9, 1e-11*(p + q))
    An, R = pi*d_nozzle**2/4, (d_nozzle/d_mixing)**2
    dP = P1 - P2
    if k == "Qs":   # q = p - dP
        p = rhop*(Qp/An)**2/2*(1 + Kp)
        q = p - dP
        if abs(q) < 1e-6*p: return SKIP
        return nan if q < 0 else Approx(sqrt(q/(rhop/2*C*(1 + Ks)))*(1 - R)/R*An, 1e-8)
    q = rhop/2*C*(1 + Ks)*(Qs/An*R/(1 - R))**2
    if dP + q < 1e-6*q: return SKIP
    return Approx(An*sqrt((dP + q)/(rhop/2*(1 + Kp))), 1e-8)
def anc_post(a, got):
    if a["_drop"] not in (["d_nozzle"], ["d_mixing"]): return None
    if isinstance(got, Err) or not isinstance(got, (int, float)) or not got > 0: return "no solution for %s although %r is one: %r" % (a["_drop"][0], a["_full"][a["_drop"][0]], got)
    b = dict(a["_full"]); b[a["_drop"][0]] = got
    p, q = head(a["rhop"], a["rhos"], a["Kp"], a["Ks"], b["d_nozzle"], b["d_mixing"], b["Qp"], b["Qs"])
    r = b["P1"] - b["P2"] - p + q
    # the mixing diameter may be indistinguishable from infinitely wide: judge the residual against the head
    return None if abs(r) <= 1e-6*(p + q + abs(b["P1"])) else "residual %g of head %g for %s = %r" % (r, p + q, a["_drop"][0], got)
s("liquid_jet_pump_ancillary", anc, _target=t_anc, _gen=gen_anc, _post=None, _n=2)
def gen_d(r):
    while True:
        a = gen_anc(r)
        if len(a["_drop"]) == 1 and a["_drop"][0] in ("d_nozzle", "d_mixing") and a["_full"]["P1"] > a["_full"]["P2"]: return a
S.append(type(S[0])("jet_pump.liquid_jet_pump_ancillary(d)", {}, None, target=t_anc, gen=gen_d, post=anc_post, n=.4))
# ---- pressure ratio
def gen_pr(r):
    a = state(r); del a["P1"], a["P2"]
    a["Km"], a["Kd"] = r.choice((0.0, r.uniform(0, .5))), r.choice((0.0, r.uniform(0, .5)))
    a["d_diffuser"] = a["d_mixing"]*r.choice((1.0, exp(r.uniform(0, 3)), 1e3))
    if r.random() < .6: a["nozzle_retracted"] = r.random() < .4
    a["P2"] = exp(r.uniform(log(1e3), log(1e6))); a["P5"] = a["P2"]*exp(r.uniform(0, 2)); a["P1"] = a["P5"]*exp(r.uniform(.05, 3))
    k = r.choice(("P1", "P2", "P5", None))
    if k: a[k] = None
    return a
def pr(P1, P2, P5, **k):
    N, cond = Nfun(**k)
    if cond > 1e6: return SKIP
    t = 1e-13*cond + 1e-12
    if P1 is None:
        v = P5 + (P5 - P2)/N
        return {"P1": Approx(v, 1e-9, 10*t*abs(P5 - P2)/abs(N)), "P2": P2, "P5": P5}
    if P2 is None: return {"P1": P1, "P2": Approx(P5 - N*(P1 - P5), 1e-9, 10*t*abs(N*(P1 - P5))), "P5": P5}
    if P5 is None:
        if abs(1 + N) < 1e-6: return SKIP
        return {"P1": P1, "P2": P2, "P5": Approx((P1*N + P2)/(1 + N), 1e-9, 10*t*abs(N*(P1 + P2))/abs(1 + N))}
    return Approx(N - (P5 - P2)/(P1 - P5), 1e-9, 10*t*abs(N) + 1e-12*abs((P5 + P2)/(P1 - P5)))
s("liquid_jet_pump_pressure_ratio", pr, _gen=gen_pr, _n=2)
# ---- the whole pump: judged by the two documented equations
V7 = ("d_nozzle", "d_mixing", "Qp", "Qs", "P1", "P2", "P5")
def gen_lj(r):
    for _ in range(1000):
        a = state(r, True)
        a["Km"], a["Kd"] = r.choice((0.0, .15, r.uniform(0, .5))), r.choice((0.0, .1, r.uniform(0, .5)))
        if r.random() < .6: a["d_diffuser"] = a["d_mixing"]*exp(r.uniform(0, 2))
        if r.random() < .6: a["nozzle_retracted"] = r.random() < .4
        dd = a.get("d_diffuser", 1e3*a["d_mixing"])
        N, cond = Nfun(a["rhop"], a["rhos"], a["Km"], a["Kd"], a["Ks"], a["Kp"], a["d_nozzle"], a["d_mixing"], dd, a["Qp"], a["Qs"], a.get("nozzle_retracted", True))
        if not N > 1e-3 or a["P1"] <= a["P2"] or cond > 1e3: continue
        a["P5"] = (a["P1"]*N + a["P2"])/(1 + N)
        break
    u = r.random()
    drop = r.sample(V7, 2) if u > .08 else r.sample(V7, r.choice((0, 1, 3)))
    if u > .5 and len(drop) == 2: drop = ["P5", r.choice(("Qs", "Qp", "P1", "P2", "d_mixing", "d_nozzle"))]
    a["_drop"], a["_full"] = drop, {k: a[k] for k in V7}
    a["max_variations"] = 8
    for k in drop: a[k] = None
    return a
def t_lj(_drop=None, _full=None, **k):
    from fluids.jet_pump import liquid_jet_pump as f
    return f(**k)
SOLVED = {}
def lj_post(a, got):
    drop = a["_drop"]
    if len(drop) != 2:
        return None if isinstance(got, Err) and isinstance(got.e, ValueError) else "%d unknowns accepted: %r" % (len(drop), got)
    key = "+".join(sorted(drop))
    direct = "P5" in drop and not {"d_nozzle", "d_mixing"} & set(drop)
    if isinstance(got, Err):
        if direct: return "explicit case %s failed: %r" % (key, got)
        if not isinstance(got.e, ValueError) and "P5" not in drop: return "unexpected %r" % got
        return SKIP
    f = a["_full"]
    for k in V7:
        if k not in drop and got[k] != f[k]: return "given %s=%r came back as %r" % (k, f[k], got[k])
    dd = a.get("d_diffuser") or 1e3*(f["d_mixing"] if "d_mixing" not in drop else f["d_nozzle"] if "d_nozzle" not in drop else 1.0)
    if got["d_diffuser"] != dd: return "d_diffuser %r, expected %r" % (got["d_diffuser"], dd)
    g = {k: got[k] for k in V7}
    if g["d_nozzle"] == g["d_mixing"] or "P5" not in drop and abs(g["P1"] - g["P5"]) < 1e-9*abs(g["P5"]): return SKIP
    p, q = head(a["rhop"], a["rhos"], a["Kp"], a["Ks"], g["d_nozzle"], g["d_mixing"], g["Qp"], g["Qs"])
    e2 = p - q - (g["P1"] - g["P2"])
    tol2 = 1.1e-5 + 1e-11*(p + q + abs(g["P1"]) + abs(g["P2"])) if "P5" not in drop else 1e-6*(p + q + abs(g["P1"]))
    if not abs(e2) <= tol2: return "energy residual %g (tol %g) for unknowns %s" % (e2, tol2, key)
    N, cond = Nfun(a["rhop"], a["rhos"], a["Km"], a["Kd"], a["Ks"], a["Kp"], g["d_nozzle"], g["d_mixing"], dd, g["Qp"], g["Qs"], a.get("nozzle_retracted", True))
    Np = (g["P5"] - g["P2"])/(g["P1"] - g["P5"])
    tol1 = 1.1e-5 + 1e-12*cond*abs(N) + 1e-12*abs(Np)*(abs(g["P5"]) + abs(g["P2"]) + abs(g["P1"]))*(1/abs(g["P1"] - g["P5"]) + 1/(abs(g["P5"] - g["P2"]) + 1e-300)) if "P5" not in drop else 1e-7*abs(N)*cond + 1e-11*(1 + abs(N))*abs(g["P1"] + g["P5"])/abs(g["P1"] - g["P5"])
    if not abs(N - Np) <= tol1: return "pressure ratio residual %g (tol %g) for unknowns %s" % (N - Np, tol1, key)
    M, R, al = g["Qs"]/g["Qp"], (g["d_nozzle"]/g["d_mixing"])**2, (g["d_mixing"]/dd)**2
    for k, v in (("M", M), ("N", Np), ("R", R), ("alpha", al), ("efficiency", M*Np)):
        if not abs(got[k] - v) <= 1e-9*abs(v) + 1e-12: return "%s = %r, inconsistent with the solution (%r)" % (k, got[k], v)
    if direct:
        o = [k for k in drop if k != "P5"][0]
        c = (p + q)/abs(p - q) + (p + q)/q
        if not abs(g[o] - f[o]) <= 1e-9*abs(f[o])*(1 + c) + 1e-11*(p + q)*(o in ("P1", "P2")): return "%s = %r, expected %r" % (o, g[o], f[o])
    return None
S.append(type(S[0])("jet_pump.liquid_jet_pump", {}, None, target=t_lj, gen=gen_lj, post=lj_post, n=.25))
# ---- vacuum leakage
TORR, FT3, LBH, MMHG, INHG = 101325/760., .3048**3, .45359237/3600, 133.32236842105263, 3386.388640341
VP = dict(P=L(1, 101324), P_atm=O(U(101325, 120000), .6))
def near(v, *b): return any(abs(v - x) < 1e-5*x for x in b)
def ryan(V, P, P_atm=101325.0):
    p = (P_atm - P)/TORR
    c, e = (.026, .34) if p < 10 else (.032, .26) if p < 100 else (.106, 0)
    if near(p, 10, 100): return SKIP
    return Approx(c*p**e*(V/FT3)**.6*LBH, 1e-8)
def vfix(a):
    if a["P"] >= (101325.0 if a["P_atm"] is OMIT else a["P_atm"]): return None
    return a
def vgen(V):
    def g(r):
        a = {"P_atm": 101325.0 if r.random() < .6 else r.uniform(8e4, 1.2e5)}
        a["P"] = a["P_atm"] - exp(r.uniform(log(20), log(a["P_atm"]*.9999)))
        if a["P_atm"] == 101325.0 and r.random() < .7: del a["P_atm"]
        if V: a["V"] = exp(r.uniform(log(1e-2), log(1e4)))
        return a
    return g
s("vacuum_air_leakage_Ryans_Croll", ryan, _gen=vgen(1), _n=.6)
def seid(V, P, P_atm=101325.0):
    x = log((P_atm - P)/TORR)
    return Approx((5 + (.0289 + .03088*x - .0005733*x*x)*(V/FT3)**.66)*LBH, 1e-8)
s("vacuum_air_leakage_Seider", seid, _gen=vgen(1), _n=.5)
HEI = [(1, .6667235169997174, -3.71246576520232), (3, .664489357445796, -3.0147277548691274), (20, .6656780453394583, -2.34007321331419), (90, .663080000739313, -1.9278288516732665), (1e9, .6658471905826482, -1.6641585778506027)]
def hei(V, P, P_atm=101325.0):
    p = (P_atm - P)/MMHG
    if near(p, 1, 3, 20, 90): return SKIP
    c0, c1 = next(x[1:] for x in HEI if p <= x[0])
    return Approx(exp(c1 + c0*log(max(V/FT3, 10)))*LBH, 1e-6)
s("vacuum_air_leakage_HEI2633", hei, _gen=vgen(1), _n=.8)
def cw(P, P_atm=101325.0, conservative=True):
    p = (P_atm - P)/INHG
    if near(p, 3, 5, 8): return SKIP
    k = sum(p > b for b in (3, 5, 8))
    return Approx(((20, 25, 30, 40) if conservative else (10, 20, 25, 30))[k]*LBH, 1e-12)
g0 = vgen(0)
def gcw(r):
    a = g0(r)
    if r.random() < .6: a["conservative"] = r.random() < .5
    return a
s("vacuum_air_leakage_Coker_Worthington", cw, _gen=gcw, _n=.6)
