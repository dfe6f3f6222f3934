"""P19 pipe schedules, wire and sheet gauges, erosional velocity"""
import json, os
from math import *
from ..dom import *
from ..lib import adder
from ..engine import Raises, SKIP, Approx, OneOf
S = []
s = adder(S, "piping")
T = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "piping.json")))
BAD = Raises(ValueError)
def near(v, req): return v != req and abs(v - req) <= 2e-12*abs(req)
def nearest(Do=None, Di=None, NPS=None, schedule="40"):
    k = str(int(schedule)) if isinstance(schedule, (int, float)) else schedule
    if k not in T["schedule_lookup"]: return BAD
    N, i, o, t = T["schedule_lookup"][k]
    def out(j): return [N[j], i[j]/1e3, o[j]/1e3, t[j]/1e3]
    if NPS is not None and Di is None and Do is None:
        return out(N.index(NPS)) if NPS in N else BAD
    req, col = (Di, i) if Di is not None else (Do, o)
    if req != req: return BAD
    for j, v in enumerate(col):
        if near(v/1e3, req): return SKIP
        if v/1e3 >= req: return out(j)
    return BAD
SCH = sorted(T["schedule_lookup"])
SC = O(C(*SCH, *SCH, "41", "", "xs", 40, 80.0, 5, 160, 41), .25)
def gen_np(r):
    a = {}
    sch = SC.sample(r)
    if sch is not OMIT: a["schedule"] = sch
    k = str(int(sch)) if isinstance(sch, (int, float)) else "40" if sch is OMIT else sch
    tab = T["schedule_lookup"].get(k) or T["schedule_lookup"]["40"]
    def val(col):
        u = r.random()
        if u < .3: return r.choice(col)/1e3
        if u < .6: return r.choice(col)/1e3*(1 + r.choice((1e-11, -1e-11, 1e-9, -1e-9, 1e-6, -1e-6, 1e-3, -1e-3)))
        if u < .61: return float("nan")
        if u < .63: return max(col)/1e3*r.choice((1.0, 1 + 1e-9, 1.2))
        if u < .64: return r.choice((0.0, -1.0))
        return exp(r.uniform(log(.003), log(3)))
    m = r.choice(("Do", "Di", "NPS", "Di", "Do", "both", "all"))
    if m in ("Do", "both", "all"): a["Do"] = val(tab[2])
    if m in ("Di", "both", "all"): a["Di"] = val(tab[1])
    if m in ("NPS", "all"): a["NPS"] = r.choice((r.choice(tab[0]), r.choice(tab[0]), r.choice((1, 2, 5, 7, .125, 3.5, 60, 48, 100))))
    return a
def mm(a, got):
    if isinstance(got, tuple):
        n, i, o, t = got
        if not abs(o - i - 2*t) <= 1e-9: return "Do - Di - 2t = %g" % (o - i - 2*t)
        if a.get("Di") is not None and not a["Di"] <= i*(1 + 1e-12): return "pipe smaller than the requested Di"
        if a.get("Di") is None and a.get("Do") is not None and not a["Do"] <= o*(1 + 1e-12): return "pipe smaller than the requested Do"
        import fluids.piping as p   # a diameter it returned is itself available
        kw = {"schedule": a["schedule"]} if "schedule" in a else {}
        b = p.nearest_pipe(Di=i, **kw)
        if b[1] != i: return "nearest_pipe(Di=%r) has Di %r" % (i, b[1])
        b = p.nearest_pipe(Do=o, **kw)
        if b[2] != o: return "nearest_pipe(Do=%r) has Do %r" % (o, b[2])
s("nearest_pipe", nearest, _gen=gen_np, _post=mm, _n=4, _rtol=1e-12)
INCH = .0254
def nearr(a, b, tol): return abs(a - b) <= tol
def gft(t, SI=True, schedule="BWG"):
    if schedule not in T["wire_schedules"]: return BAD
    g, th = T["wire_schedules"][schedule][:2]
    t = round(t/INCH, 9) if SI else t
    if t > th[0]: return BAD
    if t in th: return g[th.index(t)]
    if t < th[-1]: return g[-1]
    for k in range(len(th) - 1):
        if th[k] > t > th[k+1]:
            lim = th[k+1] + .1*(th[k] - th[k+1])
            if abs(t - lim) < 1e-8: return OneOf(g[k], g[k+1])
            return g[k+1] if t <= lim else g[k]
    return SKIP
WS = sorted(T["wire_schedules"])
def gen_g(r):
    a = {}
    sch = r.choice(WS) if r.random() < .85 else r.choice(("XXX", "bwg", OMIT, OMIT, OMIT))
    if sch is not OMIT: a["schedule"] = sch
    th = T["wire_schedules"][sch if sch in WS else "BWG"][1]
    u = r.random()
    if u < .3: t = r.choice(th)
    elif u < .6:
        k = r.randrange(len(th) - 1)
        t = th[k+1] + (th[k] - th[k+1])*r.choice((.01, .05, .0999, .1001, .12, .3, .5, .9, .99, r.random()))
    elif u < .65: t = th[0]*r.choice((1 + 1e-6, 1 - 1e-6, 1.01, 2))
    else: t = exp(r.uniform(log(.0005), log(1)))
    if r.random() < .7: t *= INCH
    else: a["SI"] = False
    a["t"] = t
    return a
s("gauge_from_t", gft, _gen=gen_g, _n=3, _known=[("P19-gauge-below-table", lambda a, got: got == T["wire_schedules"][a.get("schedule", "BWG")][1][-1] and (round(a["t"]/INCH, 9) if a.get("SI", True) else a["t"]) < T["wire_schedules"][a.get("schedule", "BWG")][1][-1])])
def tfg(gauge, SI=True, schedule="BWG"):
    if schedule not in T["wire_schedules"]: return BAD
    g, th, si = T["wire_schedules"][schedule][:3]
    if gauge not in g: return BAD
    k = g.index(gauge)
    return si[k] if SI else th[k]
ALLG = sorted({x for v in T["wire_schedules"].values() for x in v[0]})
def back(a, got):
    """a table thickness maps back to its gauge"""
    if isinstance(got, (int, float)):
        import fluids.piping as p
        kw = {k: a[k] for k in ("SI", "schedule") if k in a}
        b = p.gauge_from_t(got, **kw)
        if b != a["gauge"]:
            g, th = T["wire_schedules"][a.get("schedule", "BWG")][:2]
            if th[g.index(a["gauge"])] != th[g.index(b)]: return "gauge_from_t(t_from_gauge(%r)) = %r" % (a["gauge"], b)
s("t_from_gauge", tfg, gauge=C(*ALLG, 99, -1, .77), SI=O(C(True, False)), schedule=O(C(*WS, *WS, "XXX"), .1), _post=back, _n=3, _rtol=1e-12)
LB, FT = .45359237, .3048
s("erosional_velocity", lambda rho, C: C/sqrt(rho/(LB/FT**3))*FT, rho=L(.01, 2e4), C=L(10, 1000))
def table(n):
    import fluids.piping as p
    return json.loads(json.dumps(getattr(p, n)))
s("tables", lambda n: T[n], n=C("schedule_lookup", "wire_schedules"), _target=table, _rtol=1e-15, _n=.02, _sites=False)
