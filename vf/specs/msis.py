"""P26 NRLMSISE-00: agreement with the reference model in any call order and under threads"""
import math, threading, sys, random
from ..dom import *
from ..engine import Raises, SKIP, Approx, Err, Spec
from ..ref_msis import model as ref
S = []
class Bag: pass
def ref_gtd7(i, sw):
    I = Bag(); I.__dict__.update(i)
    if i.get("ap_a") is not None: I.ap_a = Bag(); I.ap_a.a = list(i["ap_a"])
    F = Bag(); F.switches = list(sw); F.sw = [0.0]*24; F.swc = [0.0]*24
    o = ref.nrlmsise_output()
    ref.gtd7(I, F, o)
    return o.d, o.t
def run_gtd7(i, sw):
    import fluids.nrlmsise00 as m
    I = m.nrlmsise_input(); F = m.nrlmsise_flags(); o = m.nrlmsise_output()
    for k, v in i.items():
        if k != "ap_a": setattr(I, k, v)
    if i.get("ap_a") is not None: a = m.ap_array(); a.a = list(i["ap_a"]); I.ap_a = a
    F.switches = list(sw)
    before = {k: getattr(I, k) for k in i if k != "ap_a"}
    m.gtd7(I, F, o)
    if {k: getattr(I, k) for k in before} != before: raise AssertionError("gtd7 changed its input")
    return list(o.d), list(o.t)
A = lambda v: Approx(v, 1e-9, 1e-30)
ALT = [0, 10, 20, 15, 32.5, 45, 55, 62.5, 72.5, 80, 90, 100, 110, 120, 160, 200, 240, 250, 300, 320, 450, 999, 1000]
def galt(r):
    u = r.random()
    if u < .3: return float(r.choice(ALT)) + r.choice((0, 0, 1e-6, -1e-6))*(1 if u > .02 else 0)
    return r.choice((r.uniform(0, 35), r.uniform(30, 75), r.uniform(70, 130), r.uniform(120, 500), r.uniform(400, 1000)))
def gen_in(r):
    i = dict(doy=r.choice((0, 1, 366, r.randint(0, 366), r.uniform(0, 366))), year=0, sec=r.uniform(0, 86400), alt=max(0.0, galt(r)), g_lat=r.choice((0.0, 90.0, -90.0, 45.0, r.uniform(-90, 90), r.uniform(-90, 90))),
             g_long=r.choice((0.0, 180.0, -180.0, r.uniform(-180, 360))), lst=r.uniform(0, 24), f107A=r.choice((150.0, r.uniform(60, 260))), f107=r.choice((150.0, r.uniform(60, 300))), ap=r.choice((4.0, 0.0, r.uniform(0, 400))))
    i["ap_a"] = None
    sw = [r.choice((0, 1))] + [1]*23
    if r.random() < .35:
        for _ in range(r.randint(1, 4)): sw[r.randint(1, 23)] = r.choice((0, 1, 2))
        if sw[9] == 2: sw[9] = 1
    if r.random() < .5:
        sw[9] = -1
        i["ap_a"] = [r.choice((4.0, r.uniform(0, 400))) for _ in range(7)]
    return dict(i=i, sw=sw)
def r_gtd7(i, sw):
    d, t = ref_gtd7(i, sw)
    return ([A(x) for x in d], [A(x) for x in t])
S.append(Spec("nrlmsise00.gtd7", {}, r_gtd7, target=run_gtd7, gen=gen_in, n=1))
# ---- the atmosphere class
KEYS = ["He_density", "O_density", "N2_density", "O2_density", "Ar_density", "rho", "H_density", "N_density", "O_anomalous_density"]
SPEC = ["N2", "O2", "Ar", "He", "O", "H", "N"]
MW = dict(N2=28.0134, O2=31.9988, Ar=39.948, He=4.002602, O=15.9994, H=1.00794, N=14.0067)
def run_atm(**kw):
    import fluids.atmosphere as a
    o = a.ATMOSPHERE_NRLMSISE00(**kw)
    return {k: getattr(o, k) for k in KEYS + ["T_exospheric", "T", "P", "rho_calculated", "particle_density", "zs", "components"]}
def r_atm(Z, latitude=0.0, longitude=0.0, day=0, seconds=0.0, f107=150., f107_avg=150., geomagnetic_disturbance_indices=None):
    ap = geomagnetic_disturbance_indices
    sw = [0] + [1]*23
    i = dict(doy=day, year=0, sec=seconds, alt=Z/1e3, g_lat=latitude, g_long=longitude, lst=seconds/3600. + longitude/15., f107A=f107_avg, f107=f107, ap=0.0, ap_a=None)
    if ap: sw[9] = -1; i["ap"] = ap[0]; i["ap_a"] = ap
    d, t = ref_gtd7(i, sw)
    o = {k: v*(1e3 if k == "rho" else 1e6) for k, v in zip(KEYS, d)}
    NA = 6.02214076e23; k = 1.380649e-23
    n = [o[s + "_density"] for s in SPEC]; N = sum(n)
    o.update(T_exospheric=t[0], T=t[1], P=N*t[1]*k, particle_density=N, rho_calculated=sum(x*MW[s] for x, s in zip(n, SPEC))/(1000*NA))
    out = {q: A(v) for q, v in o.items()}
    out["P"] = Approx(o["P"], 2e-6); out["rho_calculated"] = Approx(o["rho_calculated"], 2e-6)
    out["zs"] = [A(x/N) for x in n]; out["components"] = SPEC
    return out
def gen_atm(r):
    g = gen_in(r)["i"]
    d = dict(Z=g["alt"]*1e3)
    for k, q in (("latitude", "g_lat"), ("longitude", "g_long"), ("day", "doy"), ("seconds", "sec"), ("f107", "f107"), ("f107_avg", "f107A")):
        if r.random() < .8: d[k] = g[q]
    if r.random() < .5: d["geomagnetic_disturbance_indices"] = [r.choice((4.0, r.uniform(0, 300))) for _ in range(7)] if r.random() < .75 else [r.choice((0, 0.0, 4))]*7 if r.random() < .4 else [r.choice((0.0, 0, 7, 80.0)) for _ in range(7)]
    return d
def p_atm(a, g):
    # the reported mass density is the sum over the reported species (the model's own atomic masses and 1.66e-24 g)
    if isinstance(g, Err): return None
    m = 1.66e-27*(4*g["He_density"] + 16*g["O_density"] + 28*g["N2_density"] + 32*g["O2_density"] + 40*g["Ar_density"] + g["H_density"] + 14*g["N_density"])
    if abs(g["rho"]/m - 1) > 1e-9: return "rho %r is not the sum over species %r" % (g["rho"], m)
    if abs(sum(g["zs"]) - 1) > 1e-12: return "mole fractions do not sum to one"
    if not all(x >= 0 for x in g["zs"]) or not g["T"] > 0: return "negative fraction or temperature"
S.append(Spec("atmosphere.ATMOSPHERE_NRLMSISE00", {}, r_atm, target=run_atm, gen=gen_atm, post=p_atm, n=1))
# ---- histories: a sequence of calls, one of them replayed after the others
def run_hist(seq):
    return [run_gtd7(**q) if "i" in q else run_atm(**q) for q in seq]
def gen_hist(r):
    seq = [gen_in(r) if r.random() < .6 else gen_atm(r) for _ in range(r.randint(2, 5))]
    return dict(seq=seq + [seq[0]])
S.append(Spec("nrlmsise00.history", {}, lambda seq: [r_gtd7(**q) if "i" in q else r_atm(**q) for q in seq], target=run_hist, gen=gen_hist, n=.25))
def run_shared(seq):
    """one flags / output / input object reused for every call, as the published driver does"""
    import fluids.nrlmsise00 as m
    I, F, o = m.nrlmsise_input(), m.nrlmsise_flags(), m.nrlmsise_output(); out = []
    for q in seq:
        for k, v in q["i"].items():
            if k != "ap_a": setattr(I, k, v)
        a = m.ap_array(); a.a = list(q["i"]["ap_a"] or [4.0]*7); I.ap_a = a
        F.switches = list(q["sw"]); m.gtd7(I, F, o)
        out.append((list(o.d), list(o.t)))
    return out
S.append(Spec("nrlmsise00.reused_objects", {}, lambda seq: [r_gtd7(**q) for q in seq], target=run_shared, gen=lambda r: dict(seq=[gen_in(r) for _ in range(r.randint(2, 5))]), n=.25))
def run_threads(groups):
    out = [[] for _ in groups]; err = []
    go = threading.Barrier(len(groups))
    def work(k):
        try:
            go.wait()
            for q in groups[k]: out[k].append(run_gtd7(**q) if "i" in q else run_atm(**q))
        except Exception as e: err.append(repr(e))
    old = sys.getswitchinterval(); sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(len(groups))]
        for t in ts: t.start()
        for t in ts: t.join()
    finally: sys.setswitchinterval(old)
    if err: raise RuntimeError(err[0])
    return out
S.append(Spec("nrlmsise00.threads", {}, lambda groups: [[r_gtd7(**q) if "i" in q else r_atm(**q) for q in g] for g in groups], target=run_threads,
              gen=lambda r: dict(groups=[[gen_in(r) if r.random() < .6 else gen_atm(r) for _ in range(r.randint(1, 4))] for _ in range(r.randint(2, 4))]), n=.15))
