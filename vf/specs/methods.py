"""P37 method selectors: documented names, stand-alone functions, listings, defaults"""
import math
from ..dom import *
from ..engine import Raises, SKIP, Approx, Err, Spec, close
from .solve import lg
S = []
def opt(r, p, v): return v if r.random() > p else None
def fam(r, d):
    """draw inputs of one family; None = not given"""
    f = d["fam"]
    if f == "drag": d["k"] = dict(Re=r.choice((lg(r, -3, 6.3), lg(r, -3, 6.3), .1, .3, 2e5, 1e6)))
    elif f == "fd": d["k"] = dict(Re=r.choice((lg(r, 1, 9), lg(r, 3.2, 8.5), 2040.0, 4000.0, 1e4, 5000.0, 1e8, 5245.0)), eD=r.choice((0.0, lg(r, -8, -1), .05, 1e-5, .01)))
    elif f == "curved": Di = lg(r, -3, 0); d["k"] = dict(Re=lg(r, 1.5, 7), Di=Di, Dc=Di*lg(r, .3, 3), roughness=r.choice((0.0, Di*lg(r, -6, -2))))
    elif f == "Recrit": Di = lg(r, -3, 0); d["k"] = dict(Di=Di, Dc=Di*lg(r, .3, 3))
    elif f == "packed": dp = lg(r, -4, -1.3); d["k"] = dict(dp=dp, voidage=r.uniform(.3, .6), vs=lg(r, -4, 1), rho=lg(r, 0, 3.3), mu=lg(r, -5, -2), L=r.choice((1.0, lg(r, -1, 1))), Dt=opt(r, .5, dp*lg(r, .4, 2)), sphericity=opt(r, .7, r.uniform(.3, 1)))
    elif f == "dP2": d["k"] = dict(m=lg(r, -3, 1), x=r.uniform(.01, .98), rhol=lg(r, 2.5, 3.2), D=lg(r, -2.5, 0), L=lg(r, -1, 2), rhog=opt(r, .15, lg(r, -1, 2)), mul=opt(r, .15, lg(r, -4, -2)), mug=opt(r, .15, lg(r, -5.5, -4.1)), sigma=opt(r, .2, lg(r, -2.5, -1)), P=opt(r, .3, lg(r, 5, 6.5)), Pc=opt(r, .3, lg(r, 6.6, 7.3)), angle=opt(r, .4, r.choice((0.0, 30.0, -45.0, 90.0))), roughness=r.choice((0.0, 1e-5)))
    elif f == "void": d["k"] = dict(x=r.uniform(.01, .98), rhol=lg(r, 2.5, 3.2), rhog=lg(r, -1, 2), D=opt(r, .2, lg(r, -2.5, 0)), m=opt(r, .2, lg(r, -3, 1)), mul=opt(r, .2, lg(r, -4, -2)), mug=opt(r, .2, lg(r, -5.5, -4.1)), sigma=opt(r, .2, lg(r, -2.5, -1)), P=opt(r, .3, lg(r, 5, 6.5)), Pc=opt(r, .3, lg(r, 6.6, 7.3)), angle=opt(r, .5, r.choice((0.0, 30.0, 90.0))))
    elif f == "visc": d["k"] = dict(x=r.random(), mul=lg(r, -4, -2), mug=lg(r, -5.5, -4.1), rhol=opt(r, .3, lg(r, 2.5, 3.2)), rhog=opt(r, .3, lg(r, -1, 2)))
    elif f in FIT:
        Di = lg(r, -2, 0); b = r.uniform(.2, .95); D2 = Di/b
        d["k"] = dict(entrance_sharp=lambda: {}, entrance_distance=lambda: dict(Di=Di, t=Di*r.uniform(.001, .04), l=Di*r.uniform(0, 1.5)), entrance_rounded=lambda: dict(Di=Di, rc=Di*r.uniform(0, .3)),
            entrance_beveled=lambda: dict(Di=Di, l=Di*r.uniform(.03, 1), angle=r.uniform(5, 85)), entrance_angled=lambda: dict(angle=r.uniform(1, 90)),
            bend_rounded=lambda: dict(Di=Di, angle=r.uniform(10, 180), fd=r.uniform(.01, .03), bend_diameters=r.uniform(.6, 10), Re=lg(r, 3.7, 6), roughness=r.choice((0.0, Di*1e-4))), bend_miter=lambda: dict(angle=r.uniform(5, 119), Di=Di, Re=lg(r, 4, 6), roughness=Di*1e-4, L_unimpeded=r.uniform(0, 30)*Di),
            contraction_sharp=lambda: dict(Di1=D2, Di2=Di, fd=r.uniform(.01, .03), Re=lg(r, 3.6, 6)), contraction_round=lambda: dict(Di1=D2, Di2=Di, rc=Di*r.uniform(.001, .4)), contraction_conical=lambda: dict(Di1=D2, Di2=Di, fd=r.uniform(.01, .03), angle=r.uniform(5, 170), Re=lg(r, 4, 6)),
            diffuser_sharp=lambda: dict(Di1=Di, Di2=D2, Re=lg(r, 4, 6), fd=r.uniform(.01, .03)), diffuser_conical=lambda: dict(Di1=Di, Di2=D2, angle=r.uniform(5, 170), fd=r.uniform(.01, .03), Re=lg(r, 4.1, 5.7)))[f]()
    return d
# documented method names of the fitting families; the first is the documented default
FIT = dict(entrance_sharp=["Rennels", "Swamee", "Blevins", "Idelchik", "Crane", "Miller"], entrance_distance=["Rennels", "Miller", "Idelchik", "Harris", "Crane"], entrance_rounded=["Rennels", "Crane", "Miller", "Idelchik", "Harris", "Swamee"],
    entrance_beveled=["Rennels", "Idelchik"], entrance_angled=["Idelchik"], bend_rounded=["Rennels", "Crane", "Crane standard", "Miller", "Swamee", "Ito"], bend_miter=["Rennels", "Miller", "Crane", "Blevins"],
    contraction_sharp=["Rennels", "Hooper", "Crane"], contraction_round=["Rennels", "Miller", "Idelchik"], contraction_conical=["Rennels", "Idelchik", "Crane", "Swamee", "Blevins", "Miller", "Hooper"], diffuser_sharp=["Rennels", "Hooper"], diffuser_conical=["Rennels", "Crane", "Miller", "Swamee", "Idelchik", "Hooper"])
# stand-alone functions behind fitting methods, where there is one
ALONE = {("bend_rounded", "Miller"): ("bend_rounded_Miller", "Di angle Re bend_diameters roughness"), ("bend_rounded", "Crane"): ("bend_rounded_Crane", "Di angle bend_diameters"), ("bend_miter", "Miller"): ("bend_miter_Miller", "Di angle Re roughness L_unimpeded"),
    ("entrance_distance", "Miller"): ("entrance_distance_45_Miller", None), ("diffuser_conical", "Crane"): None}
DRAG = {k: (None, 2e5) for k in "Barati Rouse Engelund_Hansen Clift_Gauvin Morsi_Alexander Graf Flemmer_Banks Khan_Richardson Yen Haider_Levenspiel Cheng".split()}
DRAG.update(Stokes=(None, .3), Barati_high=(None, 1e6), Swamee_Ojha=(None, 1.5e5), Terfous=(.1, 5e4), Mikhailov_Freire=(None, 118300), Clift=(None, 1e6), Ceylan=(.1, 1e6), Almedeij=(None, 1e6), Morrison=(None, 1e6), Song_Xu=(None, 1e3))
FD = dict(Moody=(4e3, 1e8, 0, .01), Alshul_1952=(), Wood_1966=(4e3, 5e7, 1e-5, .04), Churchill_1973=(), Eck_1973=(), Jain_1976=(5e3, 1e7, 4e-5, .05), Swamee_Jain_1976=(5e3, 1e8, 1e-6, .05), Churchill_1977=(), Chen_1979=(4e3, 4e8, 1e-7, .05), Round_1980=(4e3, 4e8, 0, .05), Shacham_1980=(4e3, 4e8), Barr_1981=(),
    Zigrang_Sylvester_1=(4e3, 1e8, 4e-5, .05), Zigrang_Sylvester_2=(4e3, 1e8, 4e-5, .05), Haaland=(4e3, 1e8, 1e-6, .05), Serghides_1=(), Serghides_2=(), Tsal_1989=(4e3, 1e8, 0, .05), Manadilli_1997=(5245, 1e8, 0, .05), Romeo_2002=(3e3, 1.5e8, 0, .05), Sonnad_Goudar_2006=(4e3, 1e8, 1e-6, .05), Rao_Kumar_2007=(), Buzzelli_2008=(), Avci_Karagoz_2009=(), Papaevangelo_2010=(1e4, 1e7, 1e-5, 1e-3), Brkic_2011_1=(), Brkic_2011_2=(), Fang_2011=(3e3, 1e8, 0, .05), Clamond=(), Colebrook=())
HL = {"White": "laminar_fd_White", "Mori Nakayama laminar": "laminar_fd_Mori_Nakayama", "Schmidt laminar": "laminar_fd_Schmidt"}
HT = {"Schmidt turbulent": "Schmidt", "Mori Nakayama turbulent": "Mori_Nakayama", "Prasad": "Prasad", "Czop": "Czop", "Guo": "Guo", "Ju": "Ju", "Mandal Nigam": "Mandal_Nigam", "Srinivasan turbulent": "Srinivasan"}
HR = {"Seth Stahel": "Seth_Stahel", "Ito": "Ito", "Kubair Kuloor": "Kubair_Kuloor", "Kutateladze Borishanskii": "Kutateladze_Borishanskii", "Schmidt": "Schmidt", "Srinivasan": "Srinivasan"}
PB = {"Ergun": "Ergun", "Tallmadge": "Tallmadge", "Kuo & Nydegger": "Kuo_Nydegger", "Jones & Krier": "Jones_Krier", "Carman": "Carman", "Hicks": "Hicks", "Brauer": "Brauer", "KTA": "KTA", "Fahien & Schriver": "Fahien_Schriver", "Idelchik": "Idelchik", "Erdim, Akgiray & Demir": "Erdim_Akgiray_Demir", "Harrison, Brunner & Hecker": "Harrison_Brunner_Hecker", "Montillet, Akkari & Comiti": "Montillet_Akkari_Comiti", "Guo, Sun, Zhang, Ding & Liu": "Guo_Sun"}
W3 = ("Harrison, Brunner & Hecker", "Montillet, Akkari & Comiti", "Guo, Sun, Zhang, Ding & Liu")
g4, s4 = "rhog mul mug", "rhog mul mug sigma"
T2 = {"Zhang_Webb": "mul P Pc", "Lockhart_Martinelli": g4, "Bankoff": g4, "Baroczy_Chisholm": g4, "Chisholm": g4, "Gronnerud": g4, "Jung_Radermacher": g4, "Muller_Steinhagen_Heck": g4, "Theissing": g4, "Wang_Chiang_Lu": g4, "Yu_France": g4, "Kim_Mudawar": s4, "Friedel": s4, "Hwang_Kim": s4, "Mishima_Hibiki": s4, "Tran": s4, "Xu_Fang": s4, "Zhang_Hibiki_Mishima": s4, "Chen_Friedel": s4, "Lombardi_Pedrocchi": "rhog sigma", "Chisholm rough": g4, "Zhang_Hibiki_Mishima adiabatic gas": s4, "Zhang_Hibiki_Mishima flow boiling": s4, "Beggs-Brill": s4 + " P angle"}
NOROUGH = ("Kim_Mudawar", "Lockhart_Martinelli", "Lombardi_Pedrocchi")
A2 = {"Chisholm rough": ("Chisholm", dict(rough_correction=True)), "Zhang_Hibiki_Mishima adiabatic gas": ("Zhang_Hibiki_Mishima", dict(flowtype="adiabatic gas")), "Zhang_Hibiki_Mishima flow boiling": ("Zhang_Hibiki_Mishima", dict(flowtype="flow boiling")), "Beggs-Brill": ("Beggs_Brill", dict(acceleration=False))}
b = "x rhol rhog "
VD = {"Thom": "mul mug", "Zivi": "", "Smith": "", "Fauske": "", "Chisholm_voidage": "", "Turner Wallis": "mul mug", "homogeneous": "", "Chisholm Armand": "", "Armand": "", "Nishino Yamazaki": "", "Guzhov": "m D", "Kawahara": "D", "Baroczy": "mul mug", "Tandon Varma Gupta": "mul mug m D", "Harms": "mul mug m D", "Domanski Didion": "mul mug", "Graham": "mul mug m D", "Yashar": "mul mug m D", "Huq_Loth": "", "Kopte_Newell_Chato": "m D", "Steiner": "sigma m D", "Rouhani 1": "sigma m D", "Rouhani 2": "sigma m D", "Nicklin Wilkes Davidson": "m D", "Gregory_Scott": "", "Dix": "sigma m D", "Sun Duffey Peng": "sigma m D P Pc", "Xu Fang voidage": "m D", "Woldesemayat Ghajar": "sigma m D P angle"}
VS = {"Beattie Whalley": "rhol rhog", "Fourar Bories": "rhol rhog", "Duckler": "rhol rhog", "McAdams": "", "Cicchitti": "", "Lin Kwok": ""}
NAMES = dict(drag=DRAG, fd=FD, curved={**HL, **HT}, Recrit=HR, packed=PB, dP2=T2, void=VD, visc=VS, **FIT)
def g(r):
    d = dict(fam=r.choice(("drag", "fd", "fd", "curved", "Recrit", "packed", "dP2", "dP2", "dP2", "void", "void", "visc", *FIT)))
    d["what"] = r.choice(("name", "name", "name", "name", "list", "list", "default", "unknown"))
    fam(r, d); d["k"] = {k: v for k, v in d["k"].items() if v is not None}
    d["name"] = r.choice(list(NAMES[d["fam"]])) if d["what"] == "name" else r.choice(("no such method", "", "rennels", "clamond")) if d["what"] == "unknown" else None
    d["ranges"] = r.choice((True, False, None))
    return d
def call(f, a, **k): return f(**a, **k)
def t(fam, what, k, name, ranges):
    import fluids as m, fluids.fittings
    R = {} if ranges is None else dict(check_ranges=ranges)
    if what == "list":
        if fam == "drag": return m.drag_sphere_methods(k["Re"], **R)
        if fam == "fd": return m.friction_factor_methods(k["Re"], k["eD"], **R)
        if fam == "curved": return m.friction_factor_curved_methods(**k, **R)
        if fam == "packed": return m.dP_packed_bed_methods(**{i: v for i, v in k.items() if i != "sphericity"}, **R)
        if fam == "dP2": return m.two_phase_dP_methods(**k, **R)
        if fam == "void": return m.liquid_gas_voidage_methods(**k, **R)
        if fam == "visc": return m.gas_liquid_viscosity_methods(**{i: v for i, v in k.items() if i[:3] == "rho"}, **R)
        return "no listing"
    f = dict(drag=m.drag_sphere, fd=m.friction_factor, curved=m.friction_factor_curved, Recrit=m.helical_Re_crit, packed=m.dP_packed_bed, dP2=m.two_phase_dP, void=m.liquid_gas_voidage, visc=m.gas_liquid_viscosity)
    if fam in f: f = f[fam]; q = {} if name is None else dict(Method=name)
    else: f = getattr(fluids.fittings, fam); q = {} if name is None else dict(method=name)
    a = f(**k, **q)
    # the stand-alone correlation, called in the same process
    n = name
    if n is None: n = default(fam, k)
    if what == "unknown" or n is None: return [a, None]
    return [a, alone(m, fam, n, k, f)]
def default(fam, k):
    if fam == "fd": return "laminar" if k["Re"] < 2040 else "Clamond"
    if fam == "Recrit": return "Schmidt"
    if fam == "packed": return "Harrison, Brunner & Hecker" if "Dt" in k else "Erdim, Akgiray & Demir"
    if fam == "dP2": return next((n for n in ("Kim_Mudawar", "Chisholm", "Zhang_Webb", "Lombardi_Pedrocchi") if all(i in k for i in T2[n].split())), None)
    if fam == "visc": return "McAdams"
    if fam == "curved": return "default"
    if fam == "drag": return "default"
    if fam in FIT: return FIT[fam][0]
def alone(m, fam, n, k, f):
    if fam == "drag":
        if n != "default": return getattr(m, n)(k["Re"])
        R = k["Re"]
        if R < .01: return m.Stokes(R)
        if R <= .1: t = (R - .01)/.09; return t*m.Barati(R) + (1 - t)*m.Stokes(R)
        return m.Barati(R) if R < 212963 else m.Barati_high(R) if 212964 < R else None
    if fam == "fd":
        if k["Re"] < 2040: return m.friction_laminar(k["Re"])
        return m.friction_laminar(k["Re"]) if n == "laminar" else getattr(m, n)(k["Re"], k["eD"])
    if fam == "curved":
        if n == "default": n = "Schmidt laminar" if k["Re"] < m.helical_transition_Re_Schmidt(k["Di"], k["Dc"]) else "Schmidt turbulent"
        c = [k["Re"], k["Di"], k["Dc"]]
        if n in HL: return getattr(m, "helical_" + HL[n])(*c)
        if n in ("Schmidt turbulent", "Prasad", "Ju", "Mandal Nigam"): c.append(k["roughness"])
        return getattr(m, "helical_turbulent_fd_" + HT[n])(*c)
    if fam == "Recrit": return getattr(m, "helical_transition_Re_" + HR[n])(k["Di"], k["Dc"])
    if fam == "packed":
        a = {i: v for i, v in k.items() if i not in ("sphericity", "Dt")}; a["dp"] = a["dp"]*k.get("sphericity", 1.0)
        if n in W3: a["Dt"] = k.get("Dt")
        return getattr(m, PB[n])(**a)
    if fam == "dP2":
        fn, q = A2.get(n, (n, {})); a = {i: k[i] for i in ["m", "x", "rhol", "D", "L"] + T2[n].split() if i in k}
        if any(i not in k for i in T2[n].split()): return None
        if n not in NOROUGH: a["roughness"] = k["roughness"]
        return getattr(m, fn)(**a, **q)
    if fam == "void":
        if any(i not in k for i in VD[n].split() if i != "angle"): return None
        a = {i: k[i] for i in (b + VD[n]).split() if i in k}
        return getattr(m, n.replace(" ", "_"))(**a)
    if fam == "visc":
        if any(i not in k for i in VS[n].split()): return None
        return getattr(m, n.replace(" ", "_"))(**{i: k[i] for i in ("x mul mug " + VS[n]).split()})
    if fam in FIT:
        q = ALONE.get((fam, n))
        if q and q[1]: return getattr(m.fittings, q[0])(**{i: k[i] for i in q[1].split()})
        return f(**k, method=n)
def need(fam, n, k, listing=True):
    if n is None: return True
    if fam == "packed": return n not in W3 or "Dt" in k or not listing   # the wall terms are optional in the correlations
    if fam == "dP2": return all(i in k for i in T2[n].split())
    if fam == "void": return all(i in k or i == "angle" for i in VD[n].split())
    if fam == "visc": return all(i in k for i in VS[n].split())
    return True
def post(d, g):
    fam, what, k, n, rg = d["fam"], d["what"], d["k"], d["name"], d["ranges"]
    if what == "list":
        if g == "no listing": return SKIP
        if isinstance(g, Err): return repr(g)
        if fam == "drag": e = [i for i, (a, b) in DRAG.items() if rg is False or ((a is None or k["Re"] > a) and k["Re"] < b)]; loose = [i for i, (a, b) in DRAG.items() if k["Re"] in (a, b)]
        elif fam == "fd":
            loose = []
            if rg is False: e = list(FD) + ["laminar"]
            elif k["Re"] < 2040: e = ["laminar"]
            else:
                q = {i: (tuple(v) + (None,)*4)[:4] for i, v in FD.items()}; ok = lambda v, a, b: (a is None or v >= a) and (b is None or v <= b)
                e = [i for i, v in q.items() if ok(k["Re"], *v[:2]) and ok(k["eD"], *v[2:])]
        elif fam == "curved":
            import math as M
            c = 2300*(1 + 8.6*(k["Di"]/k["Dc"])**.45)
            if abs(k["Re"]/c - 1) < 1e-9: return SKIP
            e = list(HL) + list(HT) if rg is False else list(HL) if k["Re"] < c else list(HT); loose = []
        else: e = [i for i in NAMES[fam] if need(fam, i, k)]; loose = []
        if len(set(g)) != len(g): return "repeated names %r" % (g,)
        w = (set(e) ^ set(g)) - set(loose)
        return "listed and not applicable, or applicable and not listed: %r" % sorted(w) if w else None
    if what == "unknown": return None if isinstance(g, Err) and isinstance(g.e, (ValueError, KeyError)) else "unknown method %r gave %r" % (n, g) if not (fam == "fd" and k["Re"] < 2040) else None
    if not need(fam, n, k, False): return None if isinstance(g, Err) and isinstance(g.e, (TypeError, ValueError)) else "missing inputs of %r gave %r" % (n, g)
    if n is None and fam == "dP2" and default(fam, k) is None: return None if isinstance(g, Err) and isinstance(g.e, ValueError) else "no method is applicable, got %r" % (g,)
    if n is None and fam == "void" : return SKIP   # the default is undocumented
    if isinstance(g, Err):
        # the stand-alone correlation raises as well, outside of its own domain
        import fluids as m
        try: v = alone(m, fam, n or default(fam, k), k, None) if fam not in FIT else None
        except Exception as e: return None if type(e) is type(g.e) else "raised %r, alone %r" % (g.e, e)
        return "%s with %r: %r" % (fam, n, g)
    if g[1] is None: return SKIP
    if isinstance(g[0], complex) or isinstance(g[1], complex): return SKIP
    if isinstance(g[0], (tuple, list)): return close(list(g[0]), list(g[1]), 1e-12, 0)
    tol = 1e-7 if fam == "fd" and (n or "Clamond") == "Clamond" else 1e-13   # the selector asks for the exact Clamond solution
    if g[0] != g[0] and g[1] != g[1]: return None
    return None if abs(g[0] - g[1]) <= tol*abs(g[1]) else "%r, stand-alone %r" % tuple(g)
S.append(Spec("method.selectors", {}, None, target=t, gen=g, post=post, n=10))
