"""P22 solids and exchanger geometry, from the documented definitions"""
from math import *
from ..dom import *
from ..lib import adder
from ..engine import Raises, SKIP, Approx, Err, Spec
S = []
s = adder(S, "geometry")
BAD = Raises(ValueError)
def fg():
    import fluids.geometry as g
    return g
LEN = L(1e-3, 10)
s("sphericity", lambda A, V: pi*((6*V/pi)**(1/3.))**2/A, A=L(1e-6, 10), V=L(1e-9, 10), _n=.3)
s("aspect_ratio", lambda Dmin, Dmax: Dmin/Dmax, Dmin=LEN, Dmax=LEN, _n=.2)
s("circularity", lambda A, P: A/(pi*(P/(2*pi))**2), A=L(1e-6, 10), P=L(1e-3, 10), _n=.3)
s("A_cylinder", lambda D, L: pi*D*L + pi*D*D/2, D=LEN, L=LEN, _n=.2)
s("V_cylinder", lambda D, L: pi*(D/2)**2*L, D=LEN, L=LEN, _n=.2)
s("A_hollow_cylinder", lambda Di, Do, L: pi*(Di + Do)*(L + (Do - Di)/2), Di=LEN, Do=LEN, L=LEN, _atol=1e-15, _n=.3)
s("V_hollow_cylinder", lambda Di, Do, L: pi/4*(Do - Di)*(Do + Di)*L, Di=LEN, Do=LEN, L=LEN, _atol=1e-13, _n=.3)
def holes(r): return [[exp(r.uniform(-6, -1)), r.randint(1, 5)] for _ in range(r.randint(0, 4))]
def mh(nm, f):
    g = lambda r: dict(Do=exp(r.uniform(-3, 2)), L=exp(r.uniform(-3, 2)), holes=holes(r))
    S.append(Spec("geometry." + nm, {}, f, gen=g, n=.3, atol=1e-13))
mh("A_multiple_hole_cylinder", lambda Do, L, holes: pi*Do*L + pi*Do**2/2 + sum(n*(pi*d*L - pi*d*d/2) for d, n in holes))
mh("V_multiple_hole_cylinder", lambda Do, L, holes: pi/4*L*(Do**2 - sum(n*d*d for d, n in holes)))
def simpson(f, n=400):
    # periodic integrand: the trapezoid rule converges geometrically
    return sum(f((i + .5)/n) for i in range(n))/n
def pef(a, w): return simpson(lambda x: sqrt(1 + (2*pi*a/w*cos(2*pi*x))**2), 4000 if a/w > 3 else 600)
s("plate_enlargement_factor", lambda amplitude, wavelength: Approx(pef(amplitude, wavelength), 1e-8), amplitude=L(1e-5, .05), wavelength=L(1e-3, .1), _n=.1, _fix=lambda a: a if a["amplitude"] < 5*a["wavelength"] else None)
# ---- pitch solver
def pas(**a):
    n = [k for k in ("angle", "pitch", "pitch_parallel", "pitch_normal") if k in a]
    if len(n) < 2: return BAD
    if len(n) > 2: return SKIP
    if n == ["angle", "pitch"]: th, p = radians(a["angle"]), a["pitch"]
    elif n == ["angle", "pitch_normal"]: th = radians(a["angle"]); p = a["pitch_normal"]/sin(th)
    elif n == ["angle", "pitch_parallel"]: th = radians(a["angle"]); p = a["pitch_parallel"]/cos(th)
    elif n == ["pitch_parallel", "pitch_normal"]: th = atan2(a["pitch_normal"], a["pitch_parallel"]); p = hypot(a["pitch_normal"], a["pitch_parallel"])
    else:
        x = a["pitch_normal"] if "pitch_normal" in a else a["pitch_parallel"]; p = a["pitch"]
        if x > p: return BAD
        th = asin(x/p) if "pitch_normal" in a else acos(x/p)
    return Approx((degrees(th), p, p*cos(th), p*sin(th)), 1e-7, 1e-9*p)
PO = O(L(.01, .2), .5)
s("pitch_angle_solver", pas, angle=O(Mix(1, 89, 30.0, 45.0, 60.0), .5), pitch=PO, pitch_parallel=PO, pitch_normal=PO)
# ---- objects: attribute dictionaries
def obj(cls, kwargs, calls=()):
    o = getattr(fg(), cls)(**kwargs)
    out = {k: v for k, v in vars(o).items() if isinstance(v, (int, float, str, tuple, list, type(None)))}
    for c in calls: out[c] = getattr(o, c)
    return out
def attrs(exp, rt=1e-9):
    return {k: v if v is None or isinstance(v, (str, int)) else Approx(v, rt) for k, v in exp.items()}
# helical coil
def gen_coil(r):
    Dt = exp(r.uniform(-6, -2)); Do = Dt*exp(r.uniform(-.2, 4)); N = r.choice((r.uniform(.5, 40), r.randint(1, 40))); p = Dt*exp(r.uniform(-.3, 2)) if r.random() < .9 else Dt
    H = N*p
    d = dict(Dt=Dt)
    d.update({"Do": Do} if r.random() < .5 else {"Do_total": Do + Dt})
    w = r.choice(("NP", "NH", "HP", "N", "P", "H", "NHP") if r.random() < .3 else ("NP", "NH", "HP"))
    if "N" in w: d["N"] = N
    if "P" in w: d["pitch"] = p
    if "H" in w: d.update({"H": H} if r.random() < .5 else {"H_total": H + Dt})
    if r.random() < .5: d["Di"] = Dt*r.uniform(.5, .99)
    if r.random() < .03: d.pop("Do", None); d.pop("Do_total", None)
    return dict(kwargs=d)
def r_coil(kwargs):
    d = dict(kwargs); Dt = d["Dt"]
    if "Do" not in d and "Do_total" not in d: return BAD
    Do = d["Do"] if "Do" in d else d["Do_total"] - Dt
    H = d["H"] if "H" in d else d["H_total"] - Dt if "H_total" in d else None
    N, p = d.get("N"), d.get("pitch")
    if sum(x is not None for x in (H, N, p)) < 2: return BAD
    chk = True
    if N is not None and p is not None: H = N*p; chk = False
    elif N is not None: p = H/N
    else: N = H/p
    if min(abs(p/Dt - 1), abs(Do/Dt - 1)) < 1e-9: return SKIP
    if chk and p < Dt or Dt > Do: return BAD
    turn = hypot(pi*Do, p)
    Lt = N*turn
    ar = atan2(p, pi*Do)
    e = dict(Dt=Dt, Do=Do, N=N, pitch=p, H=H, Do_total=Do + Dt, H_total=H + Dt, tube_circumference=pi*Do, tube_length=Lt, surface_area=pi*Dt*Lt, helix_angle=ar,
             curvature=Dt/Do/(1 + (2*p/Do)**2), total_inlet_area=pi*Dt**2/4, total_volume=pi*Dt**2/4*Lt)
    if "Di" in d:
        Di = d["Di"]
        e.update(Di=Di, inner_surface_area=pi*Di*Lt, inlet_area=pi*Di**2/4, inner_volume=pi*Di**2/4*Lt, annulus_area=pi/4*(Dt**2 - Di**2), annulus_volume=pi/4*(Dt**2 - Di**2)*Lt)
    return attrs(e, 1e-8)
def add(cls, gen, ref, calls=(), n=1.0, target=None, nm=None):
    S.append(Spec("geometry." + (nm or cls), {}, ref, target=target or (lambda kwargs: obj(cls, kwargs, calls)), gen=gen, n=n))
add("HelicalCoil", gen_coil, r_coil)
# plate exchanger
def gen_plate(r):
    w = exp(r.uniform(-6, -3))
    d = dict(wavelength=w, amplitude=w*exp(r.uniform(-4, .5)))
    if r.random() < .4: d["chevron_angle"] = r.choice((30, 45, 60, 65.5))
    if r.random() < .4: d["chevron_angles"] = [r.choice((30, 45, 60, 65.5)), r.choice((25, 45, 50))]
    for k, v in (("width", r.uniform(.1, 3)), ("length", r.uniform(.1, 3)), ("d_port", r.uniform(.01, .3)), ("plates", r.randint(3, 200)), ("thickness", 1e-3)):
        if r.random() < .6: d[k] = v
    return dict(kwargs=d)
def r_plate(kwargs):
    d = kwargs; a, w = d["amplitude"], d["wavelength"]
    cs = d.get("chevron_angles") or [d.get("chevron_angle", 45)]*2
    phi = pef(a, w); beta = .5*(cs[0] + cs[1])
    e = dict(amplitude=a, a=a, b=2*a, wavelength=w, pitch=w, chevron_angle=float(beta), beta=float(beta), inclination_angle=90. - beta, gamma=4*a/w, plate_corrugation_aspect_ratio=4*a/w,
             plate_enlargement_factor=phi, D_eq=4*a, D_hydraulic=4*a/phi, plate_exchanger_identifier="L%sA%sB%s-%s" % (round(w*1000, 2), round(a*1000, 2), *cs))
    W, Lg, P = d.get("width"), d.get("length"), d.get("plates")
    g = dict(width=W, length=Lg, plates=P, thickness=d.get("thickness"), d_port=d.get("d_port"), length_port=Lg + d["d_port"] if Lg and "d_port" in d else None,
             A_plate_surface=Lg*W*phi if Lg and W else None, A_heat_transfer=(P - 2)*Lg*W*phi if Lg and W and P else None, A_channel_flow=2*a*W if W else None,
             channels=P - 1 if P else None, channels_per_fluid=(P - 1)/2 if P else None)
    out = attrs(e, 1e-8); out.update(attrs({k: v for k, v in g.items() if v is not None}, 1e-8))
    out["chevron_angles"] = tuple(cs)
    return out
def t_plate(kwargs):
    d = dict(kwargs)
    if "chevron_angles" in d: d["chevron_angles"] = tuple(d["chevron_angles"])
    return obj("PlateExchanger", d, ("plate_exchanger_identifier",))
add("PlateExchanger", gen_plate, r_plate, target=t_plate, n=.3)
# plate-fin exchangers
def gen_fin(r):
    h = exp(r.uniform(-6.5, -4)); sp = exp(r.uniform(-7.5, -5)); t = min(h, sp)*r.uniform(.01, .4)
    d = dict(fin_height=h, fin_thickness=t, fin_spacing=sp)
    for k, v in (("length", r.uniform(.1, 3)), ("width", r.uniform(.1, 3)), ("layers", r.randint(1, 60)), ("plate_thickness", r.uniform(2e-4, 2e-3))):
        if r.random() < .75: d[k] = v
    return dict(kwargs=d)
def overall(d, per):
    h, sp = d["fin_height"], d["fin_spacing"]
    e = dict(fin_count=1/sp)
    if "plate_thickness" in d: e["layer_thickness"] = h + d["plate_thickness"]
    if "length" in d and "width" in d:
        x = d["width"]/sp
        if abs(x % 1 - .5) < 1e-6: return None
        n = float(floor(x + .5))
        e.update(layer_fin_count=n, A_HX_layer=n*per*d["length"])
        if "layers" in d:
            e["A_HX"] = e["A_HX_layer"]*d["layers"]
            if "plate_thickness" in d:
                H = d["layers"]*(h + d["plate_thickness"]) + d["plate_thickness"]
                e.update(height=H, volume=H*d["length"]*d["width"], A_specific_HX=e["A_HX"]/(H*d["length"]*d["width"]))
    return e
def r_fin(kwargs):
    d = kwargs; h, t, sp = d["fin_height"], d["fin_thickness"], d["fin_spacing"]
    A, P = (sp - t)*(h - t), 2*(sp - t) + 2*(h - t)
    o = overall(d, P)
    if o is None: return SKIP
    return attrs(dict(o, channel_height=h - t, channel_width=sp - t, A_channel=A, P_channel=P, Dh=4*A/P, blockage_ratio=A/(sp*h), h=h, t=t, s=sp))
add("RectangularFinExchanger", gen_fin, r_fin, n=.4)
def gen_osf(r):
    a = gen_fin(r); a["kwargs"]["fin_length"] = exp(r.uniform(-7, -4))
    return a
def r_osf(kwargs):
    d = kwargs; h, t, sp, l = d["fin_height"], d["fin_thickness"], d["fin_spacing"], d["fin_length"]
    A, P = (sp - t)*(h - t), 2*(sp - t) + 2*(h - t)
    o = overall(d, P)
    if o is None: return SKIP
    AA = 2*l*(h - t) + 2*l*(sp - t) + 2*t*(h - t) + t*(sp - 2*t)
    return attrs(dict(o, alpha=sp/h, delta=t/l, gamma=t/sp, A_channel=A, P_channel=P, A=AA, Dh=4*l*A/AA, Dh_Kays_London=4*A/P, blockage_ratio_Kim=1 - A/(h*sp),
                      Dh_Joshi_Webb=2*l*(h - t)*(sp - 2*t)/(l*(h - t) + l*(sp - t) + t*(h - t))))
add("RectangularOffsetStripFinExchanger", gen_osf, r_osf, n=.4)
# cooling tower
def gen_ct(r):
    H = r.uniform(40, 250); Hi = H*r.uniform(.01, .2); Dt = r.uniform(10, 120); Do = Dt*r.uniform(1.001, 1.5)
    d = dict(H_inlet=Hi, D_outlet=Do, H_outlet=H)
    if r.random() < .6: d["D_throat"] = Dt
    if r.random() < .6: d["H_throat"] = H*r.uniform(.3, .95)
    u = r.random()
    Dn = Dt/.63 if "D_throat" not in d else Dt*r.uniform(1.01, 2)
    if u < .55: d["D_inlet"] = Dn
    elif u < .9: d["D_base"] = Dt*r.uniform(1.01, 2)
    if r.random() < .3: d.update(H_support=3.0, D_support=.5, n_support=20, inlet_rounding=.1)
    ht = d.get("H_throat", 2/3*H)
    zs = [r.uniform(0, H) for _ in range(4)] + [0.0, ht, H, Hi]
    return dict(kwargs=d, zs=zs)
def r_ct(kwargs, zs):
    d = kwargs; H, Hi = d["H_outlet"], d["H_inlet"]
    Ht = d.get("H_throat", 2*H/3)
    if "D_inlet" not in d and "D_base" not in d: return BAD
    if "D_throat" not in d and "D_inlet" not in d: return BAD
    Dt = d.get("D_throat", .63*d.get("D_inlet", 0))
    if d["D_outlet"] < Dt*(1 + 1e-6): return SKIP
    # diameter^2 = Dt^2(1 + (z - Ht)^2/b^2): fixed by the one known point under the throat
    if "D_base" in d: c = ((d["D_base"]/Dt)**2 - 1)/Ht**2
    else: c = ((d["D_inlet"]/Dt)**2 - 1)/(Ht - Hi)**2
    cu = ((d["D_outlet"]/Dt)**2 - 1)/(H - Ht)**2
    D = lambda z: Dt*sqrt(1 + (c if z <= Ht else cu)*(z - Ht)**2)
    return dict(D_throat=Approx(Dt, 1e-9), H_throat=Approx(Ht, 1e-9), D_inlet=Approx(D(Hi), 1e-8), D_base=Approx(D(0), 1e-8), b_lower=Approx(1/sqrt(c), 1e-7),
                D=[Approx(D(z), 1e-7) for z in zs], b_upper=Approx(1/sqrt(cu), 1e-7),
                rest=[d.get("H_support"), d.get("D_support"), d.get("n_support"), d.get("inlet_rounding"), d["D_outlet"], Hi, H])
def t_ct(kwargs, zs):
    o = fg().HyperbolicCoolingTower(**kwargs)
    return dict(D_throat=o.D_throat, H_throat=o.H_throat, D_inlet=o.D_inlet, D_base=o.D_base, b_lower=o.b_lower, D=[o.diameter(z) for z in zs], b_upper=o.b_upper, rest=[o.H_support, o.D_support, o.n_support, o.inlet_rounding, o.D_outlet, o.H_inlet, o.H_outlet])
add("HyperbolicCoolingTower", gen_ct, r_ct, target=t_ct, n=.5)
# air cooler
def gen_ac(r):
    Dt = r.uniform(.01, .05)
    d = dict(tube_rows=r.randint(1, 8), tube_passes=r.randint(1, 4), tubes_per_row=r.randint(5, 80), tube_length=r.uniform(1, 15), tube_diameter=Dt, fin_thickness=r.uniform(1e-4, 5e-4))
    p, th = Dt*r.uniform(1.8, 3), r.choice((30, 60, 45, 90, r.uniform(20, 80)))
    w = r.choice(("AP", "AR", "AN", "AL", "PN", "PL", "NL", "RN", "RL", "PR", "A"))
    if w == "PR": d.update(pitch=p, pitch_ratio=p/Dt, angle=th)
    if "A" in w: d["angle"] = th
    if "P" in w: d["pitch"] = p
    if "R" in w: d["pitch_ratio"] = p/Dt
    if "N" in w: d["pitch_normal"] = p*sin(radians(th))
    if "L" in w: d["pitch_parallel"] = p*cos(radians(th)) if th != 90 else p
    fh = Dt*r.uniform(.2, .8)
    u = r.random()
    if u < .45: d["fin_diameter"] = Dt + 2*fh
    elif u < .95: d["fin_height"] = fh
    fd = r.uniform(200, 500)
    u = r.random()
    if u < .45: d["fin_density"] = fd
    elif u < .95: d["fin_interval"] = 1/fd
    for k, v in (("parallel_bays", r.randint(1, 5)), ("bundles_per_bay", r.randint(1, 4)), ("fans_per_bay", 2), ("corbels", True), ("tube_thickness", Dt*r.uniform(.02, .2)), ("fan_diameter", 3.0)):
        if r.random() < .5: d[k] = v
    return dict(kwargs=d)
def r_ac(kwargs):
    d = kwargs; Dt, Lt, t = d["tube_diameter"], d["tube_length"], d["fin_thickness"]
    if "pitch" in d and "pitch_ratio" in d: return BAD
    q = {k: d[k] for k in ("angle", "pitch", "pitch_parallel", "pitch_normal") if k in d}
    if "pitch_ratio" in d: q["pitch"] = d["pitch_ratio"]*Dt
    v = pas(**q)
    if v is BAD: return BAD
    if not isinstance(v, Approx): return SKIP
    ang, p, pp, pn = v.v
    if "fin_diameter" not in d and "fin_height" not in d or "fin_density" not in d and "fin_interval" not in d: return BAD
    fh = d["fin_height"] if "fin_height" in d else (d["fin_diameter"] - Dt)/2
    Df = Dt + 2*fh
    fi = d["fin_interval"] if "fin_interval" in d else 1/d["fin_density"]
    nb, bb = d.get("parallel_bays", 1), d.get("bundles_per_bay", 1)
    tr, rows = d["tubes_per_row"], d["tube_rows"]
    e = dict(pitch=p, pitch_ratio=p/Dt, fin_height=fh, fin_diameter=Df, fin_interval=fi, fin_density=1/fi, bare_length=fi - t, pitch_diagonal=hypot(pp, pn/2))
    N = dict(tube=1, row=tr, bundle=tr*rows, bay=tr*rows*bb); tot = tr*rows*bb*nb
    e.update(tubes_per_bundle=tr*rows, tubes_per_bay=tr*rows*bb, tubes=tot)
    bare = pi*Dt*Lt; show = bare*(fi - t)/fi; fin = (pi/2*(Df**2 - Dt**2) + pi*Df*t); fpt = Lt/fi*fin
    for n, x in (("A_bare_tube", bare), ("A_tube_showing", show), ("A_fin", fpt), ("A", show + fpt)):
        for k, m in N.items(): e["%s_per_%s" % (n, k)] = x*m
        e[n] = x*tot
    e["A_per_fin"] = fin; e["A_increase"] = (show + fpt)/bare
    blk = Dt + 2*fh*t/fi
    dg, nm = 2*tr*Lt*(e["pitch_diagonal"] - blk), tr*Lt*(pn - blk)
    mn = min(dg, nm)
    face = pn*Lt*(tr + (.5 if d.get("corbels") else 1.0))
    e.update(A_diagonal_per_bundle=dg, A_normal_per_bundle=nm, A_min_per_bundle=mn, A_min_per_bay=mn*bb, A_min=mn*bb*nb, A_face_per_bundle=face, A_face_per_bay=face*bb, A_face=face*bb*nb, flow_area_contraction_ratio=mn/face)
    out = attrs(e, 1e-7)
    for k in ("A_diagonal_per_bundle", "A_normal_per_bundle", "A_min_per_bundle", "A_min_per_bay", "A_min", "flow_area_contraction_ratio"): out[k] = Approx(e[k], 1e-6, 1e-7*(e[k.replace("A_diagonal", "A_face").replace("A_normal", "A_face").replace("A_min", "A_face")] if k[0] == "A" else 1))
    if "tube_thickness" in d:
        Di = Dt - 2*d["tube_thickness"]; af = pi/4*Di*Di
        x = dict(Di=Di, A_tube_flow=af, A_tube_flow_per_row=af*tr, A_tube_flow_per_bundle=af*tr*rows, A_tube_flow_per_bay=af*tr*rows*bb, A_tube_flow_total=af*tot, tube_volume=af*Lt*tot)
        for k, m in N.items(): x["tube_volume_per_" + k] = af*Lt*m
        out.update(attrs(x, 1e-9))
    else: out.update({k: None for k in ("Di", "A_tube_flow", "tube_volume", "A_tube_flow_total") + tuple("A_tube_flow_per_" + k for k in N if k != "tube") + tuple("tube_volume_per_" + k for k in N)})
    for k in ("tube_rows", "tube_passes", "tubes_per_row", "tube_length", "tube_diameter", "fin_thickness", "fans_per_bay", "fan_diameter", "corbels", "tube_thickness"):
        if k in d: out[k] = d[k]
    out["parallel_bays"], out["bundles_per_bay"] = nb, bb
    out["channels"] = Approx(tr*rows/d["tube_passes"] if rows % d["tube_passes"] == 0 else tr, 1e-9)
    if "angle" in d: out["pitch_str"], out["pitch_class"] = {30: ("triangular", "staggered"), 60: ("rotated triangular", "staggered"), 45: ("rotated square", "in-line"), 90: ("square", "in-line")}.get(d["angle"], ("custom", "custom"))
    return out
add("AirCooledExchanger", gen_ac, r_ac, n=.6)
