"""P28 clear-sky (Ineichen-Perez) and isotropic transposition, from their published formulas"""
from math import *
from ..dom import *
from ..lib import adder
from ..engine import Raises, SKIP, Approx, Err, Spec, close, OneOf
from . import sun
from .msis import r_atm, ref_gtd7
S = []
s = adder(S, "optional.irradiance")
ZEN = Mix(0, 130, 0.0, 90.0, 60.0, 96.0); AZ = Mix(0, 360, 0.0, 180.0, 360.0); TILT = Mix(0, 180, 0.0, 90.0, 41.0, 180.0)
W = Mix(0, 1100, 0.0)
def proj(t, a, z, sa): return cos(radians(t))*cos(radians(z)) + sin(radians(t))*sin(radians(z))*cos(radians(sa - a))
def angle(t, a, z, sa):
    # angle between two unit vectors, stable everywhere
    v = lambda t, a: (sin(radians(t))*cos(radians(a)), sin(radians(t))*sin(radians(a)), cos(radians(t)))
    p, q = v(t, a), v(z, sa)
    c = (p[1]*q[2] - p[2]*q[1], p[2]*q[0] - p[0]*q[2], p[0]*q[1] - p[1]*q[0])
    return degrees(atan2(sqrt(sum(x*x for x in c)), sum(x*y for x, y in zip(p, q))))
def facing(a):
    a = dict(a)
    h = int(abs(a["solar_zenith"]*1e6)) % 6
    if h == 0: a["surface_tilt"] = min(180.0, a["solar_zenith"]); a["surface_azimuth"] = a["solar_azimuth"]
    if h == 1: a["surface_tilt"] = 180.0 - a["solar_zenith"]; a["surface_azimuth"] = a["solar_azimuth"] + 180.0
    return a
G4 = dict(surface_tilt=TILT, surface_azimuth=AZ, solar_zenith=ZEN, solar_azimuth=AZ)
s("aoi_projection", lambda surface_tilt, surface_azimuth, solar_zenith, solar_azimuth: proj(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth), _atol=1e-12, _fix=facing, _n=.3, **G4)
s("aoi", lambda surface_tilt, surface_azimuth, solar_zenith, solar_azimuth: Approx(angle(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth), 1e-9, 3e-6), _fix=facing, _n=1, **G4)
def comp(aoi, dni, poa_sky_diffuse, poa_ground_diffuse):
    d = max(0.0, dni*cos(radians(aoi))); f = (poa_sky_diffuse or 0.0) + poa_ground_diffuse
    return dict(poa_global=d + f, poa_direct=d, poa_diffuse=f, poa_sky_diffuse=poa_sky_diffuse, poa_ground_diffuse=poa_ground_diffuse)
s("poa_components", comp, aoi=U(0, 180), dni=W, poa_sky_diffuse=C(None, 0.0, 100.0, 312.5), poa_ground_diffuse=W, _atol=1e-11, _n=.3)
def grd(surface_tilt, ghi, albedo=.25): return ghi*albedo*(1 - cos(radians(surface_tilt)))/2
def iso(surface_tilt, dhi): return dhi*(1 + cos(radians(surface_tilt)))/2
s("get_ground_diffuse", grd, surface_tilt=TILT, ghi=W, albedo=O(U(0, 1)), _atol=1e-11, _n=.3)
s("isotropic", iso, surface_tilt=TILT, dhi=W, _atol=1e-11, _n=.3)
s("get_absolute_airmass", lambda airmass_relative, pressure=101325.: airmass_relative*pressure/101325., airmass_relative=U(1, 40), pressure=O(U(2e4, 1.1e5)), _n=.2)
def ram(z):
    if z > 96.07995: return None
    return 1/(cos(radians(z)) + .50572*(96.07995 - z)**-1.6364)
def r_ram(zenith, model="kastenyoung1989"):
    if model != "kastenyoung1989": return Raises(ValueError)
    v = ram(zenith)
    return SKIP if zenith > 90 and v is not None else float("nan") if v is None else v
s("get_relative_airmass", r_ram, zenith=Mix(0, 96, 0.0, 90.0, 100.0, 170.0), model=O(C("kastenyoung1989", "simple", "nonsense")), _n=.3)
def clear(apparent_zenith, airmass_absolute, linke_turbidity, altitude=0, dni_extra=1364., perez_enhancement=False):
    am, tl, h = airmass_absolute, linke_turbidity, altitude
    if am != am: return dict(ghi=0.0, dni=0.0, dhi=0.0)
    cz = max(0.0, cos(radians(apparent_zenith)))
    f1, f2 = exp(-h/8000.), exp(-h/1250.)
    ghi = (5.09e-5*h + .868)*dni_extra*cz*exp(-(3.92e-5*h + .0387)*am*(f1 + f2*(tl - 1)))
    if perez_enhancement: ghi *= exp(.01*am**1.8)
    b1 = dni_extra*(.664 + .163/f1)*exp(-.09*am*(tl - 1))
    b2 = ghi*(1 - (.1 - .2*exp(-tl))/(.1 + .882/f1))/cz if cz > 1e-15 else 0.0
    dni = min(b1, b2)
    return dict(ghi=ghi, dni=dni, dhi=ghi - dni*cz)
def r_ine(**a):
    if a["airmass_absolute"] != a["airmass_absolute"]: return clear(**a)
    if 89.9999 < a["apparent_zenith"] <= 90.001: return SKIP
    return {k: Approx(v, 1e-9, 1e-9) for k, v in clear(**a).items()}
s("ineichen", r_ine, apparent_zenith=ZEN, airmass_absolute=Mix(.3, 40, 1.0, float("nan")), linke_turbidity=U(1, 8), altitude=O(U(-100, 5000)), dni_extra=O(U(1300, 1420)), perez_enhancement=O(C(True, False)), _n=1,
  _post=lambda a, g: None if isinstance(g, Err) or all(g[k] >= -1e-9 for k in g) else "negative irradiance %r" % g)
def tot(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth, dni, ghi, dhi, albedo=.25):
    sky, gr = iso(surface_tilt, dhi), grd(surface_tilt, ghi, albedo)
    d = max(0.0, dni*proj(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth))
    return dict(poa_global=d + sky + gr, poa_direct=d, poa_diffuse=sky + gr, poa_sky_diffuse=sky, poa_ground_diffuse=gr)
s("get_total_irradiance", lambda **a: {k: Approx(v, 1e-9, 1e-5) for k, v in tot(**a).items()}, dni=W, ghi=W, dhi=W, albedo=O(U(0, 1)), _fix=facing, _n=1, **G4)
# ---- the whole calculation
def run(moment, **kw):
    import fluids.atmosphere as a
    return list(a.solar_irradiation(moment=sun.mk(moment), **kw))
def whole(extra, moment, latitude, longitude, Z, surface_tilt, surface_azimuth, T=None, P=None, solar_constant=1366.1, atmos_refract=.5667, albedo=.25, linke_turbidity=None, cache=None, airmass_model="kastenyoung1989", **kw):
    import datetime as D
    doy = (D.date(*moment[:3]) - D.date(moment[0], 1, 1)).days + 1
    if T is None or P is None:
        at = r_atm(Z=Z, latitude=latitude, longitude=longitude, day=doy)
        T = at["T"].v if T is None else T; P = at["P"].v if P is None else P
    if cache: ze, az = cache["apparent_zenith"], cache["azimuth"]
    else:
        q = sun.topo(sun.unix(moment), latitude, longitude, Z, P/100, T - 273.15, sun.dtm(moment), atmos_refract)
        ze, az = q["z"], q["az"]
        if abs(q["e0"] + .26667 + atmos_refract) < 5e-3 or abs(q["e0"] + 5.11) < 1: return None
    if 89.99 < ze < 90.01: return None
    am = ram(ze); am = float("nan") if am is None else am*P/101325.
    B = 2*pi/365*(doy - 1)
    Ea = solar_constant*(1.00011 + .034221*cos(B) + .00128*sin(B) + .000719*cos(2*B) + 7.7e-5*sin(2*B))
    c = clear(ze, am, linke_turbidity, Z, Ea if extra else solar_constant, True)
    t = tot(surface_tilt, surface_azimuth, ze, az, c["dni"], c["ghi"], c["dhi"], albedo)
    return [t[k] for k in ("poa_global", "poa_direct", "poa_diffuse", "poa_sky_diffuse", "poa_ground_diffuse")]
def cmp_(a, g, extra):
    w = whole(extra, **a)
    if w is None: return SKIP
    us = a["moment"][6]
    for x, y in zip(g, w):
        if abs(x - y) > (3e-6*max(1, abs(y)) + 1e-5 if not us else 1e-2*abs(y) + 1): return "components %r, expected %r" % (g, w)
def post(a, g):
    if a.get("linke_turbidity") is None:
        return None if isinstance(g, Err) and isinstance(g.e, ImportError) else SKIP
    if a.get("airmass_model", "kastenyoung1989") != "kastenyoung1989":
        return None if isinstance(g, Err) and isinstance(g.e, ValueError) else "no error for airmass model %r" % a["airmass_model"] if a["airmass_model"] == "nonsense" else SKIP
    if isinstance(g, Err): return "raised %s" % g
    if len(g) != 5 or not all(isinstance(x, float) and x == x for x in g): return "not five numbers: %r" % (g,)
    if min(g) < -1e-9: return "negative component %r" % (g,)
    if abs(g[0] - g[1] - g[2]) > 1e-8*max(1, g[0]) or abs(g[2] - g[3] - g[4]) > 1e-8*max(1, g[0]): return "components do not add up: %r" % (g,)
    return cmp_(a, g, True)
KN = [("P28-extraradiation-ignored", lambda a, g: not isinstance(g, Err) and a.get("linke_turbidity") is not None and len(g) == 5 and min(g) >= -1e-9 and abs(g[0] - g[1] - g[2]) <= 1e-8*max(1, g[0]) and abs(g[2] - g[3] - g[4]) <= 1e-8*max(1, g[0]) and cmp_(a, g, False) is None)]
def gen(r):
    d = sun.gen_pos(r); d["moment"] = sun.gen_m(r, 1950, 2100)
    # most draws near local day time
    m = d["moment"]
    if r.random() < .7:
        h = (12 - d["longitude"]/15 + (m[7] or 0)/60. + r.uniform(-5, 5)) % 24
        m[3] = int(h); 
    d["Z"] = d.get("Z", 0.0) if d.get("Z", 0.0) >= 0 else 0.0
    d["surface_tilt"] = r.choice((0.0, 90.0, 180.0, 41.0, r.uniform(0, 180))); d["surface_azimuth"] = r.choice((0.0, 180.0, r.uniform(0, 360)))
    if r.random() < .97: d["linke_turbidity"] = r.choice((3, r.uniform(1, 7)))
    if r.random() < .3: d["solar_constant"] = r.uniform(1340, 1400)
    if r.random() < .5: d["albedo"] = r.choice((0.0, 1.0, r.uniform(0, 1)))
    if r.random() < .2:
        ze = r.uniform(0, 120)
        d["cache"] = dict(zenith=ze + .01, apparent_zenith=ze, azimuth=r.uniform(0, 360))
        if r.random() < .5: d["surface_tilt"] = ze; d["surface_azimuth"] = d["cache"]["azimuth"]
    if r.random() < .05: d["airmass_model"] = r.choice(("nonsense", "kastenyoung1989"))
    return d
S.append(Spec("atmosphere.solar_irradiation", {}, None, target=run, gen=gen, post=post, known=KN, n=2))
