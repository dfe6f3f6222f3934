"""P27 solar position: the published Solar Position Algorithm written out, and an independent low-precision ephemeris (Meeus ch. 25)"""
import json, os, calendar, datetime as D
from math import *
from ..dom import *
from ..engine import Raises, SKIP, Approx, Err, Spec, close
S = []
T_ = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "spa.json")))
AU = 149597870700.0
def ser(rows, t): return sum(a*cos(b + c*t) for a, b, c in rows)
def helio(t):
    Lr = [T_["HELIO_LONG_TABLE_LIST_%d" % i] for i in range(5)] + [[[1.0, 3.14, 0.0]]]
    Rr = [T_["HELIO_RADIUS_TABLE_LIST_%d" % i] for i in range(4)] + [[[4.0, 2.56, 6283.08]]]
    Br = [T_["HELIO_LAT_TABLE_LIST_%d" % i] for i in range(2)]
    f = lambda q: sum(ser(r, t)*t**i for i, r in enumerate(q))/1e8
    return degrees(f(Lr)), degrees(f(Br)), f(Rr)
def nutation(c):
    X = [297.85036 + 445267.111480*c - .0019142*c*c + c**3/189474, 357.52772 + 35999.050340*c - .0001603*c*c - c**3/300000, 134.96298 + 477198.867398*c + .0086972*c*c + c**3/56250,
         93.27191 + 483202.017538*c - .0036825*c*c + c**3/327270, 125.04452 - 1934.136261*c + .0020708*c*c + c**3/450000]
    ps = ep = 0.0
    for row in range(63):
        a, b, cc, d = T_["NUTATION_ABCD_LIST"][row]
        arg = radians(sum(X[j]*T_["NUTATION_YTERM_LIST_%d" % j][row] for j in range(5)))
        ps += (a + b*c)*sin(arg); ep += (cc + d*c)*cos(arg)
    return ps/36e6, ep/36e6, X
def geo(jd, dt):
    """apparent sidereal time at Greenwich, right ascension and declination of the sun, and intermediate values"""
    c = (jd + dt/86400.0 - 2451545.0)/36525.0; t = c/10
    Lh, B, R = helio(t)
    psi, eps_, X = nutation(c)
    U = t/10
    e0 = 84381.448 + sum(k*U**(i + 1) for i, k in enumerate((-4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12, 27.87, 5.79, 2.45)))
    eps = e0/3600 + eps_
    lam = Lh + 180 + psi - 20.4898/(3600*R)
    jc = (jd - 2451545.0)/36525.0
    nu = (280.46061837 + 360.98564736629*(jd - 2451545.0) + .000387933*jc*jc - jc**3/38710000.0) % 360 + psi*cos(radians(eps))
    la, be, ee = radians(lam), radians(-B), radians(eps)
    ra = degrees(atan2(sin(la)*cos(ee) - tan(be)*sin(ee), cos(la))) % 360
    dec = degrees(asin(sin(be)*cos(ee) + cos(be)*sin(ee)*sin(la)))
    return dict(nu=nu, ra=ra, dec=dec, R=R, psi=psi, eps=eps, t=t, lam=lam, eps_=eps_, X=X, B=B, Lh=Lh % 360, e0=e0)
def refraction(p, temp, e0, ar):
    if e0 < -(.26667 + ar): return 0.0
    return p/1010*283/(273 + temp)*1.02/(60*tan(radians(e0 + 10.3/(e0 + 5.11))))
def topo(ut, lat, lon, elev, p, temp, dt, ar):
    g = geo(ut/86400.0 + 2440587.5, dt)
    H = radians(g["nu"] + lon - g["ra"])
    xi = radians(8.794/(3600*g["R"]))
    ph, de = radians(lat), radians(g["dec"])
    u = atan(.99664719*tan(ph)); x = cos(u) + elev/6378140*cos(ph); y = .99664719*sin(u) + elev/6378140*sin(ph)
    da = atan2(-x*sin(xi)*sin(H), cos(de) - x*sin(xi)*cos(H))
    dp = atan2((sin(de) - y*sin(xi))*cos(da), cos(de) - x*sin(xi)*cos(H))
    Hp = H - da
    e0 = degrees(asin(sin(ph)*sin(dp) + cos(ph)*cos(dp)*cos(Hp)))
    e = e0 + refraction(p, temp, e0, ar)
    az = (degrees(atan2(sin(Hp), cos(Hp)*sin(ph) - tan(dp)*cos(ph))) + 180) % 360
    t = g["t"]
    M = 280.4664567 + 360007.6982779*t + .03032028*t*t + t**3/49931 - t**4/15300 - t**5/2e6
    E = 4*((M - .0057183 - g["ra"] + g["psi"]*cos(radians(g["eps"])) + 180) % 360 - 180)
    return dict(z=90 - e, z0=90 - e0, e=e, e0=e0, az=az, eot=E, g=g)
def deltat(year, month):
    y = year + (month - .5)/12
    P = lambda t, *c: sum(k*t**i for i, k in enumerate(c))
    if year < -500: return -20 + 32*((y - 1820)/100)**2
    if year < 500: return P(y/100, 10583.6, -1014.41, 33.78311, -5.952053, -.1798452, .022174192, .0090316521)
    if year < 1600: return P((y - 1000)/100, 1574.2, -556.01, 71.23472, .319781, -.8503463, -.005050998, .0083572073)
    if year < 1700: return P(y - 1600, 120, -.9808, -.01532, 1/7129.)
    if year < 1800: return P(y - 1700, 8.83, .1603, -.0059285, .00013336, -1/1174000.)
    if year < 1860: return P(y - 1800, 13.72, -.332447, .0068612, .0041116, -.00037436, .0000121272, -.0000001699, .000000000875)
    if year < 1900: return P(y - 1860, 7.62, .5737, -.251754, .01680668, -.0004473624, 1/233174.)
    if year < 1920: return P(y - 1900, -2.79, 1.494119, -.0598939, .0061966, -.000197)
    if year < 1941: return P(y - 1920, 21.20, .84493, -.076100, .0020936)
    if year < 1961: return P(y - 1950, 29.07, .407, -1/233., 1/2547.)
    if year < 1986: return P(y - 1975, 45.45, 1.067, -1/260., -1/718.)
    if year < 2005: return P(y - 2000, 63.86, .3345, -.060374, .0017275, .000651814, .00002373599)
    if year < 2050: return P(y - 2000, 62.92, .32217, .005589)
    if year < 2150: return -20 + 32*((y - 1820)/100)**2 - .5628*(2150 - y)
    return -20 + 32*((y - 1820)/100)**2
def meeus(ut, dt):
    """independent low precision solar coordinates: distance, right ascension, declination, Greenwich mean sidereal time"""
    jd = ut/86400.0 + 2440587.5
    c = (jd + dt/86400.0 - 2451545.0)/36525
    L0 = 280.46646 + 36000.76983*c + .0003032*c*c; M = radians(357.52911 + 35999.05029*c - .0001537*c*c); e = .016708634 - .000042037*c
    C = (1.914602 - .004817*c)*sin(M) + (.019993 - .000101*c)*sin(2*M) + .000289*sin(3*M)
    th = L0 + C; v = M + radians(C); R = 1.000001018*(1 - e*e)/(1 + e*cos(v))
    om = radians(125.04 - 1934.136*c); la = radians(th - .00569 - .00478*sin(om))
    ep = radians(23.439291 - .0130042*c + .00256*cos(om))
    d = jd - 2451545.0
    return R, degrees(atan2(cos(ep)*sin(la), cos(la))) % 360, degrees(asin(sin(ep)*sin(la))), (280.46061837 + 360.98564736629*d) % 360
def low_elev(ut, lat, lon, dt):
    R, ra, de, th = meeus(ut, dt)
    H = radians(th + lon - ra); ph, de = radians(lat), radians(de)
    return degrees(asin(max(-1, min(1, sin(ph)*sin(de) + cos(ph)*cos(de)*cos(H))))), R
# ---- moments are given as [y, m, d, h, mi, s, us, offset minutes or None]
def mk(m):
    y, mo, d, h, mi, s, us, off = m
    return D.datetime(y, mo, d, h, mi, s, us, tzinfo=None if off is None else D.timezone(D.timedelta(minutes=off)))
def unix(m):
    y, mo, d, h, mi, s, us, off = m
    return calendar.timegm((y, mo, d, h, mi, s, 0, 0, 0)) - (off or 0)*60
def gen_m(r, lo=1905, hi=2145):
    y = r.choice((r.randint(1950, 2049), r.randint(lo, hi), r.choice((1960, 1961, 1985, 1986, 2004, 2005, 2049, 2050)), 2024))
    mo = r.randint(1, 12)
    m, d = r.choice(((mo, r.randint(1, 28)), (mo, r.randint(1, 28)), (1, 1), (12, 31), (2, 28), (3, 20), (6, 21), (12, 21), (9, 23)))
    off = r.choice((None, None, None, 0, r.choice((-720, -570, -360, -210, 60, 330, 345, 600, 765, 840))))
    return [y, m, d, r.choice((0, 23, r.randint(0, 23))), r.choice((0, 59, r.randint(0, 59))), r.randint(0, 59), 0 if r.random() < .9 else r.randint(1, 999999), off]
def dtm(m):
    u = D.datetime(1970, 1, 1) + D.timedelta(seconds=unix(m))
    return deltat(u.year, u.month)
def gen_lat(r): return r.choice((0.0, 90.0, -90.0, 23.44, 66.56, r.uniform(-90, 90), r.uniform(-66, 66), r.uniform(-66, 66)))
def gen_lon(r): return r.choice((0.0, 180.0, -180.0, r.uniform(-180, 180), r.uniform(-180, 180), r.uniform(-180, 180)))
def gen_pos(r):
    d = dict(moment=gen_m(r), latitude=gen_lat(r), longitude=gen_lon(r))
    if r.random() < .6: d["Z"] = r.uniform(-400, 9000)
    if r.random() < .6: d["T"] = r.uniform(220, 330)
    if r.random() < .6: d["P"] = r.uniform(3e4, 1.1e5)
    if r.random() < .5: d["atmos_refract"] = r.choice((.5667, 0.0, r.uniform(0, 3)))
    return d
def run_pos(moment, **kw):
    import fluids.atmosphere as a
    return list(a.solar_position(mk(moment), **kw))
def r_pos(moment, latitude, longitude, Z=0.0, T=298.15, P=101325.0, atmos_refract=0.5667):
    m, us = moment[:6] + [0, moment[7]], moment[6]
    q = topo(unix(m), latitude, longitude, Z, P/100, T - 273.15, dtm(m), atmos_refract)
    e0, ar = q["e0"], atmos_refract
    if abs(e0 + .26667 + ar) < 5e-3 or abs(e0 + 5.11) < 1: return SKIP
    tol = 6e-7 if not us else 6e-3
    if e0 < -1.5 and q["e"] != e0: tol += 1e-6
    zen = 90 - abs(q["e0"])
    ta = tol if zen > 1 else tol/max(1e-9, sin(radians(zen)))
    az = q["az"]
    azok = Approx(az, 0, max(ta, ta/max(cos(radians(latitude)), 1e-9) if abs(latitude) > 89.9 else ta))
    return [Approx(q[k], 1e-10, tol if k != "z" and k != "e" else tol*3) for k in ("z", "z0", "e", "e0")] + [Circ(az, max(1e-7, 20*ta) if us else max(2e-6, 3*ta)), Approx(q["eot"]*60, 1e-8, 5e-5 if not us else 1e-3)]
class Circ:
    """an angle modulo 360 degrees"""
    def __init__(s, v, tol): s.v, s.tol = v, tol
    def __repr__(s): return "Circ(%r, %g)" % (s.v, s.tol)
    def ok(s, g): return isinstance(g, float) and 0 <= g <= 360 and abs((g - s.v + 180) % 360 - 180) <= s.tol
def p_pos(a, g):
    if isinstance(g, Err): return None
    z, z0, e, e0, az, eot = g
    if abs(z + e - 90) > 1e-9 or abs(z0 + e0 - 90) > 1e-9: return "zenith and altitude are not complementary"
    m = a["moment"]; el, _ = low_elev(unix(m) + m[6]*1e-6, a["latitude"], a["longitude"], dtm(m))
    if abs(el - e0) > .03: return "altitude %r is far from an independent ephemeris %r" % (e0, el)
    if abs(eot) > 1080: return "equation of time out of range %r" % eot
S.append(Spec("atmosphere.solar_position", {}, None, target=run_pos, gen=gen_pos, post=lambda a, g: p_pos(a, g) or cmp_pos(a, g), n=2))
def cmp_pos(a, g):
    ex = r_pos(**a)
    if ex is SKIP: return None
    if isinstance(g, Err): return "raised %s" % g
    for i, (x, y) in enumerate(zip(g, ex)):
        if isinstance(y, Circ):
            if not y.ok(x): return "azimuth %r, expected %r" % (x, y)
        else:
            w = close(x, y, 1e-9, 0.0)
            if w: return "value %d: %s" % (i, w)
def run_esd(moment):
    import fluids.atmosphere as a
    return a.earthsun_distance(mk(moment))
def r_esd(moment):
    m = moment
    return Approx(AU*helio((unix(m)/86400.0 + 2440587.5 + dtm(m)/86400.0 - 2451545.0)/365250.)[2], 2e-9 if m[6] == 0 else 1e-8)
def p_esd(a, g):
    if isinstance(g, Err): return None
    R = meeus(unix(a["moment"]), dtm(a["moment"]))[0]
    if abs(g/AU - R) > 1.2e-4: return "distance %r au far from an independent ephemeris %r" % (g/AU, R)
S.append(Spec("atmosphere.earthsun_distance", {}, r_esd, target=run_esd, post=p_esd, gen=lambda r: dict(moment=gen_m(r)), n=1))
# ---- sunrise, transit, sunset
def elev0(ut, lat, lon, dt):
    g = geo(ut/86400.0 + 2440587.5, dt)
    H, ph, de = radians(g["nu"] + lon - g["ra"]), radians(lat), radians(g["dec"])
    return degrees(asin(max(-1.0, min(1.0, sin(ph)*sin(de) + cos(ph)*cos(de)*cos(H))))), (degrees(H) + 180) % 360 - 180, de, ph
def run_rise(moment, latitude, longitude):
    import fluids.atmosphere as a
    out = []
    for t in a.sunrise_sunset(mk(moment), latitude, longitude):
        off = t.utcoffset()
        if (off is None) != (moment[7] is None): raise AssertionError("time zone of the result differs from that given")
        if off is not None and off != D.timedelta(minutes=moment[7]): raise AssertionError("time zone of the result differs from that given")
        t0 = t.replace(tzinfo=None) - (off or D.timedelta(0))
        out.append((t0 - D.datetime(1970, 1, 1)).total_seconds())
    return out
def p_rise(a, g):
    m, lat, lon = a["moment"], a["latitude"], a["longitude"]
    u = D.datetime(*m[:3])
    dt = deltat(u.year, u.month)
    noon = calendar.timegm(u.timetuple()) + 43200
    de = elev0(noon, lat, lon, dt)[2]
    cx = (sin(radians(-.8333)) - sin(radians(lat))*sin(de))/(cos(radians(lat))*cos(de)) if abs(lat) < 90 else 9
    if isinstance(g, Err):
        return "raised %s" % g if abs(cx) < .97 and abs(lat) <= 66 else None
    if any(x != x for x in g): return "NaN" if abs(cx) < .97 and abs(lat) <= 66 else None
    if abs(cx) > .9 or abs(lat) > 66: return SKIP             # grazing sun: one Newton step is not accurate
    rise, sset, tr = g
    if not rise < tr < sset: return "sunrise, transit and sunset are not ordered: %r" % (g,)
    if sset - rise > 86400: return "day longer than 24 h"
    day0 = calendar.timegm(u.timetuple())
    if not day0 - 300 <= tr <= day0 + 86700: return ("WRONGDAY" if day0 - 86400 <= tr <= day0 + 2*86400 else "") + " transit is not on the specified day"
    return crossing(a, g, dt)
def crossing(a, g, dt):
    lat, lon = a["latitude"], a["longitude"]
    rise, sset, tr = g
    H = elev0(tr, lat, lon, dt)[1]
    if abs(H) > .02: return "hour angle %r at transit" % H
    late = None
    for nm, t, sg in (("sunrise", rise, -1), ("sunset", sset, 1)):
        e, H, de, ph = elev0(t, lat, lon, dt)
        if H*sg < 0: return "%s on the wrong side of noon" % nm
        rate = 360.9856*abs(cos(de)*cos(ph)*sin(radians(H)))/max(cos(radians(e)), .1)/86400   # degrees per second
        err = (e + .8333)/rate
        if abs(err) <= 8: continue
        e2, H2, de2, ph2 = elev0(t + 86400*(1 if nm == "sunrise" else -1), lat, lon, dt)
        err2 = (e2 + .8333)/rate
        if abs(err2) <= 8: late = "ADJACENT %s is %.0f s from the horizon crossing: it is the next day's event moved by 24 h" % (nm, err)
        else: return "%s is %.0f s from the horizon crossing" % (nm, err)
    return late
KN = [("P27-sunrise-adjacent-day", lambda a, g: not isinstance(g, Err) and str(p_rise(a, g)).startswith("ADJACENT")),
      ("P27-sunrise-timezone-day", lambda a, g: a["moment"][7] not in (None, 0) and not isinstance(g, Err) and tz_known(a, g))]
def tz_known(a, g):
    """the day actually used is that of the local clock reading plus the offset"""
    m = a["moment"]
    b = D.datetime(*m[:6]) + D.timedelta(minutes=m[7])
    if (b.year, b.month, b.day) == tuple(m[:3]): return False
    r = p_rise(dict(a, moment=[b.year, b.month, b.day, 0, 0, 0, 0, None]), g)
    return r is None or r is SKIP or str(r).startswith("ADJACENT")
def gen_rise(r):
    m = gen_m(r)
    return dict(moment=m, latitude=r.choice((0.0, r.uniform(-64, 64), r.uniform(-64, 64), r.uniform(-89, 89))), longitude=gen_lon(r))
S.append(Spec("atmosphere.sunrise_sunset", {}, None, target=run_rise, gen=gen_rise, post=p_rise, n=1, known=KN))
# ---- the stages of the algorithm
def sp(nm, ref, gen, tol=1e-9, at=1e-9, n=.2):
    S.append(Spec("optional.spa." + nm, {}, ref, gen=gen, rtol=tol, atol=at, n=n, target="optional.spa." + nm))
sp("calculate_deltat", lambda year, month: deltat(year, month), lambda r: dict(year=r.choice((r.randint(-1999, 3000), r.randint(1600, 2200), r.choice((-501, -500, 499, 500, 1599, 1600, 1699, 1700, 1799, 1800, 1859, 1860, 1899, 1900, 1919, 1920, 1940, 1941, 1960, 1961, 1985, 1986, 2004, 2005, 2049, 2050, 2149, 2150)))), month=r.randint(1, 12)), 1e-9, 1e-7, .6)
sp("julian_day", lambda unixtime: unixtime/86400.0 + 2440587.5, lambda r: dict(unixtime=r.uniform(-3e9, 5e9)), 1e-15, 0)
def jdt(year, month, day, hour, minute, second, microsecond):
    d = D.datetime(year, month, day, hour, minute, second) - D.datetime(2000, 1, 1, 12)
    return 2451545.0 + d.days + d.seconds/86400
sp("julian_day_dt", jdt, lambda r: dict(year=r.randint(1901, 2099), month=r.randint(1, 12), day=r.randint(1, 28), hour=r.randint(0, 23), minute=r.randint(0, 59), second=r.randint(0, 59), microsecond=0), 0, 1e-8)
C_ = lambda r: dict(jme=r.uniform(-.15, .15))
sp("heliocentric_longitude", lambda jme: helio(jme)[0] % 360, C_, 0, 2e-9)
sp("heliocentric_latitude", lambda jme: helio(jme)[1], C_, 1e-9, 1e-13)
sp("heliocentric_radius_vector", lambda jme: helio(jme)[2], C_, 1e-12)
def gx(r):
    c = r.uniform(-1.5, 1.5); X = nutation(c)[2]
    return dict(julian_ephemeris_century=c, **{"x%d" % i: x for i, x in enumerate(X)})
sp("longitude_obliquity_nutation", lambda julian_ephemeris_century, **k: list(nutation(julian_ephemeris_century)[:2]), gx, 1e-7, 1e-11)
sp("longitude_nutation", lambda julian_ephemeris_century, **k: nutation(julian_ephemeris_century)[0], gx, 1e-7, 1e-11)
sp("obliquity_nutation", lambda julian_ephemeris_century, **k: nutation(julian_ephemeris_century)[1], gx, 1e-7, 1e-11)
for i, nm in enumerate(("mean_elongation", "mean_anomaly_sun", "mean_anomaly_moon", "moon_argument_latitude", "moon_ascending_longitude")):
    sp(nm, lambda julian_ephemeris_century, i=i: nutation(julian_ephemeris_century)[2][i], lambda r: dict(julian_ephemeris_century=r.uniform(-40, 40)), 1e-11, 1e-8, .1)
def r_sp(unixtime, lat, lon, elev, pressure, temp, delta_t, atmos_refract, sst=False):
    q = topo(unixtime, lat, lon, elev, pressure, temp, delta_t, atmos_refract)
    if sst: g = q["g"]; return (Approx(g["nu"], 0, 2e-7), Approx(g["ra"], 0, 1e-8) if 1e-6 < g["ra"] < 360 - 1e-6 else SKIP, Approx(g["dec"], 0, 1e-8)) if 1e-6 < g["ra"] < 360 - 1e-6 else SKIP
    if abs(q["e0"] + .26667 + atmos_refract) < 1e-6 or abs(q["e0"] + 5.11) < 1 or 90 - abs(q["e0"]) < .1 or abs(lat) > 89.9 or not 1e-4 < q["az"] < 360 - 1e-4: return SKIP
    return [Approx(q[k], 0, t) for k, t in zip(("z", "z0", "e", "e0", "az", "eot"), (2e-6, 6e-7, 2e-6, 6e-7, 3e-5, 3e-6))]
sp("solar_position", r_sp, lambda r: dict(unixtime=r.uniform(-2e9, 5e9), lat=gen_lat(r), lon=gen_lon(r), elev=r.uniform(-100, 9000), pressure=r.uniform(300, 1100), temp=r.uniform(-60, 60), delta_t=r.uniform(0, 200), atmos_refract=r.choice((.5667, 0.0, r.uniform(0, 3))), **({"sst": True} if r.random() < .2 else {})), n=1)
