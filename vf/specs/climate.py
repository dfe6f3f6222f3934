"""P44 GSOD records, station data files, station search, geocoding cache, degree days"""
import calendar, datetime, gzip, io, math, os, random, shutil, tempfile
from ..engine import Result, jsonable, Err
def scratch(): return tempfile.mkdtemp(prefix="vf-climate-")
FL = "*ABCDEFGHI"
W = [("TEMP", 24, 6, "%6.1f", 9999.9, "T"), ("DEWP", 35, 6, "%6.1f", 9999.9, "T"), ("SLP", 46, 6, "%6.1f", 9999.9, "P"), ("STP", 57, 6, "%6.1f", 9999.9, "P"), ("VISIB", 68, 5, "%5.1f", 999.9, "M"), ("WDSP", 78, 5, "%5.1f", 999.9, "K"), ("MXSPD", 88, 5, "%5.1f", 999.9, "K"),
     ("GUST", 95, 5, "%5.1f", 999.9, "K"), ("MAX", 102, 6, "%6.1f", 9999.9, "T"), ("MIN", 110, 6, "%6.1f", 9999.9, "T"), ("PRCP", 118, 5, "%5.2f", 99.99, "I"), ("SNDP", 125, 5, "%5.1f", 999.9, "I")]
COUNT = {"TEMP": 31, "DEWP": 42, "SLP": 53, "STP": 64, "VISIB": 74, "WDSP": 84}
RANGE = {"T": (-110, 130), "P": (650, 1085), "M": (0, 99), "K": (0, 150), "I": (0, 40)}
UNIT = {"T": lambda v: (v - 32)*5/9 + 273.15, "P": lambda v: v*100, "M": lambda v: v*1609.344, "K": lambda v: v*1852/3600, "I": lambda v: v*.0254}
def record(r, usaf, wban, day, miss=None):
    """a line in the published fixed-width layout, and the values it means"""
    L = [" "]*138
    def put(i, s): L[i:i+len(s)] = s
    put(0, usaf.rjust(6, "0")); put(7, wban.rjust(5, "0")); put(14, day.strftime("%Y").rjust(4, "0") + day.strftime("%m%d"))
    m = r.choice((0, .1, .5, 1)) if miss is None else miss; v = {}
    for n, i, w, f, bad, u in W:
        if r.random() < m: x = None
        elif u == "P" and r.random() < .1: x = 999.9
        else:
            lo, hi = RANGE[u]; x = round(r.choice((r.uniform(lo, hi), r.uniform(lo, hi), lo, hi, 0.0 if lo <= 0 else lo)), 2 if n == "PRCP" else 1) + 0.0
            if abs(x) == bad or n == "PRCP" and x in (99.99,): x = lo + 0.0
        put(i, f % (bad if x is None else x)); v[n] = x
        if n in COUNT: c = r.randint(0, 24); put(COUNT[n], "%2d" % c); v[n + "_COUNT"] = c
        if n in ("MAX", "MIN") and r.random() < .3: put(i + w, "*")
        if n == "PRCP" and r.random() < .7: put(i + w, r.choice("ABCDEFGHI"))
    b = "".join(r.choice("01") for _ in range(6)); put(132, b); v["FRSHTT"] = b
    for k, c in zip(("fog", "rain", "snow_ice", "hail", "thunder", "tornado"), b): v[k] = c == "1"
    return "".join(L), v
HEAD = "STN--- WBAN   YEARMODA    TEMP       DEWP      SLP        STP       VISIB      WDSP     MXSPD   GUST    MAX     MIN   PRCP   SNDP   FRSHTT"
def near(a, b, t=1e-12): return a is None and b is None or a is not None and b is not None and abs(a - b) <= t*max(abs(b), 1e-3)
def parse_diff(got, v, day, SI, dt):
    if dt and got.DATE != datetime.datetime(day.year, day.month, day.day): return "DATE %r for %s" % (got.DATE, day)
    if not dt and got.DATE != day.strftime("%Y%m%d"): return "DATE %r for %s" % (got.DATE, day)
    for n, i, w, f, bad, u in W:
        e = v[n] if v[n] is None or not SI else UNIT[u](v[n]); g = getattr(got, n)
        if not near(g, e, 1e-11): return "%s is %r, the record says %r%s" % (n, g, v[n], " = %r in SI" % e if SI and e is not None else "")
        if n in COUNT and getattr(got, n + "_COUNT") != v[n + "_COUNT"]: return "%s_COUNT is %r, the record says %r" % (n, getattr(got, n + "_COUNT"), v[n + "_COUNT"])
    for k in ("FRSHTT", "fog", "rain", "snow_ice", "hail", "thunder", "tornado"):
        if getattr(got, k) != v[k]: return "%s is %r, the record says %r" % (k, getattr(got, k), v[k])
def parser(seed, K):
    from fluids.design_climate import gsod_day_parser
    R = Result("gsod_day_parser"); r = random.Random("g%s" % seed)
    for _ in range(K):
        day = datetime.date(r.randint(1929, 2025), 1, 1) + datetime.timedelta(r.randint(0, 364)); R.evals += 1; R.judged += 1
        if r.random() < .05: day = datetime.date(r.choice((1932, 1996, 2000, 2024)), r.choice((2, 12)), 29)
        line, v = record(r, "%06d" % r.randint(1, 999999) if r.random() < .9 else "A%05d" % r.randint(1, 999), "%05d" % r.randint(1, 99999), day)
        SI, dt = r.random() < .7, r.random() < .7; a = {"line": line, "SI": SI, "to_datetime": dt}; R.keys.add(hash(line))
        kw = {} if SI and dt and r.random() < .5 else {"SI": SI, "to_datetime": dt}
        try: d = parse_diff(gsod_day_parser(line + r.choice(("", "\n", "\r\n", "  ")), **kw), v, day, SI, dt)
        except Exception as e: d = repr(e)
        if d: R.bad(a, d)
        if not R.samples: R.samples.append({"case": R.name, "args": a, "observed": "fields as generated"})
    return R
class Net:
    """stands in for the network: serves or refuses files, and counts"""
    def __init__(self): self.files = {}; self.calls = []
    def __call__(self, url, *a, **k):
        url = getattr(url, "full_url", url); self.calls.append(url)
        n = url.rsplit("/", 1)[-1]
        if n not in self.files: raise OSError("no such file (stand-in)")
        return io.BytesIO(gzip.compress(self.files[n].encode()))
def network():
    import urllib.request
    net = Net(); urllib.request.urlopen = net
    import fluids.design_climate as d
    if hasattr(d, "urlopen"): d.urlopen = net
    return d, net
def station_files(seed, K):
    """aggregates of stations whose records we wrote"""
    d, net = network(); R = Result("StationDataGSOD"); r = random.Random("s%s" % seed)
    for _ in range(K):
        tmp = scratch()
        try:
            usaf = r.choice(("7005", "010010", "712650", "999999", "A00029", "30010")); wban = r.choice((None, "03071", "00123", "13743")); y0 = r.randint(1940, 2020); y1 = y0 + r.randint(0, 3)
            st = d.IntegratedSurfaceDatabaseStation(usaf, wban, "X", "CA", None, None, 1.0, 2.0, 3.0, float("%d0%d01" % (y0, r.randint(1, 6))), float("%d1%d11" % (y1, r.randint(0, 2))))
            rec = {}; net.files.clear(); net.calls.clear(); name = "%s-%s" % (usaf.rjust(6, "0"), wban or "99999")
            full = r.random() < .6
            for y in range(y0, y1 + 1):
                if r.random() < .15: continue
                lines = [HEAD]; drop = r.choice((0, .1, .3))
                for k in range(366 if calendar.isleap(y) else 365):
                    day = datetime.date(y, 1, 1) + datetime.timedelta(k)
                    if r.random() < drop: continue
                    l, v = record(r, usaf, wban or "99999", day, r.choice((0, 0, 0, .3))); lines.append(l); rec[day] = v
                text = "\n".join(lines) + "\n"
                if r.random() < .5:
                    os.makedirs(os.path.join(tmp, str(y)), exist_ok=True); open(os.path.join(tmp, str(y), name + ".op"), "w").write(text)
                else: net.files["%s-%d.op.gz" % (name, y)] = text
            a = {"USAF": usaf, "WBAN": wban, "years": [y0, y1], "days": len(rec)}
            S = d.StationDataGSOD(st, data_dir_override=tmp)
            R.evals += 1; R.judged += 1; R.keys.add(hash((usaf, wban, y0, y1, len(rec), seed)))
            got = {}
            for y, l in S.parsed_data.items():
                if len(l) != (366 if calendar.isleap(y) else 365): R.bad(a, "%d days in %d" % (len(l), y))
                for k, x in enumerate(l):
                    if x is not None: got[datetime.date(y, 1, 1) + datetime.timedelta(k)] = x
            if set(got) != set(rec): R.bad(a, "days read and days written differ: %s" % sorted(map(str, set(got) ^ set(rec)))[:4]); continue
            for day in r.sample(sorted(rec), min(len(rec), 40)):
                m = parse_diff(got[day], rec[day], day, True, True)
                if m: R.bad(a, "%s: %s" % (day, m)); break
            for _ in range(6):
                lo, hi = sorted((r.randint(y0 - 1, y1 + 1), r.randint(y0 - 1, y1 + 1))); kw = {}
                if r.random() < .8: kw["older_year"] = lo
                else: lo = y0
                if r.random() < .8: kw["newer_year"] = hi
                else: hi = y1
                md = 23
                if r.random() < .5: md = kw["minimum_days"] = r.choice((1, 10, 20, 28, 30))
                for attr, fn, u in (("TEMP", S.month_average_temperature, "T"), ("WDSP", S.month_average_windspeed, "K")):
                    per = {}
                    for y in range(max(lo, y0), min(hi, y1) + 1):
                        per[y] = []
                        for mo in range(1, 13):
                            x = [UNIT[u](v[attr]) for t, v in rec.items() if t.year == y and t.month == mo and v[attr] is not None]
                            per[y].append(math.fsum(x)/len(x) if len(x) >= md and x else None)
                    exp = []
                    for mo in range(12):
                        x = [p[mo] for p in per.values() if p[mo] is not None]
                        exp.append(math.fsum(x)/len(x) if x else None)
                    R.evals += 1
                    try: g = fn(**kw); gy = fn(include_yearly=True, **kw)
                    except Exception as e:
                        if None in exp: R.skipped += 1; continue
                        R.judged += 1; R.bad(dict(a, **kw), "%s: %r" % (attr, e)); continue
                    R.judged += 1; R.keys.add(hash((attr, lo, hi, md, usaf, y0, seed)))
                    if not all(near(p, q, 1e-9) for p, q in zip(g, exp)) or len(g) != 12: R.bad(dict(a, **kw), "%s monthly averages %s, direct reduction %s" % (attr, [p and round(p, 3) for p in g], [p and round(p, 3) for p in exp]))
                    if list(gy[0]) != list(g): R.bad(dict(a, **kw), "%s: include_yearly changes the averages" % attr)
                    elif any(not all(near(p, q, 1e-9) for p, q in zip(gy[1].get(y, ()), per[y])) or len(gy[1].get(y, ())) != 12 for y in per if y in S.parsed_data): R.bad(dict(a, **kw), "%s: yearly averages differ from the direct reduction" % attr)
                    if attr == "TEMP" and None not in exp and len(set(exp)) == 12:
                        c, w = S.coldest_month(**kw), S.warmest_month(**kw)
                        if c != exp.index(min(exp)) or w != exp.index(max(exp)): R.bad(dict(a, **kw), "coldest month %d, warmest %d, averages %s" % (c, w, [round(p, 2) for p in exp]))
        finally: shutil.rmtree(tmp, ignore_errors=True)
    return R
def texts(seed, K):
    """histories of downloads, failures and cached files"""
    d, net = network(); R = Result("get_station_year_text"); r = random.Random("t%s" % seed)
    for _ in range(K):
        tmp = scratch(); have = {}
        try:
            net.files.clear()
            for _ in range(12):
                wmo = r.choice((7005, 712650, "A00029", None, 10010, "010010")); wban = r.choice((None, "03071", 99999, "00123")); y = r.choice((1999, 2000))
                name = "%s-%s-%d.op.gz" % (str(999999 if wmo is None else wmo).rjust(6, "0"), str(99999 if wban is None else wban).rjust(5, "0"), y)
                if r.random() < .5: net.files.setdefault(name, "%s %s\n" % (name, r.random()))
                elif r.random() < .3: net.files.pop(name, None)
                net.calls.clear(); R.evals += 1; R.judged += 1; a = {"WMO": wmo, "WBAN": wban, "year": y, "known_before": name in have, "online": name in net.files}; R.keys.add(hash((repr(a), seed, R.evals)))
                try: t = d.get_station_year_text(wmo, wban, y, data_dir_override=tmp)
                except Exception as e: t = Err(e)
                if name in have:
                    if t != have[name]: R.bad(a, "%r, earlier %r" % (t, have[name]))
                    if net.calls: R.bad(a, "downloaded again: %s" % net.calls)
                elif name in net.files:
                    if t != net.files[name]: R.bad(a, "%r, the file is %r (requests %s)" % (t, net.files[name], net.calls))
                    else: have[name] = t
                elif not isinstance(t, Err): R.bad(a, "%r without a source" % (t,))
        finally: shutil.rmtree(tmp, ignore_errors=True)
    return R
def load(repo):
    out = []
    for l in open(os.path.join(repo, "fluids/data/isd-history-cleaned.tsv")):
        f = l.rstrip("\n").split("\t")
        if f[6] == "" or f[7] == "" or float(f[6]) == float(f[7]) == 0: continue
        out.append(f)
    return out
def closest(seed, K):
    import numpy as np
    import fluids.design_climate as d
    R = Result("get_closest_station"); r = random.Random("c%s" % seed); F = load(os.environ.get("VF_REPO", "/repo"))
    la = np.radians([float(f[6]) for f in F]); lo = np.radians([float(f[7]) for f in F]); end = np.array([int(float(f[10])) for f in F])
    st = d.get_stations(); R.evals += 1; R.judged += 1
    if len(st) != len(F) or d.get_station_count() != len(F): R.bad({}, "%d stations, %d in the file have coordinates" % (len(st), len(F)))
    else:
        LL = d.get_latlongs()
        for s, f, ll in zip(st, F, LL):
            u = int(f[0]) if f[0].isdigit() else f[0]
            if f[0] == "99999": u = None
            num = lambda x: None if x == "" or float(x) == 99999 else float(x)
            txt = lambda x: None if x == "" else x
            e = (u, None if f[1] == "99999" else f[1], txt(f[2]), txt(f[3]), txt(f[4]), txt(f[5]), float(f[6]), float(f[7]), num(f[8]), int(float(f[9])), int(float(f[10])))
            g = (s.USAF, s.WBAN, s.NAME, s.CTRY, s.ST, s.ICAO, s.LAT, s.LON, s.ELEV, s.BEGIN, s.END); R.evals += 1; R.judged += 1
            if g != e or tuple(ll) != (e[6], e[7]): R.bad({"line": "\t".join(f)}, "station %s" % (g,)); break
    for _ in range(K):
        k = r.random()
        lat, lon = (math.degrees(math.asin(r.uniform(-1, 1))), r.uniform(-180, 180)) if k < .5 else (r.uniform(-90, 90), r.choice((-1, 1))*r.uniform(175, 180)) if k < .65 else (r.choice((-1, 1))*r.uniform(75, 90), r.uniform(-180, 180)) if k < .8 else (math.degrees(la[i := r.randrange(len(F))]) + r.uniform(-.3, .3), math.degrees(lo[i]) + r.uniform(-.3, .3))
        lat = max(-90.0, min(90.0, lat)); kw = {}; mn = 20140000
        if r.random() < .6: mn = kw["minumum_recent_data"] = r.choice((0, 19500000, 20000101, 20200101, 20240000, 20241206, 20241207, 90150000, int(end[r.randrange(len(end))])))
        if r.random() < .4: kw["match_max"] = r.choice((1, 2, 7, 100, 1000))
        a = dict(latitude=lat, longitude=lon, **kw); R.evals += 1; R.judged += 1; R.keys.add(hash(repr(a)))
        try: s = d.get_closest_station(lat, lon, **kw)
        except Exception as e: s = Err(e)
        ok = end > mn
        if not ok.any():
            if not isinstance(s, Err): R.bad(a, "%r although no station has data after %d" % (s, mn))
            continue
        if isinstance(s, Err): R.bad(a, repr(s)); continue
        p, q = math.radians(lat), math.radians(lon)
        D = 2*np.arcsin(np.sqrt(np.clip(np.sin((la - p)/2)**2 + np.cos(la)*math.cos(p)*np.sin((lo - q)/2)**2, 0, 1)))*6371.0
        b = float(D[ok].min()); sp, sq = math.radians(s.LAT), math.radians(s.LON)
        g = 2*math.asin(math.sqrt(min(1, math.sin((sp - p)/2)**2 + math.cos(sp)*math.cos(p)*math.sin((sq - q)/2)**2)))*6371.0
        if not s.END > mn: R.bad(a, "station %s ends %d" % (s.NAME, s.END))
        elif g > b*(1 + 1e-9) + 1e-4: R.bad(a, "station %s at %.3f km, another one is at %.3f km" % (s.NAME, g, b))
        if len(R.samples) < 2: R.samples.append({"case": R.name, "args": jsonable(a), "observed": "%s at %.3f km" % (s.NAME, g)})
    return R
def degree_days(seed, K):
    import fluids.design_climate as dc
    R = Result("degree_days"); r = random.Random("d%s" % seed)
    for _ in range(K):
        T = r.choice((r.uniform(200, 330), 291.4833333333333, 283.15, r.uniform(280, 295))); kw = {}
        if r.random() < .6: kw["T_base"] = r.choice((r.uniform(270, 300), T, 288.65, 291.15))
        tr = True
        if r.random() < .6: tr = kw["truncate"] = r.random() < .5
        for n, sg, base in (("heating_degree_days", 1, 18.333333333333333 + 273.15), ("cooling_degree_days", -1, 283.15)):
            f = getattr(dc, n); R.evals += 1; R.judged += 1; R.keys.add(hash((n, T, repr(kw))))
            e = sg*(T - kw.get("T_base", base)); e = max(e, 0.0) if tr else e
            try: g = f(T, **kw)
            except Exception as x: R.bad(dict(kw, T=T), repr(x)); continue
            if not abs(g - e) < 1e-11: R.bad(dict(kw, T=T), "%s: %r, definition %r" % (n, g, e))
    return R
def geo_cache(seed, K):
    """geocode() with a stand-in geocoder and its disk cache in a scratch directory: every address is looked up once, and never confused with another"""
    import fluids.design_climate as d
    R = Result("geocode"); r = random.Random("q%s" % seed)
    if not all(hasattr(d, n) for n in ("SimpleGeolocatorCache", "geolocator_disk_cache_loc", "simple_geopy_cache", "geolocator")): R.skipped += 1; return R
    pool = ["77001", "077001", "1000", "1e3", "1000.0", "Houston, TX", "houston, tx", "O'Brien; --", "Düsseldorf", "01234", "1234", "", " 1234"]
    for _ in range(K):
        tmp = scratch(); old = d.geolocator_disk_cache_loc, d.simple_geopy_cache, d.geolocator
        class L: pass
        class G:
            n = {}
            def geocode(self, x): self.n[x] = self.n.get(x, 0) + 1; o = L(); o.latitude = round(math.fmod(sum(map(ord, x))*7.31 + len(x)*.5, 90), 6); o.longitude = round(math.fmod(sum(i*ord(c) for i, c in enumerate(x))*3.77 + 1, 180), 6); return o
        g = G(); g.n = {}; seen = {}
        try:
            d.geolocator_disk_cache_loc = os.path.join(tmp, "c.sqlite3"); d.simple_geopy_cache = None; d.geolocator = g
            for _ in range(15):
                x = r.choice(pool)
                if r.random() < .2: d.simple_geopy_cache = None    # another process later
                R.evals += 1; R.judged += 1; R.keys.add(hash((x, R.evals, seed)))
                try: v = tuple(d.geocode(x))
                except Exception as e: v = Err(e)
                o = G.geocode(type("N", (), {"n": {}})(), x); e = (o.latitude, o.longitude)
                if v != e: R.bad({"address": x}, "%r, the geocoder says %r" % (v, e))
                if g.n.get(x, 0) > 1: R.bad({"address": x}, "looked up %d times" % g.n[x])
        finally:
            d.geolocator_disk_cache_loc, d.simple_geopy_cache, d.geolocator = old; shutil.rmtree(tmp, ignore_errors=True)
    return R
