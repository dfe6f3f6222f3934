from ..specs import climate as f
INSTRUMENT = False
FLOOR = 0
RULE = "GSOD records written in the published fixed-width layout from seeded values, sentinels, flags and dates; whole station histories written to scratch files or served by a stand-in network; station queries over the globe judged against a full scan by great-circle distance"
ASSUME = ["no month without any accepted year is averaged", "station files end with a newline, as published"]
def tasks(tier, seed):
    q = tier == "quick"; m = 1 if q else 8
    out = []
    for k in range(m):
        s = "%s.%d" % (seed, k)
        out += [("parser.%d" % k, f.parser, s, 4000 if q else 40000), ("texts.%d" % k, f.texts, s, 40 if q else 300), ("closest.%d" % k, f.closest, s, 600 if q else 6000), ("degree_days.%d" % k, f.degree_days, s, 1500 if q else 20000), ("geocode.%d" % k, f.geo_cache, s, 10 if q else 60)]
        out += [("station.%d.%d" % (k, j), f.station_files, "%s.%d" % (s, j), 6 if q else 40) for j in range(3)]
    return out
