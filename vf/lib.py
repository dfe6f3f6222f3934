"""helpers for check modules whose cases are Spec objects"""
from .engine import explore, Spec
def spec_tasks(specs, tier, seed, quick=1200, thorough=40000, shards=8):
    out = []
    if tier == "quick":
        for s in specs: out.append((s.name, explore, s, seed, quick))
    else:
        for k in range(shards):
            for s in specs: out.append((s.name + "#%d" % k, explore, s, "%s.%d" % (seed, k), thorough//shards))
    return out
def adder(lst, module):
    """s(function name, reference, _option=..., **domains)"""
    def s(name_, ref_, /, **d):
        kw = {k[1:]: d.pop(k) for k in list(d) if k.startswith("_") and k[1:] in OPTS}
        lst.append(Spec(module + "." + name_, d, ref_, **kw))
        return lst[-1]
    return s
OPTS = {"target", "rtol", "atol", "post", "fix", "n", "known", "hull", "quiet", "pos", "strict", "gen", "floor", "sites", "ties"}
