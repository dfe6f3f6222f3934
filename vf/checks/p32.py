from ..lib import spec_tasks
RULE = "coefficient vectors (random, scaled, integer with repeated roots, degenerate leading) and root sets; closed forms judged against 60-digit roots, algebra against exact rationals; distinct = distinct argument sets"
def tasks(tier, seed):
    from ..specs import polyalg as f
    return spec_tasks(f.S, tier, seed, 300, 5000)
