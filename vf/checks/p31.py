from ..lib import spec_tasks
RULE = "polynomial and Chebyshev evaluations over degree, coefficient pattern, domain map and point (incl. at and above Tc, overflow); judged against 60-digit power series arithmetic; distinct = distinct argument sets"
def tasks(tier, seed):
    from ..specs import polyeval as f
    return spec_tasks(f.S, tier, seed, 300, 5000)
