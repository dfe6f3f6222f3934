from ..lib import spec_tasks
RULE = "tables, knot vectors, degrees, points inside, at and outside of the range, polynomial and smooth integrands, orders and limits of finite differences, Chebyshev objects over size and domain; judged against exact rationals, scipy and mpmath; distinct = distinct argument sets"
def tasks(tier, seed):
    from ..specs import interp as f
    return spec_tasks(f.S, tier, seed, 2000, 24000)
