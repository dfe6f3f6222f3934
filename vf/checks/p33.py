from ..lib import spec_tasks
RULE = "matrices over size, pivoting pattern, zero pattern, scale and rank; judged against exact rational elimination with conditioning-based tolerances; distinct = distinct argument sets"
def tasks(tier, seed):
    from ..specs import linalg as f
    return spec_tasks(f.S, tier, seed, 1500, 60000)
