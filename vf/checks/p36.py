from ..lib import spec_tasks
RULE = "sequences over length (empty, one, many), order, ties, sign, scale and container; judged against definitions in exact rational arithmetic; distinct = distinct argument sets"
def tasks(tier, seed):
    from ..specs import listutil as f
    return spec_tasks(f.S, tier, seed, 4500, 120000)
