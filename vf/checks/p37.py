from ..lib import spec_tasks
RULE = "every family of correlations, every documented method name, unknown names and omitted method, inputs over all presence patterns of the optional ones; listing judged against a requirements table, dispatch against the stand-alone correlation; distinct = distinct argument sets"
def tasks(tier, seed):
    from ..specs import methods as f
    return spec_tasks(f.S, tier, seed, 12000, 200000)
