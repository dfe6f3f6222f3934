from ..lib import spec_tasks
INSTRUMENT = False
RULE = "every function of the vectorised namespace; arguments recorded calls varied by seed, as scalars, lists, tuples, float and integer arrays and broadcast columns, positionally and by keyword; each element judged against the scalar call; distinct = distinct argument sets"
def tasks(tier, seed):
    from ..specs import vectorif as f
    return spec_tasks(f.S, tier, seed, 750, 16000)
