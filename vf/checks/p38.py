from ..lib import spec_tasks
INSTRUMENT = False
RULE = "every function and class of the unit-aware namespace; inputs are recorded calls varied by seed, given in randomly chosen compatible units (pint quantities, arrays, offsets), positionally and by keyword, plus bare numbers and wrong dimensions; judged against the plain call with documented units pinned; distinct = distinct argument sets"
def tasks(tier, seed):
    from ..specs import unitsif as f
    return spec_tasks(f.S, tier, seed, 750, 24000)
