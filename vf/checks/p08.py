from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import fittings
    return spec_tasks(fittings.CR, tier, seed, 5000, 48000)
