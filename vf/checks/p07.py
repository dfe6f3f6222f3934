from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import fittings
    return spec_tasks(fittings.KV, tier, seed, 15000, 48000)
