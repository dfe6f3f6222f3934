from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import core
    return spec_tasks(core.S, tier, seed, 2800, 40000)
