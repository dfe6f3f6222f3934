from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import atmos as f
    return spec_tasks(f.S, tier, seed, 1600, 60000)
