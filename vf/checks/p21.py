from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import tanks as f
    return spec_tasks(f.S, tier, seed, 400, 6000)
