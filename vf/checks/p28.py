from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import irrad as f
    return spec_tasks(f.S, tier, seed, 1500, 24000)
