from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import sun as f
    return spec_tasks(f.S, tier, seed, 2500, 24000)
