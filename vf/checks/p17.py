from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import small as f
    return spec_tasks(f.S, tier, seed, 3300, 48000)
