from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import piping as f
    return spec_tasks(f.S, tier, seed, 12000, 48000)
