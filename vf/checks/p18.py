from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import pump as f
    return spec_tasks(f.S, tier, seed, 4400, 48000)
