from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import msis as f
    return spec_tasks(f.S, tier, seed, 2400, 16000)
