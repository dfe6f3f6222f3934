from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import two_phase as f
    return spec_tasks(f.S, tier, seed, 3300, 48000)
