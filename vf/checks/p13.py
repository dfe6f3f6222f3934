from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import safety_valve as f
    return spec_tasks(f.S, tier, seed, 4800, 80000)
