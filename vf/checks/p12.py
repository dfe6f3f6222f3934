from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import control_valve as f
    return spec_tasks(f.N, tier, seed, 4400, 120000)
