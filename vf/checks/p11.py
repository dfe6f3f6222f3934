from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import control_valve as f
    return spec_tasks(f.S, tier, seed, 4000, 60000)
