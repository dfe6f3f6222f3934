from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import jet_pump as f
    return spec_tasks(f.S, tier, seed, 10000, 120000)
