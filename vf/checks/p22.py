from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import solids as f
    return spec_tasks(f.S, tier, seed, 20000, 80000)
