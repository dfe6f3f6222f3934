from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import flow_meter as f
    return spec_tasks(f.SV, tier, seed, 6400, 96000)
