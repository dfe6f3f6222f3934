from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import friction
    return spec_tasks(friction.C2, tier, seed, 5000, 48000)
