from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import friction
    return spec_tasks(friction.S, tier, seed, 2000, 48000)
