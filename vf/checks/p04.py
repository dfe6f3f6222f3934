from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import compressible
    return spec_tasks(compressible.S, tier, seed, 5000, 48000)
