from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import drag
    return spec_tasks(drag.S, tier, seed, 5000, 48000)
