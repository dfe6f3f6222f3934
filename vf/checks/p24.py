from ..lib import spec_tasks
def tasks(tier, seed):
    from ..specs import psd as f
    return spec_tasks(f.T, tier, seed, 1200, 16000)
