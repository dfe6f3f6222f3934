from ..lib import spec_tasks
RULE = "solver runs on recorded systems (linear, nonlinear, rootless, nan-producing), maps and objectives; every run is judged from its evaluation log and the true function at the returned point; distinct = distinct configurations"
def tasks(tier, seed):
    from ..specs import systems as f
    return spec_tasks(f.S, tier, seed, 300, 5000)
