from ..lib import spec_tasks
RULE = "solver runs on recorded functions (16 families, known roots); every run is judged from its evaluation log: sign-change certificate, residual, step, bounds, iteration limit, argument passing; distinct = distinct configurations"
def tasks(tier, seed):
    from ..specs import solve as f
    return spec_tasks(f.S, tier, seed, 2500, 12000)
