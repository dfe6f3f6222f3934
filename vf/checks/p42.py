from ..lib import spec_tasks
INSTRUMENT = False
RULE = "every public function pinned as invariant under a change of units (all base units, or those that leave g or R unchanged): recorded calls varied by seed, scaled by random powers and odd factors; the scaled result against the unscaled one times its documented dimension; distinct = distinct argument sets and scalings"
def tasks(tier, seed):
    from ..specs import homog as f
    return spec_tasks(f.S, tier, seed, 200, 12000)
