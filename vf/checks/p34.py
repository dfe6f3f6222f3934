from ..lib import spec_tasks
RULE = "double-double operand pairs over magnitude, sign, cancellation and trailing part; special function arguments over every branch; judged against exact rationals and 80-digit mpmath; distinct = distinct argument sets"
def tasks(tier, seed):
    from ..specs import ddspecial as f
    return spec_tasks(f.S, tier, seed, 2500, 40000)
