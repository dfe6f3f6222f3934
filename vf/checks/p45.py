from ..specs import nodeps as m
from .. import corpus as co
INSTRUMENT = False
FLOOR = 0
RULE = "recorded public calls and object queries, varied by seed, executed in four interpreters: everything installed, SciPy absent, NumPy and SciPy absent, every optional package absent (imports of the absent packages fail); judged = outcomes compared with the full interpreter's; distinct = distinct calls per environment"
ASSUME = ["which functions genuinely need a package is recorded in vf/data/nodeps.json from the pinned tree; those may raise ImportError", "array arguments are not used (they need NumPy)"]
TECHNIQUE = "runtime monitoring: differential execution across environments with a fault injected in the import system (packages made absent)"
def tasks(tier, seed):
    names = sorted(co.corpus()); out = []
    for k in range(1 if tier == "quick" else 12):
        for i in range(16): out.append(("environments.%d.%d" % (k, i), m.group, names[i::16], "%s.%s" % (seed, k), 10 if tier == "quick" else 60))
    for k in range(2 if tier == "quick" else 16): out.append(("environments.generic.%d" % k, m.group, [], "%s.%s" % (seed, k), 12 if tier == "quick" else 60))
    return out
