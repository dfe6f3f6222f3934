import random
from ..specs import purity as p
from .. import corpus as co
INSTRUMENT = False
FLOOR = 0
RULE = "histories of recorded public calls, varied by seed, each run in four forked processes: in order, in another order among unrelated calls, repeated after the results were overwritten, and from six threads that start every call together and are preempted at random lines; judged = outcomes compared with the first history; distinct = distinct calls"
ASSUME = ["outcomes are compared bit for bit within one interpreter build", "callbacks passed as arguments are pure"]
TECHNIQUE = "runtime monitoring: differential execution of randomized call histories (order, repetition, aliasing, threads with forced preemption) with monitors on arguments, process-wide settings and module tables"
def tasks(tier, seed):
    names = [n for n in sorted(co.corpus()) if n.split(".")[-1] not in p.SKIPF]
    out = []
    for rep in range(1 if tier == "quick" else 20):
        r = random.Random("%s/%s" % (seed, rep)); l = names[:]; r.shuffle(l)
        for i in range(0, len(l), 12): out.append(("history.%d.%d" % (rep, i), p.history, l[i:i+12], names, "%s.%s.%s" % (seed, rep, i), 3, i % 60 == 0))
    for n in sorted(p.CLASSES):
        for k in range(1 if tier == "quick" else 8): out.append(("objects.%s.%d" % (n, k), p.objects, n, "%s.%s" % (seed, k), (12 if "PSD" in n or "Size" in n else 30) if tier == "quick" else 100))
    return out
