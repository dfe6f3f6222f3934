from ..specs import monotone as m
INSTRUMENT = False
FLOOR = 0
RULE = "ordered pairs of calls of every registered (function, argument): recorded calls varied by seed and rescaled inside the documented domain, one argument raised by a random factor between 1+1e-6 and 100, plus ordered sequences over tank levels, particle sizes, altitudes, duties and table sizes; judged = comparisons of ordered pairs, with the sign and finiteness of each result; distinct = distinct pairs"
ASSUME = ["the registered directions were mined from ordered pairs on the pinned tree (tools/mono_table.py) and reviewed; a direction which physics does not fix is still a commitment of the documented correlation"]
TECHNIQUE = "runtime monitoring: online checker of the order relation between two executions that differ in one argument"
def tasks(tier, seed):
    out = []; N = sorted(m.T)
    reps = 1 if tier == "quick" else 6
    for k in range(reps):
        for i in range(0, len(N), 12): out.append(("direction.%d.%d" % (k, i), group, N[i:i+12], "%s.%s" % (seed, k), 100 if tier == "quick" else 600))
        for n in sorted(m.SEQ): out.append(("sequence.%s.%d" % (n, k), m.sequence, n, "%s.%s" % (seed, k), 8 if tier == "quick" else 300))
    return out
def group(names, seed, K):
    R = None
    for n in names:
        q = m.row(n, seed, K)
        if R is None: R = q; R.name = "direction"; continue
        R.evals += q.evals; R.judged += q.judged; R.skipped += q.skipped; R.keys |= {hash((n, k)) for k in q.keys}; R.violations += q.violations; R.samples += q.samples[:1]
    return R
