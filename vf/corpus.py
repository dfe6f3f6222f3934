"""Recorded calls of the public functions (tools/record.py) and seeded variations of them."""
import json, os, math
HERE = os.path.dirname(os.path.abspath(__file__))
_C = None
def corpus():
    global _C
    if _C is None: _C = json.load(open(os.path.join(HERE, "data", "corpus.json")))
    return _C
def dec(v):
    if isinstance(v, list): return [dec(i) for i in v]
    if isinstance(v, dict):
        if "f" in v: return float(v["f"])
        if "c" in v: return complex(*v["c"])
        if "t" in v: return tuple(dec(i) for i in v["t"])
        if "d" in v: return {k: dec(i) for k, i in v["d"].items()}
        if "a" in v:
            import numpy as np
            return np.array(v["a"], dtype=float if v["k"] == "f" else int)
    return v
def entries(name): return corpus()[name]
def draw(r, name, jitter=.5, other=.25):
    """an argument set: a recorded one, floats varied a little, now and then mixed with another entry of the same shape"""
    E = corpus()[name]; a = {k: dec(v) for k, v in r.choice(E).items()}
    if r.random() < other:
        b = r.choice(E)
        if set(b) == set(a):
            for k in a:
                if r.random() < .3: a[k] = dec(b[k])
    if r.random() < jitter:
        s = 10**r.uniform(-5, -.7)
        for k, v in a.items():
            if type(v) is float and math.isfinite(v) and r.random() < .7: a[k] = v*(1 + s*r.uniform(-1, 1))
    return a
