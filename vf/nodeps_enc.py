def enc(v, d=0):
    if v is None or isinstance(v, (bool, str)): return v
    if type(v).__module__ == "numpy" and hasattr(v, "tolist"): v = v.tolist()
    if isinstance(v, int): return float(v) if abs(v) < 2**1000 else str(v)
    if isinstance(v, float): return float(v)
    if isinstance(v, complex): return ("c", v.real, v.imag)
    if isinstance(v, (list, tuple)): return [enc(i, d) for i in v]
    if isinstance(v, (set, frozenset)): return sorted(map(str, v))
    if isinstance(v, dict): return {str(k): enc(i, d) for k, i in v.items()}
    if d == 0 and hasattr(v, "__dict__"): return {"!" + type(v).__name__: {k: enc(i, 1) for k, i in vars(v).items() if isinstance(i, (int, float, str, list, tuple))}}
    return "!" + type(v).__name__
