#!/usr/bin/env python3
"""Documented units of every public function and class: vf/data/units.json (own line-oriented numpydoc reader).
Run by hand; the result is committed and read by P38 and P42."""
import sys, os, json, types, inspect, re
sys.path.insert(0, "/repo"); sys.dont_write_bytecode = True
import fluids
SEC = ("Parameters", "Returns", "Other Parameters", "Attributes")
def read(doc):
    out = {}
    lines = inspect.cleandoc(doc or "").split("\n"); sec = None; i = 0
    while i < len(lines):
        if i + 1 < len(lines) and re.match(r"-{3,}\s*$", lines[i + 1].strip()) and lines[i].strip():
            sec = lines[i].strip(); out.setdefault(sec, []); i += 2; continue
        m = re.match(r"(\w+) ?: ?(.*)$", lines[i])
        if sec in SEC and m and lines[i][0] != " ":
            out[sec].append([m.group(1), m.group(2), ""])
        elif sec in SEC and out[sec] and lines[i].strip(): out[sec][-1][2] += " " + lines[i].strip()
        i += 1
    r = {}
    for s in SEC:
        r[s] = []
        for n, t, d in out.get(s, []):
            b = re.findall(r"\[([^\[\]]*)\]", d)
            b = [x.strip() for x in b if re.match(r"^[a-zA-Z0-9().\/*^\- ]*$", x)]
            r[s].append((n, t, b[-1] if b else None))
    return r
if __name__ == "__main__":
    T = {}; odd = []
    for k in dir(fluids):
        o = getattr(fluids, k)
        if isinstance(o, (types.FunctionType, type)) and not k.startswith("_"):
            d = read(o.__doc__)
            e = dict(inp={}, out=[], attr={})
            for n, t, u in d["Parameters"] + d["Other Parameters"]: e["inp"][n] = u
            for n, t, u in d["Returns"]: e["out"].append([n, u])
            for n, t, u in d["Attributes"]: e["attr"][n] = u
            sig = list(inspect.signature(o.__init__ if isinstance(o, type) else o).parameters)
            if isinstance(o, type): sig = sig[1:]
            if [s for s in sig if s not in ("args", "kwargs")] != [s for s in e["inp"] if s in sig] or set(e["inp"]) - set(sig): odd.append((k, sig, list(e["inp"])))
            T[k] = e
    print(len(T)); [print(*o) for o in odd]
    U = {}
    for k, e in T.items():
        for n, u in list(e["inp"].items()) + e["out"] + list(e["attr"].items()): U.setdefault(u, []).append(k + "." + n)
    for u, l in sorted(U.items(), key=lambda z: str(z[0])): print(repr(u), len(l), l[:3])
    if "-w" in sys.argv:
        json.dump(T, open(os.path.join(os.path.dirname(__file__), "../vf/data/units.json"), "w"), indent=0, sort_keys=True)
