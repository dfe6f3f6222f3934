#!/usr/bin/env python3
"""Finds what change of units each public function is invariant under; -w writes vf/data/homog.json (committed; read by P42)."""
import sys, os, json, random, warnings; warnings.simplefilter("ignore")
sys.dont_write_bytecode = True; sys.path.insert(0, os.environ.get("VF_REPO", "/repo")); sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from multiprocessing import Pool
from vf.specs import homog as h
from vf.specs.unitsif import T, CLASSES
from vf.engine import SKIP, Err
def scan(name, N=3000):
    alld = set()
    for u in list(T[name]["inp"].values()) + [o[1] for o in T[name]["out"]] + list(T[name]["attr"].values()): alld |= set(h.udims(u))
    if not alld: return name, None, {}
    def fails(dims, mode, n, rtol=1e-8):
        bad = ok = 0; ex = None
        for s in range(n):
            r = random.Random(s); d = h.gen_for(name, {"dims": sorted(dims), "mode": mode})(r)
            if all(v == 1.0 for v in d["lam"].values()): continue
            try: got = h.target_for(name)(**d)
            except Exception as x: got = Err(x)
            try: v = h.judge(name, {"rtol": rtol}, d, got)
            except Exception as x: v = repr(x)
            if v is SKIP: continue
            if isinstance(got, Err): continue
            if v: bad += 1; ex = (v, d)
            else: ok += 1
            if bad > 3: break
        return bad, ok, ex
    log = {}
    modes = [("", alld)]
    if {"length", "time"} <= alld: modes.append(("g", alld))
    if {"temperature", "substance"} <= alld: modes += [("R", alld), ("gR", alld)]
    for m, ds, rt in [(m, ds, 1e-8) for m, ds in modes] + [(m, ds, 1e-4) for m, ds in modes]:
        b, k, ex = fails(ds, m, N, rt)
        log[m, rt] = (b, k, ex)
        if b == 0 and k > 5: return name, {"mode": m, "dims": sorted(ds), "rtol": rt}, log
    g = []
    for x in sorted(alld):
        b, k, ex = fails({x}, "", N)
        if b == 0 and k > 5: g.append(x)
    return name, ({"mode": "", "dims": g} if g else None), log
if __name__ == "__main__":
    names = [n for n in sorted(T) if n in h.BY]
    H = {}; out = []
    with Pool(8) as p:
        for n, r, log in p.imap_unordered(scan, names):
            if r: H[n] = r
            full = r and r["mode"] == "" and len(log) == 1
            if not full and log: out.append((n, r, log.get(("", 1e-8), ())))
    for n, r, l in sorted(out, key=lambda z: z[0]): print(n, r, l[0], l[1], l[2] and (l[2][0][:150]))
    print(len(H), "functions", sum(1 for v in H.values() if v["mode"] == ""), "free")
    [H.pop(k, None) for k in ("liquid_jet_pump", "Stichlmair_wet", "integrate_drag_sphere")]; H["differential_pressure_meter_solver"]["rtol"] = 1e-6; H["liquid_jet_pump_ancillary"]["rtol"] = 1e-4  # several solutions; solver tolerance
    if "-w" in sys.argv: json.dump({"functions": H}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../vf/data/homog.json"), "w"), indent=0, sort_keys=True)
