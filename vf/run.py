"""python -m vf.run PROP [--replay FILE] [--only SUBSTR]  : run one property's check"""
import argparse, importlib, json, multiprocessing as mp, os, sys, time, traceback, hashlib, faulthandler
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VF_EVIDENCE", ROOT)      # mutation runs keep their evidence apart
os.environ.setdefault("NUMBA_FUNCTION_CACHE_SIZE", "0")
os.environ.setdefault("MPLBACKEND", "Agg")
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS"): os.environ.setdefault(v, "1")
sys.dont_write_bytecode = True

def _work(i):
    t = TASKS[i]
    t0 = time.time()
    try:
        from . import instrument as ins
        ins.LINES.clear()
        try: sys.monitoring.restart_events()
        except Exception: pass
        r = t[1](*t[2:])
        d = r.pack()
        d["t"] = time.time() - t0
        return d
    except Exception as e:
        # raised by the code under test in a call the workload needs to succeed, or by the machinery itself
        fs = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        inside = bool(fs) and fs[-1].startswith(os.environ.get("VF_REPO", "/repo") + "/fluids/") and not isinstance(e, (MemoryError, ImportError))
        return {"name": t[0], "error": traceback.format_exc(), "raised": "%s: %s" % (type(e).__name__, e) if inside else None, "t": time.time() - t0}

def _loop(conn, log):
    import signal
    f = open(log, "w"); faulthandler.register(signal.SIGUSR1, file=f, all_threads=False)
    faulthandler.enable(file=f, all_threads=False)
    while 1:
        i = conn.recv()
        if i is None: os._exit(0)
        conn.send(_work(i))

def schedule(nproc, maxtasks, limit, task_s, results, lost):
    """run TASKS on nproc workers. A worker that dies, or a task without an end, is reported with the stack it had: the second time, when it is inside the code under test, as a violation"""
    import signal, tempfile, shutil
    from multiprocessing.connection import wait
    tmp = tempfile.mkdtemp(prefix="vf-")
    todo = list(range(len(TASKS)))[::-1]; tries = {}; W = {}; hung = []; n = 0; end = time.time() + limit
    def start():
        nonlocal n
        n += 1; a, b = mp.Pipe(); log = "%s/%d" % (tmp, n)
        p = mp.Process(target=_loop, args=(b, log), daemon=True); p.start(); b.close()
        W[a] = [p, log, None, 0.0, 0]
    def give(c):
        w = W[c]
        if not todo or maxtasks and w[4] >= maxtasks:
            try: c.send(None)
            except OSError: pass
            del W[c]; w[0].join(5); c.close()
            if todo: start(); give(list(W)[-1])
            return
        w[2] = todo.pop(); w[3] = time.time(); w[4] += 1; c.send(w[2])
    def failed(c, what):
        p, log, i, t, k = W.pop(c)
        try: st = [l.strip() for l in open(log).read().splitlines() if l.strip().startswith(("File", "Fatal"))]
        except OSError: st = []
        p.kill(); p.join(5); c.close()
        tries[i] = tries.get(i, 0) + 1
        if tries[i] < 2 and what != "time": todo.insert(0, i)
        else: hung.append((TASKS[i][0], what, st))
        if todo: start(); give(list(W)[-1])
    for _ in range(min(nproc, len(TASKS))): start()
    for c in list(W): give(c)
    while W:
        if time.time() > end:
            lost.extend(TASKS[i][0] for i in todo); todo.clear()
        for c in wait(list(W), timeout=1.0):
            try: d = c.recv()
            except (EOFError, OSError):
                W[c][0].join(5); failed(c, "the process died (exit %s)" % W[c][0].exitcode); continue
            d["task"] = TASKS[W[c][2]][0]; results.append(d); give(c)
        now = time.time()
        for c in list(W):
            if now - W[c][3] > task_s or now > end:
                try: os.kill(W[c][0].pid, signal.SIGUSR1); time.sleep(.3)
                except OSError: pass
                if now - W[c][3] > task_s: failed(c, "time")
                else:
                    w = W.pop(c); lost.append(TASKS[w[2]][0]); w[0].kill(); w[0].join(5)
    shutil.rmtree(tmp, ignore_errors=True)
    return hung

def main():
    global TASKS
    import warnings; warnings.filterwarnings('ignore')
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--replay"); ap.add_argument("--only"); ap.add_argument("--tier")
    ap.add_argument("-v", action="store_true")
    o = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = o.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    chk = importlib.import_module("vf.checks." + o.prop.lower())
    if getattr(chk, "INSTRUMENT", True):
        from . import instrument as ins
        ins.install()
        if getattr(chk, "COVER", True): ins.cover_on()
    else:
        sys.path.insert(0, os.environ.get("VF_REPO", "/repo"))
    import fluids
    repo = os.environ.get("VF_REPO", "/repo")
    assert fluids.__file__ == repo + "/fluids/__init__.py", fluids.__file__
    tasks = chk.tasks(tier, seed)
    if o.only: tasks = [t for t in tasks if o.only in t[0]]
    if o.replay:
        case = json.load(open(o.replay))
        print("replaying", case["case"], "(seed %s tier %s)" % (case.get("seed"), case.get("tier")))
        print(json.dumps(case, indent=1)[:3000])
        os.environ["VERIF_SEED"] = str(case.get("seed", 1))
        tasks = [t for t in chk.tasks(case.get("tier", tier), int(case.get("seed", 1))) if t[0] == case["task"]]
    TASKS = tasks
    known = {k["id"]: k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"] if k.get("status") == "known"}
    nproc = getattr(chk, "NPROC", 8)
    results = []
    deadline = 820 if tier == "quick" else getattr(chk, "THOROUGH_S", 3600)
    lost = []
    hung = schedule(nproc, getattr(chk, "MAXTASKS", None), deadline - (time.time() - t0), getattr(chk, "TASK_S", 200 if tier == "quick" else 1500), results, lost)
    # ---- report
    errs = [r for r in results if "error" in r]
    ok = [r for r in results if "error" not in r]
    viol = []
    kn = {}
    for r in ok:
        for v in r["violations"]: viol.append(dict(v, task=r["task"]))
        for k, n in r["known"].items():
            if k in known and known[k]["property"] == o.prop: kn[k] = kn.get(k, 0) + n
            else: viol.append(dict(case=r["name"], task=r["task"], args={}, message="matches finding %s, which is not listed for this property" % k))
    for r in [r for r in errs if r.get("raised")]:
        errs.remove(r); viol.append(dict(case=r["name"], task=r["task"], args={"traceback": r["error"].split("\n")[-12:]}, message="a call the workload relies on raised " + r["raised"]))
    for nme, what, st in hung:
        fr = [l for l in st if repo + "/fluids/" in l]
        if fr: viol.append(dict(case=nme, task=nme, args={"stack": st[:12]}, message="a call does not return: %s, inside %s" % ("no result in time" if what == "time" else what, fr[0])))
        else: results.append({"name": nme, "error": "%s %s" % (what, st[:12]), "t": 0.0}); errs.append(results[-1])
    evals = sum(r["evals"] for r in ok); judged = sum(r["judged"] for r in ok)
    keys = sum(len(r["keys"]) for r in ok)
    sites = {}
    lines = set()
    for r in ok:
        for k, (a, b) in r["sites"].items():
            x = sites.get(k, (False, False)); sites[k] = (x[0] or a, x[1] or b)
        lines |= r["lines"]
    extra = {}
    for r in ok:
        for k, v in r["extra"].items():
            if isinstance(v, (int, float)): extra[k] = extra.get(k, 0) + v
            elif isinstance(v, dict):
                e = extra.setdefault(k, {})
                for kk, vv in v.items(): e[kk] = e.get(kk, 0) + vv if isinstance(vv, (int, float)) else vv
            else: extra.setdefault(k, v)
    floors = getattr(chk, "floors", lambda tier: {})(tier)
    thin = []
    if not o.only and not o.replay:
        for r in ok:
            f = floors.get(r["name"], getattr(chk, "FLOOR", 10))
            if r["judged"] < f and not r["violations"]: thin.append("%s: %d judged < %d" % (r["name"], r["judged"], f))
    cov = {
        "evaluations": evals, "distinct_nontrivial": keys,
        "rule": getattr(chk, "RULE", "calls drawn from typed input domains (random, mined constants, boundary bisection on observed comparison operands); non-trivial = the oracle judged the call (its input lies in the oracle's domain); distinct = distinct argument tuples per case"),
        "judged_calls": judged,
        "cases": len(ok),
        "comparison_sites_seen": len(sites),
        "comparison_sites_both_outcomes": sum(1 for a, b in sites.values() if a and b),
        "source_lines_executed": len(lines),
        "per_case": {r["name"]: r["judged"] for r in ok} if len(ok) <= 400 else len(ok),
        "samples": [s for r in ok for s in r["samples"]][:12] or [{"note": "none"}],
    }
    cov.update(extra)
    if lost: cov["unfinished_tasks"] = lost
    os.makedirs(os.path.join(EVID, "evidence", "replays"), exist_ok=True)
    ev = {"property": o.prop, "tier": tier, "seed": seed, "level": getattr(chk, "LEVEL", "exploration"), "coverage": cov,
          "assumptions": getattr(chk, "ASSUME", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    if not o.only and not o.replay:
        with open(os.path.join(EVID, "evidence", o.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in sorted(kn):
        print("KNOWN-FINDING: property=%s %s (%d events this run)" % (o.prop, known[k]["what"], kn[k]))
    if o.v:
        for r in sorted(results, key=lambda r: -r["t"])[:15]: print("%6.2fs %s %s" % (r["t"], r["name"], r.get("judged")))
        for k, (a, b) in sorted(sites.items()):
            if not (a and b) and k < len(ins.SITES): print("one-sided", ins.SITES[k], a, b)
    for i, v in enumerate(viol[:int(os.environ.get('VF_MAXV', '12'))]):
        fn = os.path.join(EVID, "evidence", "replays", "%s-%s.json" % (o.prop, hashlib.sha1(("%s%s" % (v["task"], i)).encode()).hexdigest()[:10]))
        v["seed"] = seed; v["tier"] = tier; v["property"] = o.prop
        with open(fn, "w") as f: json.dump(v, f, indent=1, default=repr)
        print("VIOLATION property=%s replay=%s" % (o.prop, fn))
        print("  case %s: %s\n  args %s" % (v["case"], v["message"], json.dumps(v["args"])[:600]))
    for r in errs: print("ERROR in task %s:\n%s" % (r["name"], r["error"]))
    for l in lost: print("UNFINISHED task", l)
    for l in thin: print("INCONCLUSIVE", l)
    print("%s %s: %d cases, %d calls, %d judged, %d distinct, sites %d/%d both outcomes, %d violations, %.1f s" % (
        o.prop, tier, len(ok), evals, judged, keys, cov["comparison_sites_both_outcomes"], len(sites), len(viol), time.time() - t0))
    if viol: sys.exit(1)
    if errs or thin or (lost and tier == "quick") or not ok: sys.exit(2)
    sys.exit(0)

if __name__ == "__main__":
    main()
