#!/usr/bin/env python3
"""Random small mutations of one file, in scratch copies: which survive the module's tests, and which of those the checks miss.
usage: mutate.py fluids/X.py N SEED [--tests t1,t2] [--props P01,P02] [--jobs 7] [--funcs regex]   -> /tmp/mut/out.<X>.txt"""
import ast, sys, os, re, json, random, subprocess, shutil, argparse, multiprocessing as mp, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("n", type=int); ap.add_argument("seed", nargs="?", default="1"); ap.add_argument("--tests"); ap.add_argument("--props"); ap.add_argument("--jobs", type=int, default=7); ap.add_argument("--funcs", default="."); ap.add_argument("--idx", help="only these mutants (comma separated; module tests skipped)"); ap.add_argument("--out")
o = ap.parse_args()
SRC = open("/repo/" + o.file).read(); TREE = ast.parse(SRC); OFF = [0]
for l in SRC.encode().split(b"\n"): OFF.append(OFF[-1] + len(l) + 1)
B = SRC.encode()
def span(n): return OFF[n.lineno - 1] + n.col_offset, OFF[n.end_lineno - 1] + n.end_col_offset
def seg(n): a, b = span(n); return B[a:b].decode()
def sites():
    out = []
    for f in ast.walk(TREE):
        if not isinstance(f, ast.FunctionDef) or not re.search(o.funcs, f.name): continue
        names = sorted({a.arg for a in f.args.args})
        doc = f.body[0] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else None
        for st in f.body:
            if st is doc: continue
            for n in ast.walk(st):
                if isinstance(n, (ast.Raise,)): continue
                out.append((f, names, n))
    return out
SITES = sites()
def mutate(r):
    for _ in range(300):
        f, names, n = r.choice(SITES); a = b = None; new = None
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            v = n.value
            if isinstance(v, int): new = str(v + r.choice((-1, 1, 1, 2)))
            else:
                t = r.random()
                new = repr(v*r.choice((.999, 1.001, 1.01, .9, 1.1, 2., .5))) if t < .6 else repr(v + r.choice((1, -1))) if t < .8 else repr(-v)
            a, b = span(n)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            M = {ast.Lt: ("<=", ">", ">="), ast.LtE: ("<", ">"), ast.Gt: (">=", "<"), ast.GtE: (">", "<"), ast.Eq: ("!=",), ast.NotEq: ("==",), ast.Is: ("is not",), ast.IsNot: ("is",)}
            q = M.get(type(n.ops[0]))
            if not q: continue
            a, b = span(n); new = seg(n.left) + " " + r.choice(q) + " " + seg(n.comparators[0])
        elif isinstance(n, ast.BinOp):
            M = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}
            q = M.get(type(n.op))
            if not q: continue
            a, b = span(n)
            t = r.random()
            L, R_ = "(" + seg(n.left) + ")", "(" + seg(n.right) + ")"
            new = L + q + R_ if t < .6 else L if t < .8 else R_
        elif isinstance(n, ast.BoolOp):
            a, b = span(n); new = (" or " if isinstance(n.op, ast.And) else " and ").join("(" + seg(v) + ")" for v in n.values) if r.random() < .5 else seg(r.choice(n.values))
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            loc = sorted({m.id for m in ast.walk(f) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)} | set(names))
            if len(loc) < 2 or n.id not in loc: continue
            a, b = span(n); new = r.choice([x for x in loc if x != n.id])
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and r.random() < .5:
            a, b = span(n); new = "pass"
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)) and r.random() < .7:
            a, b = span(n.test); new = r.choice(("not (%s)" % seg(n.test), "True", "False")) if not isinstance(n, ast.While) else "not (%s)" % seg(n.test)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, b = span(n); new = seg(n.operand)
        elif isinstance(n, ast.Call) and n.args and r.random() < .6:
            a, b = span(n)
            if len(n.args) >= 2 and r.random() < .5:
                i, j = r.sample(range(len(n.args)), 2); x = [seg(z) for z in n.args]; x[i], x[j] = x[j], x[i]
                new = seg(n.func) + "(" + ", ".join(x + [seg(k) for k in n.keywords]) + ")"
            else: new = "(" + seg(n.args[0]) + ")"
        if new is None or B[a:b].decode() == new: continue
        s = (B[:a] + new.encode() + B[b:]).decode()
        try: ast.parse(s)
        except SyntaxError: continue
        return f.name, n.lineno, B[a:b].decode(), new, s
def sh(c, t): 
    try: return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired: return None
MOD = os.path.basename(o.file)[:-3]
if o.tests: TESTS = o.tests.split(",")
else: TESTS = [t for t in ("tests/test_%s.py" % MOD,) if os.path.exists("/repo/" + t)]
if o.props: PROPS = o.props.split(",")
else: PROPS = [d["id"] for d in map(json.loads, open(H + "/properties.jsonl")) if o.file in d["anchors"]["files"] and d["id"] != "P37"]
def work(i):
    m = mutate(random.Random("%s/%s/%d" % (o.file, o.seed, i)))
    if m is None: return None
    fn, ln, old, new, s = m
    d = "/tmp/mut/%s%d" % ("x" if o.idx else "w", os.getpid()); e = d + ".ev"
    if not os.path.isdir(d):
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "__pycache__", "docs", "gsod", "asv*")); os.makedirs(e, exist_ok=True)
        if os.path.isdir("/repo/gsod"): os.symlink("/repo/gsod", d + "/gsod")
    open(d + "/" + o.file, "w").write(s)
    desc = "%d %s:%d %s  =>  %s" % (i, fn, ln, " ".join(old.split())[:150], " ".join(new.split())[:150])
    try:
        if not o.idx: t = sh("cd %s && /opt/venv/bin/python -B -m pytest -x -q -p no:cacheprovider --doctest-modules %s %s" % (d, o.file, " ".join(TESTS)), 240)
        if not o.idx and (t is None or t.returncode != 0): return "T " + desc
        for p in PROPS:
            c = sh("cd %s && VF_EVIDENCE=%s VF_REPO=%s VERIF_SEED=1 ./check %s --tier quick" % (H, e, d, p), 600)
            if c is None: return "C %s(timeout) %s" % (p, desc)
            if c.returncode != 0: return "C %s(%d) %s" % (p, c.returncode, desc)
        return "S " + desc
    finally: open(d + "/" + o.file, "w").write(SRC)
if __name__ == "__main__":
    os.makedirs("/tmp/mut", exist_ok=True); st = {}
    with mp.Pool(o.jobs) as p, open(o.out or "/tmp/mut/out.%s.txt" % MOD, "a") as f:
        for x in p.imap_unordered(work, [int(i) for i in o.idx.split(",")] if o.idx else range(o.n)):
            if x: st[x[0]] = st.get(x[0], 0) + 1; f.write(x + "\n"); f.flush()
    print(o.file, st)
    if not o.idx:
        for q in os.listdir("/tmp/mut"):
            if q.startswith("w"): shutil.rmtree("/tmp/mut/" + q, ignore_errors=True)
