"""P33 dense and tridiagonal linear algebra against exact rational arithmetic"""
import math
from fractions import Fraction as F
from ..dom import *
from ..engine import Raises, SKIP, Approx, Err, Spec, close
from .solve import lg, N
S = []
def fm(A): return [[F(v) for v in r] for r in A]
def mul(A, B): return [[sum(a*b for a, b in zip(r, c)) for c in zip(*B)] for r in A]
def ab(A): return [[abs(v) for v in r] for r in A]
def elim(A, B):
    """exact solve A X = B, None when singular; also the determinant"""
    n = len(A); M = [list(r) + list(s) for r, s in zip(A, B)]; det = F(1)
    for c in range(n):
        p = next((i for i in range(c, n) if M[i][c]), None)
        if p is None: return None, F(0)
        if p != c: M[c], M[p] = M[p], M[c]; det = -det
        det *= M[c][c]
        for i in range(n):
            if i != c and M[i][c]:
                k = M[i][c]/M[c][c]
                M[i] = [u - k*v for u, v in zip(M[i], M[c])]
    return [[v/M[i][i] for v in M[i][n:]] for i in range(n)], det
def g_sq(r, n):
    k = r.choice(("rand", "rand", "int", "perm", "zeros", "tri", "small", "scaled", "sing", "sing2"))
    A = [[r.uniform(-5, 5) for _ in range(n)] for _ in range(n)]
    if k in ("int", "sing", "sing2"): A = [[float(r.randint(-4, 4)) for _ in range(n)] for _ in range(n)]
    if k == "perm":
        p = list(range(n)); r.shuffle(p)
        A = [[(r.choice((-1, 1))*r.uniform(.5, 3) if j == p[i] else (r.uniform(-.3, .3) if r.random() < .3 else 0.0)) for j in range(n)] for i in range(n)]
    if k == "zeros": A = [[v if r.random() < .5 else 0.0 for v in q] for q in A]
    if k == "tri": A = [[v if j >= i else 0.0 for j, v in enumerate(q)] for i, q in enumerate(A)]; r.shuffle(A)
    if k == "small": s = 10.0**-r.randint(2, 9); A = [[v*s for v in q] for q in A]
    if k == "scaled": A = [[v*lg(r, -3, 3) for v in q] for q in A]
    if k == "sing": A[r.randrange(n)] = [0.0]*n
    if k == "sing2" and n > 1:
        i, j = r.sample(range(n), 2)
        m = float(r.choice((1, -1, 2)))
        A[i] = [v*m for v in A[j]]
        if r.random() < .5: A = [list(q) for q in zip(*A)]
        if r.random() < .3: s = 2.0**r.randint(-20, 20); A = [[v*s for v in q] for q in A]
    return A
def g_s(r):
    n = r.choice((1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 8))
    A = g_sq(r, n)
    return dict(op=r.choice(("solve", "solve", "inv", "inv", "lu", "det", "inplace", "slu")), A=A, b=[r.choice((r.uniform(-5, 5), 0.0, 1.0, r.uniform(-1, 1)*lg(r, -3, 3))) for _ in range(n)])
def t_s(op, A, b):
    n = N(); from fluids.numerics import arrays as m
    A0, b0 = [list(r) for r in A], list(b)
    if op == "solve": o = m.solve(A, b)
    elif op == "slu": o = m.solve_LU_decomposition(A, b)
    elif op == "inv": o = m.inv(A)
    elif op == "lu": o = m.lu(A)
    elif op == "det": o = m.det(A)
    else:
        B = [list(r) for r in A]; pv = [0]*len(A)
        m.inplace_LU(B, pv); o = m.solve_from_lu(B, pv, b)
        p2 = [m.solve_from_lu(B, pv, [1.0 if i == j else 0.0 for i in range(len(b))]) for j in range(len(b))]
        o = [o, p2]
    return dict(o=o, ok=A == A0 and b == b0)
def p_s(d, g):
    op = d["op"]; A = fm(d["A"]); n = len(A); I = [[F(i == j) for j in range(n)] for i in range(n)]
    inv, det = elim(A, I)
    if isinstance(g, Err):
        if inv is None: return None if op != "det" else repr(g)
        mx = max(max(q) for q in ab(A))
        if abs(det) < F(1, 10**13)*mx**n: return SKIP
        return "nonsingular matrix " + repr(g)
    if not g["ok"]: return "argument modified"
    o = g["o"]
    mx = max(max(q) for q in ab(A))
    if op == "det":
        perm = None
        # sum of |terms|: permanent of |A|
        def pm(rows, cols):
            if not rows: return F(1)
            return sum(abs(A[rows[0]][c])*pm(rows[1:], [x for x in cols if x != c]) for c in cols if A[rows[0]][c])
        t = pm(list(range(n)), list(range(n))) if n <= 5 else mx**n*math.factorial(n)
        if isinstance(o, (list, tuple)): return "determinant is %r" % (o,)
        return None if abs(F(float(o)) - det) <= F(1e-14)*n*t else "determinant %r, exact %r" % (o, float(det))
    if inv is None:
        # integer (or power of two scaled) singular systems keep exact zeros
        if any(not any(q) for q in A) or any(not any(q) for q in zip(*A)): return "singular matrix (zero row or column) returned %r" % (o,)   # exact zeros survive every elimination
        if n > 3: return SKIP     # partial pivoting multiplies by rounded reciprocals: the zero pivot may be rounded
        return "singular matrix returned %r" % (o,) if n <= 2 else SKIP
    ni = max(sum(q) for q in ab(inv)); na = max(sum(q) for q in ab(A)); cond = ni*na
    if cond > 10**9: return SKIP
    amp = cond
    if n in (2, 3): amp = max(cond, mx**n/abs(det)*8)
    tol = F(2e-15)*n*n*amp*(4 if n > 3 else 1)
    if n in (2, 3) and amp > 10**11: return SKIP
    if op == "lu":
        P, L, U = o
        Lf, Uf = fm(L), fm(U)
        for i in range(n):
            for j in range(n):
                if j > i and L[i][j] != 0 or i == j and L[i][j] != 1: return "L is not unit lower triangular"
                if j < i and U[i][j] != 0: return "U is not upper triangular"
                if abs(L[i][j]) > 1 + 1e-12: return "multiplier above one: no partial pivoting"
        if any(sorted(q) != [0.0]*(n - 1) + [1.0] for q in P) or any(sum(c) != 1 for c in zip(*P)): return "P is not a permutation"
        a, b = mul(fm(P), A), mul(Lf, Uf); m = mul(ab(Lf), ab(Uf))
        for i in range(n):
            for j in range(n):
                if abs(a[i][j] - b[i][j]) > F(4e-16)*(n + 2)*m[i][j]: return "PA - LU is %g at %d,%d" % (float(a[i][j] - b[i][j]), i, j)
        return None
    def vec(x, b):
        e = [sum(u*F(v) for u, v in zip(q, b)) for q in inv]
        t = max(max(map(abs, e)), F(1, 10**300)); big = ni*max(abs(F(v)) for v in b)
        lim = tol*t if n not in (2, 3) else tol*max(t, F(0)) 
        if n in (2, 3): lim = max(lim, F(4e-16)*n*n*mx**(n - 1)*max(abs(F(v)) for v in b)/abs(det)*6)
        if len(x) != n: return "%d values" % len(x)
        for u, v in zip(x, e):
            if not abs(F(float(u)) - v) <= lim: return "solution %r, exact %r" % (x, [float(w) for w in e])
    if op in ("solve", "slu"): return vec(o, d["b"])
    if op == "inplace":
        w = vec(o[0], d["b"])
        for j in range(n): w = w or vec(o[1][j], [1.0 if i == j else 0.0 for i in range(n)])
        return w
    if len(o) != n: return "wrong size"
    if n == 1: return None if abs(o[0][0]*d["A"][0][0] - 1) < 1e-15 else "inverse %r" % o
    for i in range(n):
        for j in range(n):
            if not abs(F(float(o[i][j])) - inv[i][j]) <= tol*ni + F(4e-16)*(mx**(n - 1)/abs(det)*8 if n in (2, 3) else 0): return "inverse element %d,%d is %r, exact %r" % (i, j, o[i][j], float(inv[i][j]))
S.append(Spec("arrays.dense", {}, None, target=t_s, gen=g_s, post=p_s, n=6))
# singular 1..3: zero rows or columns and duplicated rows must raise
def g_sg(r):
    n = r.choice((1, 2, 3, 4, 5, 6)); A = [[float(r.randint(-4, 4)) for _ in range(n)] for _ in range(n)]
    k = r.choice(("row", "col", "dup", "tri")) if n > 1 else "row"
    i = r.randrange(n)
    if k == "row": A[i] = [0.0]*n
    elif k == "tri":
        A = [[v if q > p or q == p != i else 0.0 for q, v in enumerate(l)] for p, l in enumerate([[v or 1.5 for v in l] for l in A])]
        if r.random() < .5: r.shuffle(A)
    elif k == "col": A = [[0.0 if j == i else v for j, v in enumerate(q)] for q in A]
    else: A[i] = list(A[(i + 1) % n]) 
    return dict(A=A, op=r.choice(("solve", "inv", "lu", "slu")))
def t_sg(A, op):
    from fluids.numerics import arrays as m
    b = [1.0]*len(A)
    return m.solve(A, b) if op == "solve" else m.inv(A) if op == "inv" else m.lu(A) if op == "lu" else m.solve_LU_decomposition(A, b)
def p_sg(d, g):
    if isinstance(g, Err): return None if isinstance(g.e, (ValueError, ZeroDivisionError)) else repr(g)
    n = len(d["A"])
    lead = sorted(next((j for j, v in enumerate(q) if v), n) for q in d["A"])
    zero = any(not any(q) for q in d["A"]) or any(not any(q) for q in zip(*d["A"])) or all(l >= i for i, l in enumerate(lead))   # permuted triangular: nothing is ever added to a zero
    if zero: return "singular matrix (zero row or column) returned %r" % (g,)
    return "singular matrix returned %r" % (g,) if n <= 2 else SKIP
S.append(Spec("arrays.singular", {}, None, target=t_sg, gen=g_sg, post=p_sg, n=1))
# ---- elementwise, products, shapes
def rm(r, m, n): return [[r.choice((r.uniform(-5, 5), 0.0, float(r.randint(-3, 3)), r.uniform(-1, 1)*lg(r, -4, 4))) for _ in range(n)] for _ in range(m)]
OPS = ("transpose", "eye", "dot_product", "matrix_vector_dot", "matrix_multiply", "sum_matrix_rows", "sum_matrix_cols", "scalar_add_matrices", "scalar_subtract_matrices", "scalar_multiply_matrix", "scalar_divide_matrix", "stack_vectors", "norm2", "shape", "subset_matrix", "argsort1d", "sort_paired_lists", "array_as_tridiagonals", "tridiagonals_as_array")
def g_e(r):
    op = r.choice(OPS); m, n, k = r.choice((1, 2, 3, 4, 7, r.randint(5, 20))), r.choice((1, 2, 3, 4, 7, r.randint(5, 20))), r.choice((1, 2, 3, 5, r.randint(4, 12)))
    d = dict(op=op); bad = r.random() < .15
    if op in ("transpose", "sum_matrix_rows", "sum_matrix_cols"): d["a"] = [rm(r, m, n)]
    elif op == "eye": d["a"] = [r.choice((1, 2, 3, 6, 0, -1))]
    elif op == "dot_product": d["a"] = [rm(r, 1, n)[0], rm(r, 1, n + bad)[0]]
    elif op == "matrix_vector_dot": d["a"] = [rm(r, m, n), rm(r, 1, n + bad)[0]]
    elif op == "matrix_multiply": d["a"] = [rm(r, m, n), rm(r, n + bad, k)]
    elif op in ("scalar_add_matrices", "scalar_subtract_matrices"): d["a"] = [rm(r, m, n), rm(r, m + (bad and r.random() < .5), n + bad)]
    elif op in ("scalar_multiply_matrix", "scalar_divide_matrix"): d["a"] = [r.choice((0.0, r.uniform(-3, 3), 2.0)), rm(r, m, n)]
    elif op == "stack_vectors": d["a"] = [rm(r, m, n) if r.random() < .8 else []]
    elif op == "norm2": d["a"] = [rm(r, 1, n)[0]]
    elif op == "shape":
        dims = [r.choice((1, 2, 3, 4)) for _ in range(r.choice((1, 2, 3, 4)))]
        def mk(ds): return [mk(ds[1:]) for _ in range(ds[0])] if ds else 1.5
        d["a"] = [mk(dims)]; d["dims"] = dims; d["np"] = r.random() < .3; d["tup"] = r.random() < .3
    elif op == "subset_matrix":
        N_ = r.choice((2, 3, 5)); d["a"] = [rm(r, N_, N_)]
        if r.random() < .5: d["idx"] = [r.randrange(N_) for _ in range(r.choice((1, 2, 3)))]
        else: d["sl"] = [r.choice((None, 0, 1)), r.choice((None, N_, N_ - 1)), r.choice((None, 1, 2))]
    elif op == "argsort1d": d["a"] = [[r.choice((r.uniform(-3, 3), float(r.randint(-2, 2)))) for _ in range(r.choice((0, 1, 2, 5, 12)))]]
    elif op == "sort_paired_lists":
        q = r.choice((0, 1, 3, 8)); d["a"] = [[r.choice((r.uniform(-3, 3), float(r.randint(-2, 2)))) for _ in range(q)], [r.uniform(-3, 3) for _ in range(q + bad)]]
    elif op == "array_as_tridiagonals": d["a"] = [rm(r, n, n)]
    else: d["a"] = [rm(r, 1, n)[0][:n - 1], rm(r, 1, n)[0], rm(r, 1, n)[0][:n - 1], r.choice((0.0, 0.0, -1.0))]
    if bad and op in ("transpose", "sum_matrix_rows", "sum_matrix_cols", "matrix_multiply") and len(d["a"][0]) > 1 and len(d["a"][0][0]) > 1: d["a"][0][-1] = d["a"][0][-1][:-1]
    return d
def t_e(op, a, dims=None, np=False, tup=False, idx=None, sl=None):
    import copy
    from fluids.numerics import arrays as m
    a0 = copy.deepcopy(a)
    f = getattr(m, op)
    if op == "shape":
        v = a[0]
        if np: import numpy; v = numpy.array(v)
        elif tup: v = tuple(v)
        return list(f(v))
    if op == "subset_matrix": o = f(a[0], idx if idx is not None else slice(*sl))
    elif op == "eye": o = f(a[0]) 
    else: o = f(*a)
    if a != a0: return "ARG MODIFIED"
    if op in ("transpose", "stack_vectors") and o and any(x is y for x in o for y in a[0]): return "ALIASED"
    return o
def p_e(d, g):
    op, a = d["op"], d["a"]
    rect = lambda M: all(len(q) == len(M[0]) for q in M)
    bad = None
    if op == "eye" and a[0] <= 0: bad = ValueError
    if op in ("transpose", "sum_matrix_rows", "sum_matrix_cols") and not rect(a[0]): bad = ValueError
    if op in ("dot_product", "sort_paired_lists") and len(a[0]) != len(a[1]): bad = ValueError
    if op == "matrix_vector_dot" and len(a[0][0]) != len(a[1]): bad = ValueError
    if op == "matrix_multiply" and (not rect(a[0]) or len(a[0][0]) != len(a[1])): bad = ValueError
    if op in ("scalar_add_matrices", "scalar_subtract_matrices") and (len(a[0]) != len(a[1]) or len(a[0][0]) != len(a[1][0])): bad = ValueError
    if op == "scalar_divide_matrix" and a[0] == 0: bad = ZeroDivisionError
    if bad: return None if isinstance(g, Err) and isinstance(g.e, bad) else "expected %s, got %r" % (bad.__name__, g)
    if isinstance(g, Err): return repr(g)
    if isinstance(g, str): return g
    def cmp(o, e, m, t=4e-16):
        if isinstance(e, list):
            if not isinstance(o, (list, tuple)) or len(o) != len(e): return "%r has the wrong shape" % (o,)
            for i, (x, y) in enumerate(zip(o, e)):
                w = cmp(x, y, m[i] if isinstance(m, list) else m, t)
                if w: return w
            return None
        return None if abs(F(float(o)) - e) <= F(t)*m else "element %r, exact %r" % (o, float(e))
    if op == "transpose": e = [list(q) for q in zip(*a[0])]
    elif op == "eye": e = [[float(i == j) for j in range(a[0])] for i in range(a[0])]
    elif op == "shape": return None if list(g) == d["dims"] else "shape %r of %r" % (g, d["dims"])
    elif op == "subset_matrix":
        ix = d["idx"] if d.get("idx") is not None else list(range(len(a[0])))[slice(*d["sl"])]
        e = [[a[0][i][j] for j in ix] for i in ix]
    elif op == "argsort1d": e = sorted(range(len(a[0])), key=lambda i: a[0][i])
    elif op == "sort_paired_lists":
        ix = sorted(range(len(a[0])), key=lambda i: a[0][i]); e = [[a[0][i] for i in ix], [a[1][i] for i in ix]]; g = [list(q) for q in g]
    elif op == "stack_vectors": e = [list(q) for q in a[0]]
    elif op == "array_as_tridiagonals":
        n = len(a[0]); e = [[a[0][i + 1][i] for i in range(n - 1)], [a[0][i][i] for i in range(n)], [a[0][i][i + 1] for i in range(n - 1)]]; g = [list(q) for q in g]
    elif op == "tridiagonals_as_array":
        n = len(a[1]); e = [[a[1][i] if i == j else a[0][j] if i == j + 1 else a[2][i] if j == i + 1 else a[3] for j in range(n)] for i in range(n)]
    else: e = None
    if e is not None: return None if g == e else "%r instead of %r" % (g, e)
    if op == "dot_product": return cmp(g, sum(F(x)*F(y) for x, y in zip(*a)), sum(abs(F(x)*F(y)) for x, y in zip(*a))*len(a[0]))
    if op == "norm2":
        e = math.fsum(x*x for x in a[0])**.5
        return None if abs(g - e) <= 1e-14*abs(e) else "norm %r, exact %r" % (g, e)
    if op == "matrix_vector_dot": return cmp(g, [sum(F(x)*F(y) for x, y in zip(q, a[1])) for q in a[0]], [sum(abs(F(x)*F(y)) for x, y in zip(q, a[1]))*len(q) for q in a[0]])
    if op == "matrix_multiply":
        A, B = fm(a[0]), fm(a[1]); return cmp(g, mul(A, B), [[v*len(B) for v in q] for q in mul(ab(A), ab(B))])
    if op == "sum_matrix_rows": return cmp(g, [sum(map(F, q)) for q in a[0]], [sum(abs(F(x)) for x in q)*len(q) for q in a[0]])
    if op == "sum_matrix_cols": return cmp(g, [sum(map(F, q)) for q in zip(*a[0])], [sum(abs(F(x)) for x in q)*len(q) for q in zip(*a[0])])
    if op in ("scalar_add_matrices", "scalar_subtract_matrices"):
        s = 1 if "add" in op else -1
        return cmp(g, [[F(x) + s*F(y) for x, y in zip(p, q)] for p, q in zip(*a)], [[abs(F(x)) + abs(F(y)) for x, y in zip(p, q)] for p, q in zip(*a)])
    k = F(a[0]) if "multiply" in op else 1/F(a[0])
    return cmp(g, [[F(x)*k for x in q] for q in a[1]], [[abs(F(x)*k) + F(1, 10**310) for x in q] for q in a[1]])
S.append(Spec("arrays.elementwise", {}, None, target=t_e, gen=g_e, post=p_e, n=5))
# ---- tridiagonal solve: diagonally dominant systems need no pivoting
def g_t(r):
    n = r.choice((1, 2, 3, 5, 20))
    a, c = ([r.choice((0.0, r.uniform(-2, 2), r.uniform(-2, 2))) for _ in range(n - 1)] for _ in range(2))
    b = [r.choice((-1, 1))*((abs(a[i - 1]) if i else 0) + (abs(c[i]) if i < n - 1 else 0) + r.uniform(.1, 2)) for i in range(n)]
    return dict(a=a, b=b, c=c, d=[r.uniform(-5, 5) for _ in range(n)])
def t_t(a, b, c, d):
    q = [list(v) for v in (a, b, c, d)]
    from fluids.numerics import arrays as m
    o = m.solve_tridiagonal(a, b, c, d)
    return "ARG MODIFIED" if [a, b, c, d] != q else list(o)
def p_t(d, g):
    if isinstance(g, (Err, str)): return repr(g)
    n = len(d["b"]); b, dd = [F(v) for v in d["b"]], [F(v) for v in d["d"]]
    for i in range(n - 1):
        m = F(d["a"][i])/b[i]; b[i + 1] -= m*F(d["c"][i]); dd[i + 1] -= m*dd[i]
    x = [F(0)]*n; x[-1] = dd[-1]/b[-1]
    for i in range(n - 2, -1, -1): x[i] = (dd[i] - F(d["c"][i])*x[i + 1])/b[i]
    t = max(map(abs, x))
    if len(g) != n or any(abs(F(u) - v) > F(1e-11)*t for u, v in zip(g, x)): return "%r instead of %r" % (g, [float(v) for v in x])
S.append(Spec("arrays.solve_tridiagonal", {}, None, target=t_t, gen=g_t, post=p_t, n=1))
# ---- SVD based
def g_v(r):
    m, n = r.choice((1, 2, 3, 4, 6)), r.choice((1, 2, 3, 4, 6)); A = [[r.uniform(-3, 3) for _ in range(n)] for _ in range(m)]
    rank = min(m, n)
    if r.random() < .5:
        rank = r.randint(0, min(m, n)); B = [[r.uniform(-2, 2) for _ in range(rank)] for _ in range(m)]; C = [[r.uniform(-2, 2) for _ in range(n)] for _ in range(rank)]
        A = [[sum(B[i][k]*C[k][j] for k in range(rank)) for j in range(n)] for i in range(m)]
        if not rank: A = [[0.0]*n for _ in range(m)]
    return dict(A=A, b=[r.uniform(-3, 3) for _ in range(m + (r.random() < .05))], rank=rank, op=r.choice(("gelsd", "gelsd", "null_space", "svd")), rcond=r.choice((None, None, 1e-10)))
def t_v(A, b, rank, op, rcond):
    from fluids.numerics import arrays as m
    A0 = [list(q) for q in A]
    o = m.svd(A) if op == "svd" else m.gelsd(A, b, rcond) if op == "gelsd" else m.null_space(A, rcond)
    return "ARG MODIFIED" if A0 != A else o
def p_v(d, g):
    import numpy as np
    A = np.array(d["A"]); m, n = A.shape; op = d["op"]
    if op == "gelsd" and len(d["b"]) != m: return None if isinstance(g, Err) and isinstance(g.e, ValueError) else "incompatible sizes accepted"
    if isinstance(g, Err) or isinstance(g, str): return repr(g)
    s = np.linalg.svd(A, compute_uv=False)
    rc = d["rcond"] or max(m, n)*2.2e-16
    big = s[0] if len(s) else 0
    rank = d["rank"]
    if rank and (s[rank - 1] < 1e-4*big): return SKIP
    if d["rcond"] is None and rank < min(m, n): 
        # rounding may leave singular values around the default cut
        if rank and any(v > .01*rc*big for v in s[rank:]): return SKIP
    if op == "svd":
        U, sv, Vt = (np.array(q) for q in g)
        if U.shape != (m, m) or Vt.shape != (n, n): return "shapes %r %r" % (U.shape, Vt.shape)
        S_ = np.zeros((m, n)); S_[:len(sv), :len(sv)] = np.diag(sv)
        if abs(U@S_@Vt - A).max() > 1e-12*(big + 1e-300) + 1e-300 or abs(U@U.T - np.eye(m)).max() > 1e-12 or abs(Vt@Vt.T - np.eye(n)).max() > 1e-12: return "not a decomposition"
        return None
    if op == "null_space":
        if rank == n: return None if all(len(q) == 0 for q in g) else "null space of a full rank matrix has %r" % (g,)
        Z = np.array(g)
        if Z.shape != (n, n - rank): return "null space shape %r for rank %d of %d" % (Z.shape, rank, n)
        if abs(A@Z).max() > 1e-11*(big + 1e-300): return "A Z is not zero"
        if abs(Z.T@Z - np.eye(n - rank)).max() > 1e-12: return "basis not orthonormal"
        return None
    x, res, rk, sv = g
    if rk != rank: return "rank %r instead of %d" % (rk, rank)
    b = np.array(d["b"]); x = np.array(x)
    e = np.linalg.pinv(A, rcond=1e-9)@b if rank else np.zeros(n)
    if x.shape != (n,) or abs(x - e).max() > 1e-7*(abs(e).max() + 1e-9): return "solution %r, minimum norm least squares %r" % (x, e)
    r_ = float(((b - A@x)**2).sum())
    want = r_ if m > n and rank == n else (float((b**2).sum()) if rank == 0 else 0.0)
    if abs(res - want) > 1e-9*(1 + want): return "residual %r instead of %r" % (res, want)
    if any(abs(u - v) > 1e-12*(big + 1e-300) for u, v in zip(sv, s)): return "singular values"
S.append(Spec("arrays.svd", {}, None, target=t_v, gen=g_v, post=p_v, n=1.5))
