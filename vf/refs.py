"""small independent numerical helpers used by the references (not the code under test)"""
from math import *
def lin(x, xs, ys, extrap=False):
    """piecewise linear interpolation; ends held, or extended when extrap"""
    n = len(xs)
    if x <= xs[0]:
        if not extrap or x == xs[0]: return ys[0]
        i = 0
    elif x >= xs[-1]:
        if not extrap or x == xs[-1]: return ys[-1]
        i = n - 2
    else:
        i = max(k for k in range(n - 1) if xs[k] <= x)
    return ys[i] + (ys[i+1] - ys[i])*(x - xs[i])/(xs[i+1] - xs[i])
def bilin(x, y, xs, ys, z):
    """z[j][i] at (xs[i], ys[j]), arguments clamped to the table"""
    x = min(max(x, xs[0]), xs[-1]); y = min(max(y, ys[0]), ys[-1])
    return lin(y, ys, [lin(x, xs, row) for row in z])
def poly(cs, x):
    """coefficients highest power first"""
    return sum(c*x**(len(cs) - 1 - i) for i, c in enumerate(cs)) if x else cs[-1]
def spl(x, tck):
    import scipy.interpolate as si
    return float(si.splev(x, (tck[0], tck[1], tck[2])))
def bispl(x, y, tck):
    import scipy.interpolate as si
    return float(si.bisplev(float(x), float(y), tuple(tck)))
def bis(f, lo, hi, n=200, log=False):
    """root by bisection (sign change required)"""
    a, b = f(lo), f(hi)
    if a == 0: return lo
    if b == 0: return hi
    if (a > 0) == (b > 0): raise ValueError("no sign change")
    for _ in range(n):
        m = sqrt(lo*hi) if log else .5*(lo + hi)
        if m == lo or m == hi: break
        v = f(m)
        if v == 0: return m
        if (v > 0) == (a > 0): lo = m
        else: hi = m
    return .5*(lo + hi)
