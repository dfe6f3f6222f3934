"""Tank geometry from first principles: every head is a solid (over a disc, or of revolution), volumes and
wetted areas are integrals of it.  Nothing here uses the closed forms of the library."""
from math import *
import numpy as np
_X, _W = np.polynomial.legendre.leggauss(80)
def q(f, a, b, n=1):
    """integral of a vectorised f; cosine substitution takes square-root end singularities"""
    if b <= a: return 0.0
    t = 0.0
    h = (b - a)/n
    for i in range(n):
        lo = a + i*h
        th = (_X + 1)*pi/2
        u = (1 - np.cos(th))/2
        t += float(np.sum(_W*pi/2*np.sin(th)/2*f(lo + u*h))*h)
    return t
def seg(R, h):
    """area of the circle segment of height h"""
    h = min(max(h, 0.0), 2*R)
    t = acos(min(1, max(-1, (R - h)/R)))
    return R*R*(t - sin(t)*cos(t)) if t > .01 else R*R*(2*t**3/3 - 2*t**5/15 + 4*t**7/315)
def tori(D, f, k):
    al = asin((1 - 2*k)/(2*(f - k)))
    return al, f*D*(1 - cos(al)), k*D*cos(al)
def depth(kind, D, a, f=None, k=None):
    return sum(tori(D, f, k)[1:]) if kind == "torispherical" else 0.0 if kind is None else a
# ---- heads on a horizontal tank: axial depth z over the end disc
def chord(kind, D, a, f, k):
    """area of the vertical-plane-normal section at height coordinate x (x = -R bottom)"""
    R = D/2
    if kind == "conical":
        def A(x):
            Y = np.sqrt(np.maximum(R*R - x*x, 0)); ax = np.abs(x) + 1e-300
            return 2*a*Y - a/R*(Y*R + x*x*np.arcsinh(Y/ax))
    elif kind == "ellipsoidal":
        def A(x): return pi/2*a/R*(R*R - x*x)
    elif kind == "guppy":
        def A(x): return 2*a/(3*R)*(R + x)*np.sqrt(np.maximum(R*R - x*x, 0))
    elif kind == "spherical":
        r = (R*R + a*a)/(2*a)
        d = r - a                       # chord distance from the centre; negative past the hemisphere
        def A(x):
            rr = np.sqrt(np.maximum(r*r - x*x, 0))
            c = np.clip(d/np.where(rr > 0, rr, 1), -1, 1)
            # near-flat caps: evaluate the segment without cancellation
            t = np.arctan2(np.sqrt(np.maximum(R*R - x*x, 0)), d)
            s = np.where(t < .02, 2*t**3/3 - 2*t**5/15 + 4*t**7/315, t - np.sin(t)*np.cos(t))
            return rr*rr*s
    elif kind == "torispherical":
        al, a1, a2 = tori(D, f, k)
        s, g, r, kD = R - k*D, f*D*sin(al), f*D, k*D
        def A(x):
            out = np.zeros_like(x)
            for i, xx in enumerate(np.abs(x)):
                Y = sqrt(max(R*R - xx*xx, 0))
                v = 0.0
                yg = sqrt(g*g - xx*xx) if xx < g else 0.0
                if xx < g: v += q(lambda y: np.sqrt(np.maximum(r*r - xx*xx - y*y, 0)) - (r - a1) + a2, 0, yg)
                # knuckle: y = sqrt(rho^2 - x^2)
                v += q(lambda y: np.sqrt(np.maximum(kD*kD - (np.sqrt(xx*xx + y*y) - s)**2, 0)), yg, Y)
                out[i] = 2*v
            return out
    return A
def V_head_h(kind, D, a, h, f=None, k=None):
    """volume in one head of a horizontal tank filled to h"""
    if kind is None or h <= 0: return 0.0
    R = D/2
    h = min(h, D)
    A = chord(kind, D, a, f, k)
    brk = [-R, h - R]
    if kind == "conical": brk += [0.0] if h > R else []
    if kind == "torispherical":
        g = f*D*sin(tori(D, f, k)[0])
        brk += [b for b in (-g, 0.0, g) if b < h - R]
    brk = sorted(brk)
    return sum(q(A, p, r) for p, r in zip(brk, brk[1:]))
def meridian(kind, D, a, f=None, k=None):
    """list of (t0, t1, rho(t), y(t), ds/dt): profile of a head of revolution, apex first, y = height above the apex"""
    R = D/2
    if kind == "conical":
        sl = sqrt(1 + (a/R)**2)
        return [(0, R, lambda t: t, lambda t: a*t/R, lambda t: sl + 0*t)]
    if kind == "ellipsoidal":
        return [(0, pi/2, lambda t: R*np.sin(t), lambda t: a*(1 - np.cos(t)), lambda t: np.sqrt((R*np.cos(t))**2 + (a*np.sin(t))**2))]
    if kind == "spherical":
        r = (R*R + a*a)/(2*a)
        return [(0, atan2(R, r - a), lambda t: r*np.sin(t), lambda t: 2*r*np.sin(t/2)**2, lambda t: r + 0*t)]
    if kind == "torispherical":
        al, a1, a2 = tori(D, f, k)
        s, kD, fD = R - k*D, k*D, f*D
        return [(0, al, lambda t: fD*np.sin(t), lambda t: 2*fD*np.sin(t/2)**2, lambda t: fD + 0*t),
                (al, pi/2, lambda t: s + kD*np.sin(t), lambda t: a1 + a2 - kD*np.cos(t), lambda t: kD + 0*t)]
    return []
def root(f, lo, hi):
    """bisection for an increasing f"""
    for _ in range(200):
        m = (lo + hi)/2
        if m in (lo, hi): break
        if f(m) < 0: lo = m
        else: hi = m
    return (lo + hi)/2
def SA_head_h(kind, D, a, h, f=None, k=None):
    """wetted area of one head of a horizontal tank"""
    R = D/2
    if h <= 0: return 0.0
    h = min(h, D)
    if kind is None: return seg(R, h)
    if kind == "guppy":
        # z = a/(2R) (R + x - y^2/(R - x)); y = Y u with Y^2 = (R-x)(R+x); the u integral by quadrature
        def F(x):
            w = np.maximum(R - x, 1e-300); Y = np.sqrt((R - x)*(R + x))
            out = np.zeros_like(x)
            for n, wt in zip((_X + 1)/2, _W/2):
                y2 = Y*Y*n*n
                zx = a/(2*R)*(1 - y2/w**2); zy2 = (a/R)**2*y2/w**2
                out += wt*np.sqrt(1 + zx*zx + zy2)
            return 2*Y*out
        # graded panels towards the top of the head where the slope is unbounded
        top = h - R
        p = [-R] + [R - 2*R*10.0**-e for e in (.3, 1, 2, 3, 4, 5, 6, 8)]
        p = [v for v in p if v < top] + [top]
        return sum(q(F, x, y) for x, y in zip(p, p[1:]))
    x0 = h - R
    tot = 0.0
    for t0, t1, rho, y, ds in meridian(kind, D, a, f, k):
        def g(t):
            p = rho(t)
            c = np.clip(-x0/np.where(p > 0, p, 1e-300), -1, 1)
            return 2*np.arccos(c)*p*ds(t)
        pts = [t0, t1]
        m = abs(x0)
        # split where the profile crosses |x0| (square-root behaviour of the angle)
        grid = [t0 + (t1 - t0)*i/64 for i in range(65)]
        for u, v in zip(grid, grid[1:]):
            fu, fv = float(rho(np.float64(u))) - m, float(rho(np.float64(v))) - m
            if fu*fv < 0:
                pts.append(root(lambda t: float(rho(np.float64(t))) - m, u, v) if fu < 0 else root(lambda t: m - float(rho(np.float64(t))), u, v))
        pts.sort()
        tot += sum(q(g, u, v) for u, v in zip(pts, pts[1:]))
    return tot
# ---- vertical heads
def V_head_v(kind, D, a, h, f=None, k=None):
    """volume of a convex bottom head filled to h <= its depth"""
    if kind is None or h <= 0: return 0.0
    R = D/2
    if kind == "torispherical":
        al, a1, a2 = tori(D, f, k); a = a1 + a2
        h = min(h, a)
        v = pi*min(h, a1)**2*(f*D - min(h, a1)/3)
        if h > a1:
            s, kD = R - k*D, k*D
            v += q(lambda y: pi*(s + np.sqrt(np.maximum(kD*kD - (a - y)**2, 0)))**2, a1, h)
        return v
    if a == 0: return 0.0
    h = min(h, a)
    if kind == "conical": return pi*R*R*h**3/(3*a*a)
    if kind == "ellipsoidal": return pi*R*R*h*h/a*(1 - h/(3*a))
    if kind == "spherical": return pi*h*h*((R*R + a*a)/(2*a) - h/3)
def SA_head_v(kind, D, a, h, f=None, k=None):
    R = D/2
    if kind is None: return pi*R*R
    if kind == "torispherical": a = sum(tori(D, f, k)[1:])
    if a == 0: return pi*R*R
    if h <= 0: return 0.0
    h = min(h, a)
    tot = 0.0
    for t0, t1, rho, y, ds in meridian(kind, D, a, f, k):
        if float(y(np.float64(t0))) >= h: break
        te = t1 if float(y(np.float64(t1))) <= h else root(lambda t: float(y(np.float64(t))) - h, t0, t1)
        tot += q(lambda t: 2*pi*rho(t)*ds(t), t0, te, 4)
    return tot
# ---- the whole tank; A, B = (kind, a, f, k)
def V_h(D, L, hor, A, B, h):
    if hor:
        h = min(max(h, 0), D)
        return L*seg(D/2, h) + sum(V_head_h(x[0], D, x[1], h, *x[2:]) for x in (A, B))
    aA, aB = (depth(x[0], D, *x[1:]) for x in (A, B))
    h = min(h, L + aA + aB)
    v = V_head_v(A[0], D, A[1], min(h, aA), *A[2:])
    v += pi/4*D*D*min(max(h - aA, 0), L)
    if h > aA + L:
        v += V_head_v(B[0], D, B[1], aB, *B[2:]) - V_head_v(B[0], D, B[1], aB - (h - aA - L), *B[2:])
    return v
def SA_h(D, L, hor, A, B, h):
    if hor:
        h = min(max(h, 0), D)
        return L*D*acos(max(-1, 1 - 2*h/D)) + sum(SA_head_h(x[0], D, x[1], h, *x[2:]) for x in (A, B))
    aA, aB = (depth(x[0], D, *x[1:]) for x in (A, B))
    h = min(h, L + aA + aB)
    v = SA_head_v(A[0], D, A[1], min(h, aA), *A[2:])
    v += pi*D*min(max(h - aA, 0), L)
    if h >= aA + L:
        full = SA_head_v(B[0], D, B[1], aB, *B[2:])
        v += full if aB == 0 else full - SA_head_v(B[0], D, B[1], aB - (h - aA - L), *B[2:])
    return v
def A_cross(D, L, hor, A, B, h):
    """free surface area dV/dh"""
    if hor:
        x = h - D/2
        return 2*L*sqrt(max(D*D/4 - x*x, 0)) + sum(float(chord(y[0], D, *y[1:])(np.array([x]))[0]) for y in (A, B) if y[0])
    aA, aB = (depth(x[0], D, *x[1:]) for x in (A, B))
    if aA <= h <= aA + L: return pi/4*D*D
    x, y = (A, h) if h < aA else (B, aB - (h - aA - L))
    a, R = depth(x[0], D, *x[1:]), D/2
    if x[0] == "conical": return pi*(R*y/a)**2
    if x[0] == "ellipsoidal": return pi*R*R*(1 - (1 - y/a)**2)
    if x[0] == "spherical": return pi*(2*y*(R*R + a*a)/(2*a) - y*y)
    al, a1, a2 = tori(D, x[2], x[3]); kD = x[3]*D
    return pi*(2*x[2]*D*y - y*y) if y < a1 else pi*(R - kD + sqrt(max(kD*kD - (a - y)**2, 0)))**2
