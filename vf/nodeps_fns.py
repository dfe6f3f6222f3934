"""functions of the generic P45 workload; importable in the restricted interpreters (standard library only)"""
import math
def quad1(x, a, b): return x*x - a + b*x
def exp1(x, a, b): return math.exp(x) - a - b*x
def exp1d(x, a, b): return math.exp(x) - a - b*x, math.exp(x) - b
def exp1dd(x, a, b): return math.exp(x) - a - b*x, math.exp(x) - b, math.exp(x)
def cosfp(x): return [.5*math.cos(x[0]) + .1*x[-1]] + [.3*math.sin(v) + .2 for v in x[1:]]
def sys1(x): return [x[i]**3 + 2*x[i] + .3*x[i - 1] - i - 1 for i in range(len(x))]
def sys1j(x):
    n = len(x); J = [[0.0]*n for _ in range(n)]
    for i in range(n): J[i][i] += 3*x[i]**2 + 2; J[i][i - 1] += .3
    return J
def sys1fj(x): return sys1(x), sys1j(x)
def bowl(x): return sum((v - i)**2 for i, v in enumerate(x)) + x[0]*x[-1]*.1
def smooth(x): return math.exp(-x*x)*math.cos(3*x)
