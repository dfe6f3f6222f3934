"""P11 control-valve sizing, P12 control-valve noise"""
from math import *
from ..dom import *
from ..lib import adder
from ..engine import Raises, SKIP, Approx, Err, ABSENT, close
S, N = [], []
s, sn = adder(S, "control_valve"), adder(N, "control_valve")
BAD = Raises(ValueError)
P = L(1e4, 5e7)
RHO0, GAS = 999.10329075702327, 8.31446261815324
N1, N2, N4, N5, N9, N18, N32 = .1, 1.6e-3, 7.07e-2, 1.8e-3, 24.6, .865, 140.
def desc(*ks):
    """named values put in descending order"""
    def f(a):
        v = sorted((a[k] for k in ks if isinstance(a.get(k), float)), reverse=True); i = 0
        a = dict(a)
        for k in ks:
            if isinstance(a.get(k), float): a[k] = v[i]; i += 1
        return a
    return f
s("cavitation_index", lambda P1, P2, Psat: (P1 - Psat)/(P1 - P2), P1=P, P2=P, Psat=P, _n=.3)
s("FF_critical_pressure_ratio_l", lambda Psat, Pc: .96 - .28*sqrt(Psat/Pc), Psat=P, Pc=P, _n=.3)
def FF(Psat, Pc): return .96 - .28*sqrt(Psat/Pc)
def chl(Psat, Pc, FL, P1=None, P2=None, check_choking=True):
    if (P1 is None) == (P2 is None): return BAD
    f = FF(Psat, Pc)*Psat          # choked when P1 - P2 = FL^2 (P1 - FF Psat)
    ans = P1 - FL**2*(P1 - f) if P2 is None else (P2 - FL**2*f)/(1 - FL**2)
    a, b = (P1, ans) if P2 is None else (ans, P2)
    return BAD if b > a and check_choking else ans
s("control_valve_choke_P_l", chl, Psat=L(100, 5e6), Pc=L(1e6, 3e7), FL=U(.3, .98), P1=O(P, .45), P2=O(P, .45), check_choking=O(C(True, False, False), .3), _rtol=1e-8, _n=2,
  _fix=lambda a: a if not (a["P1"] is not OMIT and a["P2"] is not OMIT and int(a["P1"]) % 4) else dict(a, P2=OMIT))
def chg(xT, gamma, P1=None, P2=None):
    if (P1 is None) == (P2 is None): return BAD
    x = xT*gamma/1.4               # choked when (P1 - P2)/P1 = Fgamma xT
    return P1*(1 - x) if P2 is None else P2/(1 - x)
s("control_valve_choke_P_g", chg, xT=U(.2, .8), gamma=U(1.05, 1.6), P1=O(P, .45), P2=O(P, .45), _rtol=1e-8,
  _fix=lambda a: a if not (a["P1"] is not OMIT and a["P2"] is not OMIT and int(a["P1"]) % 4) else dict(a, P2=OMIT))
def ctl(dP, P1, Psat, FF, FL=None, FLP=None, FP=None):
    if FLP and FP: return dP >= (FLP/FP)**2*(P1 - FF*Psat)
    if FL: return dP >= FL**2*(P1 - FF*Psat)
    return BAD
s("is_choked_turbulent_l", ctl, dP=P, P1=P, Psat=P, FF=U(.5, .96), FL=O(U(.3, 1)), FLP=O(U(.3, 1)), FP=O(U(.5, 1)))
def ctg(x, Fgamma, xT=None, xTP=None):
    v = xT or xTP
    return BAD if not v else x >= Fgamma*v
s("is_choked_turbulent_g", ctg, x=U(0, 1), Fgamma=U(.7, 1.3), xT=O(U(.2, .9)), xTP=O(U(.2, .9)))
def rev(nu, Q, D1, FL, Fd, C): return N4*Fd*Q/(nu*sqrt(C*FL))*(FL**2*C**2/(N2*D1**4) + 1)**.25
s("Reynolds_valve", rev, nu=L(1e-7, .1), Q=L(1e-4, 1e4), D1=L(5, 1000), FL=U(.3, 1), Fd=U(.05, 1), C=L(1e-4, 1e4))
def lp(d, D1=None, D2=None):
    k = 0
    if D1: b = (d/D1)**2; k += .5*(1 - b)**2 + (1 - b*b)
    if D2: b = (d/D2)**2; k += (1 - b)**2 - (1 - b*b)
    return k
DD = L(.005, 1)
s("loss_coefficient_piping", lp, d=DD, D1=O(DD), D2=O(DD), _atol=1e-12)
def fr(FL, C, d, Rev, full_trim=True, cap=True):
    n = N2/min(C/d**2, .04)**2 if full_trim else 1 + N32*(C/d**2)**(2/3)
    lam = .026/FL*sqrt(n*Rev)
    if cap or not full_trim: lam = min(lam, 1)
    return lam if Rev < 10 else min(lam, 1 + .33*sqrt(FL)/n**.25*log10(Rev/1e4))
s("Reynolds_factor", fr, FL=U(.3, 1), C=L(1e-4, 1e3), d=L(5, 500), Rev=L(.01, 3e4), full_trim=O(C(True, False), .2), _n=2, _atol=1e-12,
  _known=[("P11-Reynolds_factor-full-trim", lambda a, got: a.get("full_trim", True) and fr(a["FL"], a["C"], a["d"], a["Rev"], True, False) > 1 and abs(got - fr(a["FL"], a["C"], a["d"], a["Rev"], True, False)) < 1e-9*got)])
def lamin(C, Q, nu, D1, d, FL, Fd, out):
    for _ in range(900):
        Ci = 1.3*C
        R = rev(nu, Q, D1, FL, Fd, Ci)
        F = fr(FL, Ci, d, R, not Ci/d**2 > .016*N18, False)
        if C/F < Ci: break
        C = Ci
    else: return None
    out["Rev"], out["FR"] = R, F
    return Ci
def sl(rho, Psat, Pc, mu, P1, P2, Q, D1=None, D2=None, d=None, FL=.9, Fd=1, allow_choked=True, allow_laminar=True, full_output=False, first=False):
    o = dict(FLP=None, FP=None, FR=None)
    p1, p2, ps = P1/1e3, P2/1e3, Psat/1e3
    q, dP, f = Q*3600, (P1 - P2)/1e3, FF(Psat, Pc)
    if dP <= 1e-7*p1 or p1 <= f*ps: return SKIP
    ch = dP >= FL**2*(p1 - f*ps)
    g = sqrt(rho/RHO0)
    Cf = q/(N1*FL)*g/sqrt(p1 - f*ps) if ch and allow_choked else q/N1*g/sqrt(dP)
    Rv = 1e5
    n = sum(v is None for v in (D1, D2, d))
    if n in (1, 2): return BAD
    if not n:
        D1, D2, d = D1*1e3, D2*1e3, d*1e3
        nu = mu/rho
        Rv = rev(nu, q, D1, FL, Fd, Cf)
        if (Rv > 1e4 or not allow_laminar):
            if D1 != d or D2 != d:
                K, Ku = lp(d, D1, D2), lp(d, D1) if d <= D1 else 0.
                Ci = Cf
                for it in range(21):
                    FP = 1/sqrt(1 + K/N2*(Ci/d**2)**2)
                    FLP = FL/sqrt(1 + FL**2/N2*Ku*(Ci/d**2)**2)
                    c2 = dP >= (FLP/FP)**2*(p1 - f*ps)
                    if it == 0 or not first: o["FLP"], o["FP"] = FLP, FP
                    if not first: ch = c2
                    Cf = q/(N1*FLP)*g/sqrt(p1 - f*ps) if c2 and allow_choked else q/(N1*FP)*g/sqrt(dP)
                    if not (Ci/Cf < .99 and Ci < 1e40): break
                    Ci = Cf
                if it == 20 or Ci >= 1e40: o["warning"] = "Not converged in inner loop"
        elif allow_laminar:
            Cf = lamin(Cf, q, nu, D1, d, FL, Fd, o)
            if Cf is None: return SKIP
    if Cf > 1e30: return SKIP                 # diverged: only the stopping point differs
    if not full_output: return Cf
    lam = Rv <= 1e4
    o.setdefault("Rev", Rv)
    o.update(FF=f, choked=ch, Kv=Cf, laminar=lam); o.setdefault("warning", ABSENT)
    return o
def first_pass(model):
    # at the choking boundary itself either side of rounding
    return lambda a, got: isinstance(got, dict) and any(close(got, model(**dict(a, P2=a["P2"]*z), first=True), 1e-8, 0) is None for z in (1, 1 + 1e-12, 1 - 1e-12))
kl = first_pass(lambda **a: sl(**a)); kg = first_pass(lambda **a: sg(**a))
VD = dict(D1=O(DD, .25), D2=O(DD, .25), d=O(DD, .25), FL=O(U(.3, 1), .2), Fd=O(U(.05, 1), .2), allow_choked=O(C(True, False), .5), allow_laminar=O(C(True, False), .5), full_output=O(C(True, False), .3))
def vfix(a):
    if a["P2"] > a["P1"]: a = dict(a, P1=a["P2"], P2=a["P1"])
    a = dict(a); h = int(a["Q"]*1e12) % 10
    k = ("D1", "D2", "d")
    if 0 < sum(a[x] is OMIT for x in k) < 3 and h:
        v = [a[x] for x in k if a[x] is not OMIT][0]
        if h < 3:
            for x in k: a[x] = OMIT
        else:
            for i, x in enumerate(k):
                if a[x] is OMIT: a[x] = v*(1, 1.2, .9)[i] if h < 8 else v
    if not any(a[x] is OMIT for x in k):
        D1, d, D2 = a["D1"], a["d"], a["D2"]
        if max(D1, D2, d)/min(D1, D2, d) > 4: a["D1"], a["D2"] = d*(1 + (D1*1e6) % 1), d*(1 + (D2*1e6) % 1)
        if h < 8 and d > min(a["D1"], a["D2"]): a["d"] = min(a["D1"], a["D2"])*.9
        # a flow for which the valve is of a size comparable to d
        if h != 5: a["Q"] = a["d"]**2*.02*(a["Q"]*1e7 % 1 + .001)*sqrt((a["P1"] - a["P2"])/a.get("rho", a["P1"]/1e5))
    return a
s("size_control_valve_l", sl, rho=L(400, 2e3), Psat=L(100, 5e6), Pc=L(3e6, 3e7), mu=L(1e-5, 10), P1=P, P2=P, Q=L(1e-6, 10), **VD, _fix=vfix, _n=8, _known=[("P11-piping-regime-reported", kl)])
s("size_control_valve_l", sl, rho=L(600, 1500), Psat=L(100, 1e6), Pc=L(3e6, 3e7), mu=L(1e-4, 1e-2), P1=L(2e5, 2e7), P2=P, Q=L(1e-6, 10), **dict(VD, D1=DD, D2=DD, d=DD, FL=U(.3, .95)), _fix=vfix, _n=5, _known=[("P11-piping-regime-reported", kl)])
def sg(T, MW, mu, gamma, Z, P1, P2, Q, D1=None, D2=None, d=None, FL=.9, Fd=1, xT=.7, allow_choked=True, allow_laminar=True, full_output=False, first=False):
    p1, q = P1/1e3, Q*3600
    x, Fg = (P1 - P2)/P1, gamma/1.4
    if x <= 1e-7: return SKIP
    rho = MW/1e3*P1/(Z*GAS*T)
    Y = max(1 - x/(3*Fg*xT), 2/3)
    ch = x >= Fg*xT
    def KV(FP, xt, choked): return q/(N9*FP*p1*Y)*sqrt(MW*T*Z/(xt*Fg if choked and allow_choked else x))
    Cf = KV(1, xT, ch)
    o = dict(FP=None, xTP=None, FR=None, choked=ch, Y=Y)
    n = sum(v is None for v in (D1, D2, d))
    if n in (1, 2): return BAD
    Rv = 1e5
    if n: o["Rev"] = None
    else:
        D1, D2, d = D1*1e3, D2*1e3, d*1e3
        nu = mu/rho
        Rv = o["Rev"] = rev(nu, q, D1, FL, Fd, Cf)
        if Rv > 1e4 or not allow_laminar:
            if D1 != d or D2 != d:
                K, Ku = lp(d, D1, D2), lp(d, D1)
                Ci = Cf
                for it in range(21):
                    FP = 1/sqrt(1 + K/N2*(Ci/d**2)**2)
                    xTP = xT/FP**2/(1 + xT*Ku/N5*(Ci/d**2)**2)
                    o["FP"], o["xTP"] = FP, xTP
                    if not xTP: return SKIP
                    c2 = x >= Fg*xTP
                    if not first: o["choked"] = c2
                    Cf = KV(FP, xTP, c2)
                    if not (Ci/Cf < .99 and Ci < 1e40): break
                    Ci = Cf
                if it == 20 or Ci >= 1e40: o["warning"] = "Not converged in inner loop"
        elif allow_laminar:
            Cf = lamin(Cf, q, nu, D1, d, FL, Fd, o)
            if Cf is None: return SKIP
    if Cf > 1e30: return SKIP                 # diverged: only the stopping point differs
    if not full_output: return Cf
    o.update(Kv=Cf, laminar=Rv <= 1e4); o.setdefault("warning", ABSENT)
    return o
s("size_control_valve_g", sg, T=U(150, 900), MW=L(2, 150), mu=L(5e-6, 1e-3), gamma=U(1.05, 1.67), Z=U(.3, 1.1), P1=P, P2=P, Q=L(1e-6, 100), xT=O(U(.2, .9), .2), **VD, _fix=vfix, _n=8, _known=[("P11-piping-regime-reported", kg)])
s("size_control_valve_g", sg, T=U(150, 900), MW=L(2, 150), mu=L(5e-6, 5e-5), gamma=U(1.05, 1.67), Z=U(.3, 1.1), P1=P, P2=P, Q=L(1e-6, 100), xT=O(U(.2, .9), .2), **dict(VD, D1=DD, D2=DD, d=DD), _fix=vfix, _n=5, _known=[("P11-piping-regime-reported", kg)])
GPM = 0.0037854117839999997/60
AV = sqrt(RHO0/6894.757293168361)*GPM          # Cv (US) -> Av (SI)
def cfc(flow_coefficient, old_scale, new_scale):
    KVCV = 1.1560992283536566
    if not {old_scale, new_scale} <= {"Kv", "Cv", "Av"}: return Raises(NotImplementedError)
    f = {"Cv": 1, "Kv": 1/KVCV, "Av": AV*1.0}
    return flow_coefficient/f[old_scale]*f[new_scale]
s("convert_flow_coefficient", cfc, flow_coefficient=L(1e-6, 1e5), old_scale=C("Kv", "Cv", "Av", "Qn"), new_scale=C("Kv", "Cv", "Av", "Cg"), _rtol=1e-8)
# opening characteristics: published points, monotonic, ends 0 and 1
QO = ([0.0, 0.0136, 0.02184, 0.03256, 0.04575, 0.06221, 0.07459, 0.0878, 0.10757, 0.12654, 0.14301, 0.16032, 0.18009, 0.18999, 0.20233, 0.23105, 0.25483, 0.28925, 0.32365, 0.36541, 0.42188, 0.46608, 0.53319, 0.61501, 0.7034, 0.78033, 0.84415, 0.91944, 1.000],
      [0.0, 0.04984, 0.07582, 0.12044, 0.16614, 0.21707, 0.26998, 0.32808, 0.39353, 0.46516, 0.52125, 0.58356, 0.64798, 0.68845, 0.72277, 0.76565, 0.79399, 0.82459, 0.84589, 0.86732, 0.88078, 0.89399, 0.90867, 0.92053, 0.93973, 0.95872, 0.96817, 0.98611, 1.0])
EQ = ([0.0, 0.05523, 0.09287, 0.15341, 0.18942, 0.22379, 0.25816, 0.29582, 0.33348, 0.34985, 0.3826, 0.45794, 0.49235, 0.51365, 0.54479, 0.57594, 0.60218, 0.62843, 0.77628, 0.796, 0.83298, 0.86995, 0.90936, 0.95368, 1.00],
      [0.0, 0.00845, 0.01339, 0.01877, 0.02579, 0.0349, 0.04189, 0.05528, 0.07079, 0.07533, 0.09074, 0.13444, 0.15833, 0.17353, 0.20159, 0.23388, 0.26819, 0.30461, 0.60113, 0.64588, 0.72583, 0.80788, 0.87519, 0.94999, 1.])
from scipy.interpolate import CubicSpline
from ..refs import lin
def cv(tab):
    sp = CubicSpline(*tab, bc_type="not-a-knot")
    return lambda opening: Approx(float(sp(opening)), 1e-9, 2e-6)
s("Cv_char_quick_opening", cv(QO), opening=U(0, 1), _pos=["opening"], _n=.5)
s("Cv_char_equal_percentage", cv(EQ), opening=U(0, 1), _pos=["opening"], _n=.5)
s("Cv_char_linear", lambda opening: opening, opening=U(0, 1), _pos=["opening"], _n=.2)
# ---------------- noise
FI = [12.5, 16., 20., 25., 31.5, 40., 50., 63., 80.]
FI = FI + [100., 125., 160., 200., 250., 315., 400., 500., 630., 800.] + [1000., 1250., 1600., 2000., 2500., 3150., 4000., 5000., 6300., 8000.] + [1e4, 12500., 16e3, 2e4]
AW = [-63.4, -56.7, -50.5, -44.7, -39.4, -34.6, -30.2, -26.2, -22.5, -19.1, -16.1, -13.4, -10.9, -8.6, -6.6, -4.8, -3.2, -1.9, -.8, 0, .6, 1., 1.2, 1.3, 1.2, 1., .5, -.1, -1.1, -2.5, -4.3, -6.6, -9.3]
assert len(FI) == len(AW) == 33
KVCV = 1.1560992283536566
def nl(m, P1, P2, Psat, rho, c, Kv, d, Di, FL, Fd, t_pipe, rho_pipe=7800., c_pipe=5000., rho_air=1.2, c_air=343., xFz=None, An=-4.6):
    Cc = KVCV*Kv
    xF = (P1 - P2)/(P1 - Psat)
    dPc = min(P1 - P2, FL**2*(P1 - Psat))
    if xFz is None: xFz = .9/sqrt(1 + 3*Fd*sqrt(Cc/(1.17*FL)))
    z = xFz*(6e5/P1)**.125
    Dj, U = .0046*Fd*sqrt(Cc*FL), sqrt(2*dPc/rho)/FL
    Wm = .5*m*U**2*FL**2
    et = 10**An*U/c
    cav = xF > z
    ec = .32*et*sqrt((P1 - P2)/dPc/z)*exp(5*z)*sqrt((1 - z)/(1 - xF))*(xF/z)**5*(xF - z)**1.5 if cav else 0
    Lpi = 10*log10(3.2e9*(et + ec)*Wm*rho*c/Di**2)
    fpt = .036*FL**2*Cc*Fd**.75/(1.17*z**1.5*d**2)*(1/(P1 - Psat))**.57*U/Dj
    fpc = 6*fpt*((1 - xF)/(1 - z))**2*(z/xF)**2.5 if cav else 1
    fres = c_pipe/(pi*Di)
    tot = 0
    for f, A in zip(FI, AW):
        Ft = -8 - 10*log10(.25*(f/fpt)**3 + fpt/f)
        if cav:
            Fc = -9 - 10*log10(.25*(f/fpc)**1.5 + (fpc/f)**1.5)
            Lf = Lpi + 10*log10(et/(et + ec)*10**(.1*Ft) + ec/(et + ec)*10**(.1*Fc))
        else: Lf = Lpi + Ft
        TL = -10 - 10*log10(c_pipe*rho_pipe*t_pipe/(c_air*rho_air*Di)) - 20*log10(fres/f + (f/fres)**1.5)
        tot += 10**(.1*(Lf + TL - 10*log10((Di + 2*t_pipe + 2)/(Di + 2*t_pipe)) + A))
    return 10*log10(tot)
def nlfix(a):
    a = desc("P1", "P2", "Psat")(a)
    return a if a["d"] <= a["Di"] else dict(a, d=a["Di"], Di=a["d"])
PIPE = dict(t_pipe=L(1e-3, .03), rho_pipe=O(U(2000, 9000), .7), c_pipe=O(U(2000, 6000), .7), rho_air=O(U(.8, 1.6), .7), c_air=O(U(300, 380), .7), An=O(U(-5, -3), .6))
sn("control_valve_noise_l_2015", nl, m=L(.1, 500), P1=L(1e5, 2e7), P2=L(5e4, 2e7), Psat=L(1e2, 1e6), rho=L(500, 1800), c=U(800, 2000), Kv=L(1, 2000), d=L(.01, .6), Di=L(.01, 1), FL=U(.4, 1), Fd=U(.05, 1), xFz=O(U(.1, .7)), **PIPE, _fix=nlfix, _n=1, _rtol=1e-8, _atol=1e-8)
def ng(m, P1, P2, T1, rho, gamma, MW, Kv, d, Di, t_pipe, Fd, FL, FLP=None, FP=None, rho_pipe=7800., c_pipe=5000., P_air=101325., rho_air=1.2, c_air=343., An=-3.8, Stp=.2, T2=None, beta=.93):
    k, Cc, T2 = gamma, KVCV*Kv, T1 if T2 is None else T2
    if FP is not None and FLP is not None: F = FLP/FP
    elif FL is None: return BAD
    else: F = FL
    x = (P1 - P2)/P1
    xv = 1 - (2/(k + 1))**(k/(k - 1))
    xc = F**2*xv
    al = (1 - xv)/(1 - xc)
    xB, xCE = 1 - (1/k)**(k/(k - 1))/al, 1 - 1/(22*al)
    if x > xc and x > xv and not (xc <= xv <= xB <= xCE): return SKIP
    Dj = .0046*Fd*sqrt(Cc*F)
    M5 = sqrt(2/(k - 1)*(22**((k - 1)/k) - 1))
    cc = sqrt(2*k/(k + 1)*P1/rho)
    Wcc = .5*m*cc**2
    if x <= xc:
        r = 1 - x/F**2
        Mv, cvc = sqrt(2/(k - 1)*(r**((1 - k)/k) - 1)), sqrt(k*P1/rho*r**((k - 1)/k))
        W, fp, eta = .5*m*(Mv*cvc)**2, Stp*Mv*cvc/Dj, 10**An*F**2*Mv**3
    elif x <= xCE:
        M = min(M5, sqrt(2/(k - 1)*((1/(al*(1 - x)))**((k - 1)/k) - 1)))
        W = Wcc
        if x <= xv or x <= xB: fp, eta = Stp*M*cc/Dj, 10**An*M**(6.6*F**2)*(x/xv if x <= xv else 1)
        else: fp, eta = 1.4*Stp*cc/(Dj*sqrt(M*M - 1)), .5*10**An*M**2*sqrt(2)**(6.6*F**2)
    else: W, fp, eta = Wcc, 1.4*Stp*cc/(Dj*sqrt(M5**2 - 1)), .5*10**An*M5**2*sqrt(2)**(6.6*F**2)
    r2, c2 = rho*P2/P1, sqrt(k*GAS*T2/(MW/1e3))
    M2 = 4*m/(pi*Di**2*r2*c2)
    Lg = 16*log10(1/(1 - min(M2, .3)))
    Lpi = 10*log10(3.2e9*eta*W*r2*c2/Di**2) + Lg
    hi = M2 > .3
    if hi:
        UR = 4*m/(pi*r2*Di**2)*Di**2/(beta*d**2)
        WR = .5*m*UR**2*((1 - (d/Di)**2)**2 + .2)
        fpR = Stp*UR/d
        LR = 10*log10(3.2e9*10**An*(UR/c2)**3*WR*r2*c2/Di**2) + Lg
    fres = c_pipe/(pi*Di); f0 = fres/4*c2/c_air; fg = sqrt(3)*c_air**2/(pi*t_pipe*c_pipe)
    dTL = 0 if d > .15 else 9 if d < .05 else -16660*d**3 + 6370*d**2 - 813*d + 35.8
    tot = 0
    def band(Lv, fpk, f): return Lv - 8 - 10*log10((1 + (f/(2*fpk))**2.5)*(1 + (fpk/(2*f))**1.7))
    for f, A in zip(FI, AW):
        Lf = band(Lpi, fp, f)
        if hi: Lf = 10*log10(10**(.1*Lf) + 10**(.1*band(LR, fpR, f)))
        if f < f0: Gx, Gy = (f0/fres)**(2/3)*(f/f0)**4, f0/fg if f0 < fg else 1
        else: Gx, Gy = sqrt(f/fres) if f < fres else 1, f/fg if f < fg else 1
        den = (r2*c2 + 2*pi*t_pipe*f*rho_pipe*sqrt(.01/f))/(415*Gy) + 1
        TL = 10*log10(8.25e-7*(c2/(t_pipe*f))**2*Gx/den*P_air/101325) - dTL
        tot += 10**(.1*(Lf + TL - 10*log10((Di + 2*t_pipe + 2)/(Di + 2*t_pipe)) + A))
    return 10*log10(tot)
def ngfix(a):
    a = desc("P1", "P2")(a)
    if a["d"] > a["Di"]: a = dict(a, d=a["Di"], Di=a["d"])
    if a["FLP"] is not OMIT and a["FP"] is not OMIT: a = dict(a, FLP=a["FLP"]*a["FP"])
    # mass flow giving an outlet Mach number of up to about 1
    c2 = sqrt(a["gamma"]*GAS*a["T1"]/(a["MW"]/1e3))
    if a["m"] > .1*a["rho"]*a["P2"]/a["P1"]*c2*a["Di"]**2: a = dict(a, m=a["m"]*1e6 % 1*a["rho"]*a["P2"]/a["P1"]*c2*a["Di"]**2)
    return a if a["m"] > 1e-6 else None
sn("control_valve_noise_g_2011", ng, m=L(.01, 200), P1=L(1e5, 2e7), P2=L(1e4, 2e7), T1=U(200, 800), T2=O(U(200, 800)), rho=L(.5, 200), gamma=U(1.05, 1.67), MW=L(2, 120), Kv=L(1, 2000), d=L(.01, .6), Di=L(.01, 1), Fd=U(.05, 1), FL=C(None, .9, .8, .7, .6, .5, .95, .85), FLP=O(U(.4, .98), .5), FP=O(U(.5, 1), .3),
   P_air=O(U(8e4, 1.1e5), .7), Stp=O(U(.1, .3), .7), beta=O(U(.8, 1), .7), **PIPE, _fix=ngfix, _n=1.6, _rtol=1e-8, _atol=1e-8)
