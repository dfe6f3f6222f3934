From f6d99a1a94e633fe8b4efc6cff364a77b73e7fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:05 +0000
Subject: [PATCH 001/115] fix: isothermal critical flow pressure for long pipes
 (fd*L/D over ~745)

The exponential inside lambertw underflowed, so P_isothermal_critical_flow
returned 0 and P_upstream_isothermal_critical_flow inf.
---
 fluids/compressible.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/fluids/compressible.py b/fluids/compressible.py
index 65c87e7..5a33a4e 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -514,6 +514,20 @@ def P_critical_flow(P: float, k: float) -> float:
     return P*(2.0/(k + 1.0))**(k/(k - 1.0))
 
 
+def _isothermal_lambertw_term(fd: float, D: float, L: float) -> float:
+    """Not part of the public API. Calculates `lambertw(-exp(-(D + L*fd)/D), -1)`,
+    also where the exponential underflows (long pipes, `fd*L/D` over ~745).
+    """
+    x = (D + L*fd)/D
+    if x < 700.0:
+        # Correct branch of lambertw found by trial and error
+        return float((lambertw(-exp((-D - L*fd)/D), -1)).real)
+    # Newton's method on w + log(-w) + x = 0, the logarithm of w*exp(w) = -exp(-x)
+    w = -x - log(x)
+    for _ in range(5):
+        w -= (w + log(-w) + x)*w/(w + 1.0)
+    return w
+
 def P_isothermal_critical_flow(P: float, fd: float, D: float, L: float) -> float:
     r"""Calculates critical flow pressure `Pcf` for a fluid flowing
     isothermally and suffering pressure drop caused by a pipe's friction factor.
@@ -559,8 +573,7 @@ def P_isothermal_critical_flow(P: float, fd: float, D: float, L: float) -> float
        Microfluidics and CFD. 2 edition. Upper Saddle River, NJ: Prentice Hall,
        2005.
     """
-    # Correct branch of lambertw found by trial and error
-    lambert_term = float((lambertw(-exp((-D - L*fd)/D), -1)).real)
+    lambert_term = _isothermal_lambertw_term(fd, D, L)
     return P*exp((D*(lambert_term + 1.0) + L*fd)/(2.0*D))
 
 
@@ -573,7 +586,7 @@ def P_upstream_isothermal_critical_flow(P: float, fd: float, D: float, L: float)
     ... L=1000., D=0.5)
     1000000.00000
     """
-    lambertw_term = float(lambertw(-exp(-(fd*L+D)/D), -1).real)
+    lambertw_term = _isothermal_lambertw_term(fd, D, L)
     return exp(-0.5*(D*lambertw_term+fd*L+D)/D)*P
 
 
-- 
2.43.0


From 14c5d59eda9a863a381cafe82829c8992fe253e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:05 +0000
Subject: [PATCH 002/115] fix: isothermal_gas solving for diameter rejected
 feasible states

The secant search could step into the choked region and raise; fall back to a
bracketed search bounded by the diameter at which P2 becomes critical.
---
 fluids/compressible.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fluids/compressible.py b/fluids/compressible.py
index 5a33a4e..0727fc8 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -976,7 +976,15 @@ f"due to the formation of choked flow at P2={Pcf:f}, specified outlet pressure w
             # It is believed Pcf and P1 will always bracket the root, however
             # leave the commented code for testing
     elif D is None and P2 is not None and P1 is not None and L is not None and m is not None:
-        return secant(isothermal_gas_err_D, 0.1, args=(m, rho, fd, P1, P2, L))
+        try:
+            return secant(isothermal_gas_err_D, 0.1, args=(m, rho, fd, P1, P2, L))
+        except:
+            # The secant iterations stepped into the choked region. The mass flow
+            # increases with diameter up to the diameter at which `P2` is the
+            # critical pressure; that diameter is an upper bound.
+            ratio2 = P2*P2/(P1*P1)
+            D_max = fd*L/(1.0/ratio2 - 1.0 + log(ratio2))
+            return brenth(isothermal_gas_err_D, 1e-6*D_max, D_max*(1.0 - 1e-9), args=(m, rho, fd, P1, P2, L))
     else:
         raise ValueError("This function solves for either mass flow, upstream \
 pressure, downstream pressure, diameter, or length; all other inputs \
-- 
2.43.0


From 56499d706d1d4a6d22b643815036fc804ac340ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:05 +0000
Subject: [PATCH 003/115] fix: isothermal_gas solving for upstream pressure at
 the choked bound

The bracket ended exactly at the critical pressure, where rounding made P2
'impossible' and a feasible flow was rejected.
---
 fluids/compressible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/compressible.py b/fluids/compressible.py
index 0727fc8..4046b31 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -932,7 +932,8 @@ f"due to the formation of choked flow at P2={Pcf:f}, specified outlet pressure w
             return P1
         except:
             try:
-                return brenth(isothermal_gas_err_P1, P2, Pcf, args=(fd, rho, P2, L, D, m))
+                # Stay off the exactly choked point, where rounding can make `P2` "impossible"
+                return brenth(isothermal_gas_err_P1, P2, Pcf*(1.0 - 1e-9), args=(fd, rho, P2, L, D, m))
             except:
                 m_max = isothermal_gas(rho, fd, P1=Pcf, P2=P2, L=L, D=D)  # numba: delete
                 raise ValueError(f"The desired mass flow rate of {m:f} kg/s cannot " # numba: delete
-- 
2.43.0


From 5e2f6460c1de8917ad75914be3bd5269597882a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:12 +0000
Subject: [PATCH 004/115] fix: Colebrook numerical solution failed for Re
 around 2.9

Clamond is not valid below Re = 10, where its value was still used as the
initial guess whenever it could be computed, and the secant search diverged.
---
 fluids/friction.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fluids/friction.py b/fluids/friction.py
index c6fa5a6..29feebf 100644
--- a/fluids/friction.py
+++ b/fluids/friction.py
@@ -467,9 +467,10 @@ def Colebrook(Re: float, eD: float, tol: float | None=None) -> float:
     # Either user-specified tolerance, or an error in the analytical solution
     if tol is None:
         tol = 1e-12
-    try:
+    # Clamond's values are meaningless as a guess below a Reynolds number of 10
+    if Re > 10.0:
         fd_guess = Clamond(Re, eD)
-    except ValueError:
+    else:
         fd_guess = Blasius(Re)
     def err(x):
         # Convert the newton search domain to always positive
-- 
2.43.0


From 363ef96cf10e5a4d1a1f7d67b9afcdd871c91d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:44 +0000
Subject: [PATCH 005/115] fix: integrate_drag_sphere failed for very small
 particles with some methods

The ODE solver's trial velocities can be slightly negative, for which most
correlations raise a math domain error.
---
 fluids/drag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/drag.py b/fluids/drag.py
index 5d4ec18..1c0f13a 100644
--- a/fluids/drag.py
+++ b/fluids/drag.py
@@ -1587,7 +1587,8 @@ def integrate_drag_sphere(D: float, rhop: float, rho: float, mu: float, t: float
             t2 = 0.0
         else:
 #            t2 = c2*V*V*Stokes(Re_ish*V)
-            t2 = c2*V*V*drag_sphere(Re_ish*V, Method=Method)
+            # The solver's trial velocities can be slightly negative; drag opposes motion
+            t2 = c2*V*abs(V)*drag_sphere(Re_ish*abs(V), Method=Method)
         return c1 + t2
 
     # Number of intervals for the solution to be solved for; the integrator
-- 
2.43.0


From 6cb201755857686e0f2c6a8c9ff176400a9dd8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:28 +0000
Subject: [PATCH 006/115] fix: v_terminal failed for particles near the end of
 the drag correlations' range

The secant search could step to a negative velocity and raise a math domain
error; search within a bracket when the solution is near the upper limit.
---
 fluids/drag.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fluids/drag.py b/fluids/drag.py
index 1c0f13a..6e6a2b2 100644
--- a/fluids/drag.py
+++ b/fluids/drag.py
@@ -67,7 +67,7 @@ from math import exp, log, log10, sqrt, tanh
 
 from fluids.constants import g
 from fluids.core import Reynolds
-from fluids.numerics import cumulative_trapezoid, secant
+from fluids.numerics import brenth, cumulative_trapezoid, secant
 
 __all__: list[str] = [
     "Almedeij",
@@ -1371,6 +1371,11 @@ def v_terminal(D: float, rhop: float, rho: float, mu: float, Method: str | None=
 
     # Begin the solver with 1/100 th the velocity possible at the maximum
     # Reynolds number the correlation is good for
+    # Near the upper limit the secant search can step to a negative velocity;
+    # search between a tenth of the limit and the limit if the solution is there
+    if (_v_terminal_err(V_max*0.1, Method, Re_almost, main) < 0.0
+        and _v_terminal_err(V_max, Method, Re_almost, main) > 0.0):
+        return brenth(_v_terminal_err, V_max*0.1, V_max, xtol=1E-12, args=(Method, Re_almost, main))
     return secant(_v_terminal_err, V_max*1e-2, xtol=1E-12, args=(Method, Re_almost, main))
 
 
-- 
2.43.0


From cd5fb1b4ea5d7cffe1f7f38de4b66fa9672727cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 007/115] fix: bend_rounded with method Crane raised when a
 bend radius rc was given

---
 fluids/fittings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index 9b2247a..6802674 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -1532,7 +1532,7 @@ def bend_rounded(Di: float, angle: float, fd: float | None=None, rc: float | Non
                                    L_unimpeded=L_unimpeded)
     elif method == "Crane":
         return bend_rounded_Crane(Di=Di, angle=angle, rc=rc,
-                                  bend_diameters=bend_diameters2)
+                                  bend_diameters=bend_diameters)
     elif method == "Crane standard":
         return ft_Crane(Di)*interp(angle, crane_standard_bend_angles, crane_standard_bend_losses, extrapolate=True)
     elif method == "Ito":
-- 
2.43.0


From 16b2e6112068b0a945216ece4613359078fff6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:33 +0000
Subject: [PATCH 008/115] fix: diffuser_conical_Crane returned a negative loss
 coefficient when given a length

---
 fluids/fittings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index 6802674..0b8ccf6 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -2628,7 +2628,7 @@ def diffuser_conical_Crane(Di1, Di2, l=None, angle=None):
         angle_deg = angle
     elif l is not None:
         if l != 0.0:
-            angle_rad = 2.0*atan((Di1-Di2)/(2.0*l))
+            angle_rad = 2.0*atan((Di2-Di1)/(2.0*l))
             angle_deg = degrees(angle_rad)
         else:
             angle_rad = pi
-- 
2.43.0


From 81f0b6a4289f0157aa3be08b44cd103280081458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 009/115] fix: nozzle_expansibility ignored a specified beta at
 an isentropic exponent of 1

---
 fluids/flow_meter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fluids/flow_meter.py b/fluids/flow_meter.py
index 3893cab..edb42b0 100644
--- a/fluids/flow_meter.py
+++ b/fluids/flow_meter.py
@@ -1440,8 +1440,10 @@ def nozzle_expansibility(D: float, Do: float, P1: float, P2: float, k: float, be
         val= sqrt(term1*term2*term3)
         print(simplify(limit((term1*term2*term3), k, 1)))
         """
-        limit_val = (P1*P2**2*(-D**4 + Do**4)*log(P2/P1)/(D**4*P1**3
-                    - D**4*P1**2*P2 - Do**4*P1*P2**2 + Do**4*P2**3))
+        if tau == 1.0:
+            return 1.0
+        limit_val = (-tau*tau*log(tau)*(1.0 - beta4)
+                    /((1.0 - tau)*(1.0 - beta4*tau*tau)))
         return sqrt(limit_val)
 
     term1 = k*tau**(2.0/k)/(k - 1.0)
-- 
2.43.0


From df6bba31e8aefb38e5cbe50553d583eec063d54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:52 +0000
Subject: [PATCH 010/115] fix: secant with bisection returned a bisected trial
 point instead of the converged point

---
 fluids/numerics/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 6fc1589..aff14df 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2902,26 +2902,28 @@ def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0,
             p = high
 
         # After computing new point
+        bisected = False
         if bisection and a is not None and b is not None:
             if not (a < p < b) or (b < p < a):
                 # print('Bisecting')
                 p = 0.5*(a + b)
+                bisected = True
         # Check the exit conditions
         if ytol is not None and xtol is not None:
             # Meet both tolerance - new value is under ytol, and old value
             if abs(q1) < ytol and (not require_xtol or abs(p0 - p1) <= abs(xtol*p0)):
 #            if abs(p0 - p1) <= abs(xtol*p0) and abs(q1) < ytol:
-                if require_eval:
+                if require_eval or bisected:
                     return p1
                 return p
         elif xtol is not None:
             if abs(p0 - p1) <= abs(xtol*p0) and not (p0 == p1 and (p0 == low or p0 == high)):
-                if require_eval:
+                if require_eval or bisected:
                     return p1
                 return p
         elif ytol is not None:
             if abs(q1) < ytol:
-                if require_eval:
+                if require_eval or bisected:
                     return p1
                 return p
 
@@ -2936,13 +2938,13 @@ def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0,
             if ytol is not None and xtol is not None:
                 # Meet both tolerance - new value is under ytol, and old value
                 if abs(p0 - p1) <= abs(xtol * p0) and abs(q1) < ytol:
-                    return p
+                    return p1
             elif xtol is not None:
                 if abs(p0 - p1) <= abs(xtol * p0) and not (p0 == p1 and (p0 == low or p0 == high)):
-                    return p
+                    return p1
             elif ytol is not None:
                 if abs(q1) < ytol:
-                    return p
+                    return p1
             if bisection and a is not None and b is not None:
                 p = 0.5*(a + b)
             else:
-- 
2.43.0


From cb60268522a695f381f8ff6ac6cd757af4534fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 011/115] fix: size_control_valve_l raised NameError when the
 fittings iteration did not converge

---
 fluids/control_valve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index 5583536..3b87e21 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -742,9 +742,9 @@ def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: floa
                     C = Q/N1/FP*sqrt(rho/rho0/dP)
                 if Ci/C < 0.99 and iterations < MAX_ITER and Ci < MAX_C_POSSIBLE:
                     C = iterate_piping_turbulent_l(C, iterations+1)
-                if MAX_ITER == iterations or Ci >= MAX_C_POSSIBLE:
-                    ans["warning"] = "Not converged in inner loop"
                 if full_output:
+                    if MAX_ITER == iterations or Ci >= MAX_C_POSSIBLE:
+                        ans["warning"] = "Not converged in inner loop"
                     ans["FLP"] = FLP
                     ans["FP"] = FP
                 return C
-- 
2.43.0


From 7366bfa9cbaed45b8a2e6d8b5a3a50550790c7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 012/115] fix: control valve sizing ignored allow_choked=False
 when fittings are attached

---
 fluids/control_valve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index 3b87e21..61a79b3 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -734,7 +734,7 @@ def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: floa
 
                 FLP = FL*1.0/sqrt(1 + FL**2/N2*loss_upstream*(Ci/d**2)**2)
                 choked = is_choked_turbulent_l(dP, P1, Psat, FF, FLP=FLP, FP=FP)
-                if choked:
+                if choked and allow_choked:
                     # Choked flow with piping, equation 4
                     C = Q/N1/FLP*sqrt(rho/rho0/(P1-FF*Psat))
                 else:
@@ -931,7 +931,7 @@ def size_control_valve_g(T: float, MW: float, mu: float, gamma: float, Z: float,
                 loss_upstream = loss_coefficient_piping(d, D1)
                 xTP = xT/FP**2/(1 + xT*loss_upstream/N5*(Ci/d**2)**2)
                 choked = is_choked_turbulent_g(x, Fgamma, xTP=xTP)
-                if choked:
+                if choked and allow_choked:
                     # Choked flow with piping, equation 17a
                     C = Q/(N9*FP*P1*Y)*sqrt(MW*T*Z/xTP/Fgamma)
                 else:
-- 
2.43.0


From 08fa1f1f481f08f547ece37e3f0d1e7b9e08bf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:18 +0000
Subject: [PATCH 013/115] fix: API520_A_l raised TypeError when neither Kv nor
 mu was given

---
 fluids/safety_valve.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/fluids/safety_valve.py b/fluids/safety_valve.py
index 91c727a..02720ce 100644
--- a/fluids/safety_valve.py
+++ b/fluids/safety_valve.py
@@ -1078,12 +1078,14 @@ def API520_A_l(m, rho, P1, P2, overpressure, Kd=0.65, Kc=1.0,
     P_set = P_set_guage + atm
     if Kw is None:
         Kw = API520_W(P_set, P2)
-    if Kv is None and mu is not None:
-        A0 = API520_A_l(m=m, rho=rho, P1=P1, P2=P2, overpressure=overpressure, Kd=Kd, Kc=Kc, Kv=1.0, Kw=Kw)
-        D = sqrt(A0*4.0/pi)
-        v = (Q/60000.0)/A0
-        Re = rho*v*D/mu
-        Kv = API520_Kv(Re, edition)
+    if Kv is None:
+        Kv = 1.0
+        if mu is not None:
+            A0 = API520_A_l(m=m, rho=rho, P1=P1, P2=P2, overpressure=overpressure, Kd=Kd, Kc=Kc, Kv=1.0, Kw=Kw)
+            D = sqrt(A0*4.0/pi)
+            v = (Q/60000.0)/A0
+            Re = rho*v*D/mu
+            Kv = API520_Kv(Re, edition)
     P1 = P1*1e-3 # Pa to kPa
     P2 = P2*1e-3 # Pa to kPa
     A = 11.78*Q*sqrt(G1/(P1-P2))/(Kd*Kw*Kc*Kv)
-- 
2.43.0


From ca623429171278104ab16b727b3d8675b8a25a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 014/115] fix: Mandhane_Gregory_Aziz_regime normalised the gas
 viscosity with the wrong reference

---
 fluids/two_phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/two_phase.py b/fluids/two_phase.py
index 1d7c92c..a6732ab 100644
--- a/fluids/two_phase.py
+++ b/fluids/two_phase.py
@@ -3173,7 +3173,7 @@ def Mandhane_Gregory_Aziz_regime(m: float, x: float, rhol: float, rhog: float, m
     Vsl, Vsg = Vsl/0.3048, Vsg/0.3048
 #    X1 = (rhog/0.0808)**0.333 * (rhol*72.4/62.4/sigma)**0.25 * (mug/0.018)**0.2
 #    Y1 = (rhol*72.4/62.4/sigma)**0.25 * (mul/1.)**0.2
-    X1 = (rhog/1.294292)**0.333 * sqrt(sqrt(rhol*0.0724/(999.552*sigma))) * (mug*1.8E5)**0.2
+    X1 = (rhog/1.294292)**0.333 * sqrt(sqrt(rhol*0.0724/(999.552*sigma))) * (mug/1.8E-5)**0.2
     Y1 = sqrt(sqrt(rhol*0.0724/999.552/sigma)) * (mul*1E3)**0.2
 
     if Vsl < 14.0*Y1:
-- 
2.43.0


From 9927f0dab301f11f70ed77928a2cfaa7a5974030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 015/115] fix: Lockhart_Martinelli raised ZeroDivisionError for
 pure liquid (x = 0)

---
 fluids/two_phase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fluids/two_phase.py b/fluids/two_phase.py
index a6732ab..deaebea 100644
--- a/fluids/two_phase.py
+++ b/fluids/two_phase.py
@@ -2304,14 +2304,15 @@ def Lockhart_Martinelli(m: float, x: float, rhol: float, rhog: float, mul: float
     # Friction factor as in the original model
     x_only_liquid_tol = 1e-30
     x_only_vapor_tol = 1e-13
+    if x < x_only_liquid_tol:
+        fd_l =  64./Re_l if Re_l < Re_c else 0.184*Re_l**-0.2
+        return fd_l*L/D*(0.5*rhol*v_l*v_l)
     fd_g =  64./Re_g if Re_g < Re_c else 0.184*Re_g**-0.2
     dP_g = fd_g*L/D*(0.5*rhog*v_g**2)
     if x > 1.0 - x_only_vapor_tol:
         return dP_g
     fd_l =  64./Re_l if Re_l < Re_c else 0.184*Re_l**-0.2
     dP_l = fd_l*L/D*(0.5*rhol*v_l*v_l)
-    if x < x_only_liquid_tol:
-        return dP_l
 
     X = sqrt(dP_l/dP_g)
 
-- 
2.43.0


From ac04c59f02cc104fca0bde856e7d72f6c02f7960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 016/115] fix: size_tee used 1/33 instead of 1.33 in the
 one-stream mixing exponent

---
 fluids/mixing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/mixing.py b/fluids/mixing.py
index d5ab3f4..939bd0f 100644
--- a/fluids/mixing.py
+++ b/fluids/mixing.py
@@ -300,7 +300,7 @@ def size_tee(Q1: float, Q2: float, D: float, D2: float | None, n: int=1, pipe_di
         if B < 0.7:
             E = 1.33
         else:
-            E = 1/33. + 0.95*log(B/0.7)
+            E = 1.33 + 0.95*log(B/0.7)
     elif n == 2:
         if B < 0.8:
             E = 1.44
-- 
2.43.0


From b4892af13f308147f1ea31bfbca528e00472b6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:34 +0000
Subject: [PATCH 017/115] fix: liquid jet pump pressure ratio used (1 - Ks)
 where the documented equation has (1 + Ks)

---
 fluids/jet_pump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/jet_pump.py b/fluids/jet_pump.py
index a22c2e7..613ced5 100644
--- a/fluids/jet_pump.py
+++ b/fluids/jet_pump.py
@@ -220,7 +220,7 @@ def liquid_jet_pump_pressure_ratio(rhop, rhos, Km, Kd, Ks, Kp,
 
     den = (1.0 + Kp) - 2.0*R - 2.0*C*M2*R2/(1.0 - R)
     den += R2*(1.0 + C*M)*(1.0 + M)*(1.0 + Km + Kd + alpha2)
-    den += (1.0 - j)*(C*M2/((1.0 - R)/R)**2)*(1.0 - Ks)
+    den += (1.0 - j)*(C*M2/((1.0 - R)/R)**2)*(1.0 + Ks)
     N = num/den
     if P1 is None:
         P1 = (-P2 + P5*N + P5)/N
-- 
2.43.0


From abab9e7740df36b229a66f24b46d47428d738177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 018/115] fix: nearest_pipe skipped the pipe whose listed
 diameter was given

---
 fluids/piping.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fluids/piping.py b/fluids/piping.py
index 10a27f5..7c51d76 100644
--- a/fluids/piping.py
+++ b/fluids/piping.py
@@ -727,10 +727,12 @@ def nearest_pipe(Do: float | None=None, Di: float | None=None, NPS: int | None=N
     .. [11] F17 Committee. "Specification for High-Density Polyethylene (PE)
        Line Pipe." ASTM International. https://doi.org/10.1520/F2619_F2619M-20.
     """
+    # The converted diameter is reduced by much less than any size difference so
+    # that the rounding of the conversion cannot skip the size asked for
     if Di is not None:
-        Di *= 1E3
+        Di *= 1E3*(1.0 - 1e-13)
     if Do is not None:
-        Do *= 1E3
+        Do *= 1E3*(1.0 - 1e-13)
 
     # If accidentally given an numerical schedule, convert it to a string
     if isinstance(schedule, (int, float)):
-- 
2.43.0


From 1e163962aa0682e4b25a83fc7b22abeb35968738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:53 +0000
Subject: [PATCH 019/115] fix: liquid_jet_pump_ancillary failed or returned a
 negative d_mixing for many feasible states

---
 fluids/jet_pump.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fluids/jet_pump.py b/fluids/jet_pump.py
index 613ced5..77df1b2 100644
--- a/fluids/jet_pump.py
+++ b/fluids/jet_pump.py
@@ -91,7 +91,8 @@ def liquid_jet_pump_ancillary(rhop: float, rhos: float, Kp: float, Ks: float, d_
 
     For `P`, `P2`, `Qs`, and `Qp`, the equation can be rearranged explicitly
     for them. For `d_mixing` and `d_nozzle`, a bounded solver is used searching
-    between 1E-9 m and 20 times the other diameter which was specified.
+    between 1E-9 m (for `d_nozzle`) or `d_nozzle` (for `d_mixing`) and 20 times
+    the other diameter which was specified.
 
     Parameters
     ----------
@@ -190,7 +191,7 @@ def liquid_jet_pump_ancillary(rhop: float, rhos: float, Kp: float, Ks: float, d_
             return P1 - liquid_jet_pump_ancillary(rhop=rhop, rhos=rhos, Kp=Kp, Ks=Ks, d_nozzle=d_nozzle, d_mixing=d_mixing, Qp=Qp, Qs=Qs,
                               P1=None, P2=P2)
         try:
-            return brenth(err, 1E-9, d_nozzle*20)
+            return brenth(err, d_nozzle*(1.0 + 1e-9), d_nozzle*20)
         except:
             return secant(err, d_nozzle*2)
     else:
-- 
2.43.0


From 3ecf32ab4343f9091dcd65d0d4e7aeb3eb77feaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 020/115] fix: circle_segment_h_from_A returned about the
 radius for segments larger than half the circle

---
 fluids/geometry.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index d88f3dd..79dbb14 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1876,8 +1876,16 @@ def circle_segment_h_from_A(A: float, D: float) -> float:
     if A == 0.0:
         return 0.0
     R = 0.5*D
-    return newton(circle_segment_area_inner, x0=0.25*R, fprime=True, high=R, low=0.0,
-                  args=(R, A), xtol=1e-12, bisection=True)
+    A_full = pi*R*R
+    if A >= A_full:
+        return D
+    # Solve for the smaller of the two segments the chord creates
+    over_half = A > 0.5*A_full
+    if over_half:
+        A = A_full - A
+    h = newton(circle_segment_area_inner, x0=0.25*R, fprime=True, high=R, low=0.0,
+               args=(R, A), xtol=1e-12, bisection=True)
+    return D - h if over_half else h
 
 
 def SA_partial_horiz_conical_head(D: float, a: float, h: float) -> float:
-- 
2.43.0


From f6dd29f9a03db7dbc71bd497a1aa90bab341bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 021/115] fix: SA_partial_horiz_spherical_head ignored the h
 limits for a hemispherical head

---
 fluids/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 79dbb14..34ca2a4 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1994,13 +1994,13 @@ def SA_partial_horiz_spherical_head(D: float, a: float, h: float) -> float:
     .. [1] Jones, D. "Calculating Tank Wetted Area." Text. Chemical Processing.
        April 2017. https://www.chemicalprocessing.com/assets/Uploads/calculating-tank-wetted-area.pdf
     """
-    R = 0.5*D
-    if a == R:
-        return pi*R*h
-    elif h < 0.0:
+    if h < 0.0:
         return 0.0
     elif h > D:
         h = D
+    R = 0.5*D
+    if a == R:
+        return pi*R*h
 
     fact = (a*a + R*R)/abs(a)
     R2 = R*R
-- 
2.43.0


From 2a4f8cdbd2e498b88f5537f93cbe5a79ffa8eaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 022/115] fix: AirCooledExchanger rejected pitch_ratio unless
 pitch was also given

---
 fluids/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 34ca2a4..ecc3a0d 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4959,7 +4959,7 @@ class AirCooledExchanger:
         self.fan_diameter = fan_diameter
 
         if pitch_ratio is not None:
-            if pitch is not None:
+            if pitch is None:
                 pitch = self.tube_diameter*pitch_ratio
             else:
                 raise ValueError("Specify only one of `pitch_ratio` or `pitch`")
-- 
2.43.0


From 27ec8854b290ab04665d83888e4b8789813f6a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:03 +0000
Subject: [PATCH 023/115] fix: TANK.from_two_specs returned a tank missing its
 specifications when the solver failed

---
 fluids/geometry.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index ecc3a0d..0c88f7a 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -132,7 +132,7 @@ from __future__ import annotations
 from cmath import sqrt as csqrt
 from math import acos, acosh, asin, atan, cos, degrees, isclose, log, log1p, pi, radians, sin, sqrt, tan
 
-from fluids.numerics import cacos, catan, chebval, derivative, ellipe, ellipeinc, ellipkinc, linspace, newton, quad, secant, translate_bound_func
+from fluids.numerics import UnconvergedError, cacos, catan, chebval, derivative, ellipe, ellipeinc, ellipkinc, linspace, newton, quad, secant, translate_bound_func
 
 __all__: list[str] = [
     "TANK",
@@ -3606,6 +3606,11 @@ class TANK:
         ans = fsolve(new_f, guess, args=args, xtol=1e-10, factor=.1)
         val0, val1 = translate_outof(ans)
 
+        # fsolve only warns when it makes no progress; do not return a tank which misses its specifications
+        errs = tank_from_two_specs_err([val0, val1], *args)
+        if abs(errs[0]) > 1e-5*abs(spec0) or abs(errs[1]) > 1e-5*abs(spec1):
+            raise UnconvergedError("Could not find a tank with the specified values", point=[val0, val1], err=errs)
+
         return TANK(D=float(val0), L_over_D=float(val1), horizontal=horizontal,
                     sideA=sideA, sideB=sideB, sideA_a=sideA_a, sideB_a=sideB_a,
                     sideA_f=sideA_f, sideA_k=sideA_k, sideB_f=sideB_f, sideB_k=sideB_k,
-- 
2.43.0


From a82bc5fbba4814b1f08cfa12dc2a0bccddb848a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:00 +0000
Subject: [PATCH 024/115] fix: TANK.h_from_V(method='brenth') failed for nearly
 empty and exactly full vertical tanks

---
 fluids/geometry.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 0c88f7a..281558f 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -132,7 +132,7 @@ from __future__ import annotations
 from cmath import sqrt as csqrt
 from math import acos, acosh, asin, atan, cos, degrees, isclose, log, log1p, pi, radians, sin, sqrt, tan
 
-from fluids.numerics import UnconvergedError, cacos, catan, chebval, derivative, ellipe, ellipeinc, ellipkinc, linspace, newton, quad, secant, translate_bound_func
+from fluids.numerics import UnconvergedError, brenth, cacos, catan, chebval, derivative, ellipe, ellipeinc, ellipkinc, linspace, newton, quad, secant, translate_bound_func
 
 __all__: list[str] = [
     "TANK",
@@ -3769,7 +3769,11 @@ class TANK:
             return self.h_from_V_cheb(V)
         elif method == "brenth":
             to_solve = lambda h : self.V_from_h(h, method="full") - V
-            return secant(to_solve, x0=0.5*self.h_max, low=0, high=self.h_max, bisection=True)
+            err_full = to_solve(self.h_max)
+            if abs(err_full) < 1e-13*self.V_total:
+                # Full tank; rounding can leave no sign change to find
+                return self.h_max
+            return brenth(to_solve, 0.0, self.h_max, fb=err_full)
         else:
             raise ValueError("Allowable methods are 'full' or 'chebyshev', "
                             "or 'brenth'.")
-- 
2.43.0


From 25459162b2f7defa6a0a1d8419db75c77681cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:51 +0000
Subject: [PATCH 025/115] fix: SA_ellipsoidal_head lost all precision when the
 depth was nearly but not exactly D/2

---
 fluids/geometry.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 281558f..d44fac9 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -130,7 +130,7 @@ Pellet Properties
 from __future__ import annotations
 
 from cmath import sqrt as csqrt
-from math import acos, acosh, asin, atan, cos, degrees, isclose, log, log1p, pi, radians, sin, sqrt, tan
+from math import acos, acosh, asin, atan, atan2, cos, degrees, isclose, log, log1p, pi, radians, sin, sqrt, tan
 
 from fluids.numerics import UnconvergedError, brenth, cacos, catan, chebval, derivative, ellipe, ellipeinc, ellipkinc, linspace, newton, quad, secant, translate_bound_func
 
@@ -1316,7 +1316,7 @@ def SA_ellipsoidal_head(D: float, a: float) -> float:
     R = 0.5*D
     if a < R:
         R, a = min((R, a)), max((R, a))
-        e1 = sqrt(1.0 - R*R/(a*a))
+        e1 = sqrt((a - R)*(a + R))/a
 
         if e1 != 1.0:
             log_term = log1p(e1) - log1p(-e1)
@@ -1327,7 +1327,9 @@ def SA_ellipsoidal_head(D: float, a: float) -> float:
 
         return (2.0*pi*a*a + pi*R*R/e1*log_term)*0.5
     else:
-        return pi*R*R + pi*a*a*R*1.0/sqrt(a*a - R*R)*acos(R/abs(a))
+        # Factored so that nothing cancels when `a` is nearly `R`
+        x1 = sqrt((a - R)*(a + R))
+        return pi*R*R + pi*a*a*R/x1*atan2(x1, R)
 
 
 def SA_conical_head(D: float, a: float) -> float:
-- 
2.43.0


From a58691d416e5c5bc6553f1778f034b8a6d7beb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 026/115] fix: truncated particle size distributions in another
 order are normalised

pdf() and cdf() of a truncated distribution, asked for in an order other
than its own, applied the truncation limits of the original order to the
converted distribution (cdf above 1, pdf not integrating to 1).
---
 fluids/particle_size_distribution.py | 29 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index cdd0d91..f178960 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -1307,14 +1307,15 @@ class ParticleSizeDistributionContinuous:
         if n is not None and n != self.order:
             power = n - self.order
             numerator = d**power*ans
-            denominator = self._pdf_basis_integral_definite(d_min=0.0, d_max=self.d_excessive, n=power)
+            d_low = self.d_min if self.truncated else 0.0
+            denominator = self._pdf_basis_integral_definite(d_min=d_low, d_max=self.d_excessive, n=power)
             ans = numerator/denominator
+        elif self.truncated:
+            ans = (ans)/(self._cdf_d_max - self._cdf_d_min)
         # Handle splines which might go below zero
         ans = max(ans, 0.0)
-        if self.truncated:
-            if d < self.d_min or d > self.d_max:
-                return 0.0
-            ans = (ans)/(self._cdf_d_max - self._cdf_d_min)
+        if self.truncated and (d < self.d_min or d > self.d_max):
+            return 0.0
         return ans
 
     def cdf(self, d: float, n: float | None=None) -> float:
@@ -1352,22 +1353,24 @@ class ParticleSizeDistributionContinuous:
         >>> [psd.cdf(5e-6, n) for n in range(4)]
         [0.933192798731, 0.8413447460685, 0.6914624612740, 0.5]
         """
+        if self.truncated:
+            if d <= self.d_min:
+                return 0.0
+            elif d >= self.d_max:
+                return 1.0
         if n is not None and n != self.order:
             power = n - self.order
+            d_low = self.d_min if self.truncated else 0.0
             # One of the pdf_basis_integral calls could be saved except for
             # support for numerical integrals
-            numerator = self._pdf_basis_integral_definite(d_min=0.0, d_max=d, n=power)
-            denominator = self._pdf_basis_integral_definite(d_min=0.0, d_max=self.d_excessive, n=power)
+            numerator = self._pdf_basis_integral_definite(d_min=d_low, d_max=d, n=power)
+            denominator = self._pdf_basis_integral_definite(d_min=d_low, d_max=self.d_excessive, n=power)
             ans =  max(numerator/denominator, 0.0)
         # Handle splines which might go below zero
         else:
             ans = max(self._cdf(d=d), 0.0)
-        if self.truncated:
-            if d <= self.d_min:
-                return 0.0
-            elif d >= self.d_max:
-                return 1.0
-            ans = (ans - self._cdf_d_min)/(self._cdf_d_max - self._cdf_d_min)
+            if self.truncated:
+                ans = (ans - self._cdf_d_min)/(self._cdf_d_max - self._cdf_d_min)
         return ans
 
     def delta_cdf(self, d_min, d_max, n=None):
-- 
2.43.0


From 6a52d753ad4a2b8787bca750188d33de0028146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 027/115] fix: particle size cdf in another order stays at 1
 above the largest diameter

The order conversion integrals were evaluated beyond the diameter at which
the distribution ends (the largest bin, or the GGS characteristic
diameter), so the converted cdf did not end at 1.
---
 fluids/particle_size_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index f178960..08f523b 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -1363,7 +1363,7 @@ class ParticleSizeDistributionContinuous:
             d_low = self.d_min if self.truncated else 0.0
             # One of the pdf_basis_integral calls could be saved except for
             # support for numerical integrals
-            numerator = self._pdf_basis_integral_definite(d_min=d_low, d_max=d, n=power)
+            numerator = self._pdf_basis_integral_definite(d_min=d_low, d_max=min(d, self.d_excessive), n=power)
             denominator = self._pdf_basis_integral_definite(d_min=d_low, d_max=self.d_excessive, n=power)
             ans =  max(numerator/denominator, 0.0)
         # Handle splines which might go below zero
-- 
2.43.0


From 00ac0396e25a98b533606b9bad8353860d0884c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 028/115] fix: PSDGatesGaudinSchuhman order conversions and
 d_max

The order conversion integral divided by zero at the zero diameter it is
always evaluated at for a lower order; specifying d_max raised AttributeError;
and with d_max above the characteristic diameter the integral ran on past
the characteristic diameter, where the pdf is zero.
---
 fluids/particle_size_distribution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 08f523b..5296204 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -912,6 +912,10 @@ def pdf_Gates_Gaudin_Schuhman_basis_integral(d: float, d_characteristic: float,
     >>> pdf_Gates_Gaudin_Schuhman_basis_integral(d=2E-4, d_characteristic=1E-3, m=2.3, n=-3)
     -10136984887.543015
     """
+    if d > d_characteristic:
+        d = d_characteristic # the pdf is zero above this
+    if d == 0.0:
+        return 0.0
     return m/(m+n)*d**n*(d/d_characteristic)**m
 
 
@@ -2135,7 +2139,7 @@ class PSDGatesGaudinSchuhman(ParticleSizeDistributionContinuous):
 
         if d_max is not None:
             # PDF above this is zero
-            self.d_excessive = self.d_max
+            self.d_excessive = d_max
         else:
             self.d_excessive = self.d_characteristic
         if d_min is not None:
-- 
2.43.0


From f88784b0ef4cd27c1fe15a66a34a36c871af3ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 029/115] fix: PSDInterpolated has no particles outside its
 diameters

The splines were extrapolated, giving a nonzero cdf below the lowest size
class boundary and a nonzero pdf outside the specified diameters.
---
 fluids/particle_size_distribution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 5296204..cf51f34 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2338,12 +2338,16 @@ class PSDInterpolated(ParticleSizeDistributionContinuous):
 
 
     def _pdf(self, d: float) -> float:
+        if d < self.ds[0] or d > self.d_excessive:
+            return 0.0
         return max(0.0, float(self.pdf_spline(d)))
 
     def _cdf(self, d: float) -> float:
         if d > self.d_excessive:
             # Handle spline values past 1 that decrease to zero
             return 1.0
+        if d < self.ds[0]:
+            return 0.0
         return max(0.0, float(self.cdf_spline(d)))
 
     def _pdf_basis_integral(self, d: float, n: float) -> float:
-- 
2.43.0


From c32f9a077607a54ae408acd10d177ac2e1e3df72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 030/115] fix: PSDInterpolated order conversions depended on
 earlier calls

The integrals were cached under int(n), so the perturbed orders used by
mean_size(p, p) overwrote the integral of a different order.
---
 fluids/particle_size_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index cf51f34..2ee0ec1 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2334,7 +2334,7 @@ class PSDInterpolated(ParticleSizeDistributionContinuous):
             self.cdf_spline = PchipInterpolator(ds, self.fraction_cdf, extrapolate=True)
             self.pdf_spline = PchipInterpolator(ds, self.fraction_cdf, extrapolate=True).derivative(1)
 
-        self.basis_integrals: dict[int, Callable[[float], float]] = {}
+        self.basis_integrals: dict[float, Callable[[float], float]] = {}
 
 
     def _pdf(self, d: float) -> float:
@@ -2362,6 +2362,6 @@ class PSDInterpolated(ParticleSizeDistributionContinuous):
             basis_integral = ds**float(n)*pdf_vals
             if self.monotonic:
                 from scipy.interpolate import PchipInterpolator
-                self.basis_integrals[int(n)] = PchipInterpolator(ds, basis_integral, extrapolate=True).antiderivative(1)
-        return max(float(self.basis_integrals[int(n)](d)), 0.0)
+                self.basis_integrals[n] = PchipInterpolator(ds, basis_integral, extrapolate=True).antiderivative(1)
+        return max(float(self.basis_integrals[n](d)), 0.0)
 
-- 
2.43.0


From 5805118fc62c3efdc2c1715d8465ec94a3bbceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 031/115] fix: di_power of a size class with a power of -1

The general formula is 0/0 there; its limit is the logarithmic mean.
---
 fluids/particle_size_distribution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 2ee0ec1..54f0723 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2004,6 +2004,8 @@ class ParticleSizeDistribution(ParticleSizeDistributionContinuous):
         """
         if self.size_classes:
             rt = power + 1
+            if rt == 0:
+                return log(self.ds[i+1]/self.ds[i])/(self.ds[i+1] - self.ds[i])
             return ((self.ds[i+1]**rt - self.ds[i]**rt)/((self.ds[i+1] - self.ds[i])*rt))
         else:
             return self.ds[i]**power
-- 
2.43.0


From 0bab89ddf0574044a5332f3a0320d46ee4f08a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 032/115] fix: discrete cdf input keeps the fraction at the
 first diameter

With as many diameters as cdf values the first cdf value was dropped, so
the fractions did not sum to the final cdf value.
---
 fluids/particle_size_distribution.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 54f0723..9fcab7f 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -1857,11 +1857,7 @@ class ParticleSizeDistribution(ParticleSizeDistributionContinuous):
 
         if cdf:
             # Convert a cdf to fraction set
-            if len(fractions)+1 == len(ds):
-                fractions = [fractions[0]] + diff(fractions)
-            else:
-                fractions_diff = diff(fractions)
-                fractions = [0.0] + fractions_diff
+            fractions = [fractions[0]] + diff(fractions)
         elif sum(fractions) != 1.0:
             # Normalize flow inputs
             tot_inv = 1.0/sum(fractions)
-- 
2.43.0


From c250a95626d903483086600691530bcc508b2d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:36 +0000
Subject: [PATCH 033/115] fix: PSDCustom moment integrals used an absolute
 tolerance

The integrals of d^n*pdf are far below quad's default absolute tolerance
for particle diameters in meters, so mean sizes and order conversions
were wrong by several percent.
---
 fluids/particle_size_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 9fcab7f..343a807 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -2295,7 +2295,7 @@ class PSDCustom(ParticleSizeDistributionContinuous):
 
         # points = logspace(log10(max(d_max*1e-3, d_min)), log10(d_max*.999), 40)
         points = [d_max*1e-3] # d_min*.999 d_min
-        return float(quad(to_int, d_min, d_max, points=points, epsrel=1e-11)[0])
+        return float(quad(to_int, d_min, d_max, points=points, epsabs=0.0, epsrel=1e-11)[0])
 
 
 class PSDInterpolated(ParticleSizeDistributionContinuous):
-- 
2.43.0


From 372b2a824960f2e6ca78499df89776a8b1fb8829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:34 +0000
Subject: [PATCH 034/115] fix: Rosin-Rammler order conversion integral loses
 precision or overflows

The prefactor reduces to k**(-n/m); evaluated in its original form at the
1e-40 lower limit it under- or overflowed for exponents m above about 4.
---
 fluids/particle_size_distribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 343a807..99c5f75 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -1051,7 +1051,8 @@ def pdf_Rosin_Rammler_basis_integral(d: float, k: float, m: float, n: float) ->
         a = (m + n)/m
         x = d**m*k
         t1 = float(gamma(a))*float(gammaincc(a, x))
-        return (-d**(m+n)*k*(d**m*k)**(-a))*t1
+        # -d**(m+n)*k*(d**m*k)**(-a) simplified, which does not under or overflow
+        return -k**(-n/m)*t1
     except (OverflowError, ZeroDivisionError) as e:
         if d == 1E-40:
             raise e
-- 
2.43.0


From 948d7547279259633ebe67d55401e6bf58a64457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:49 +0000
Subject: [PATCH 035/115] fix: sunrise_sunset failed for any time zone that is
 not from pytz

---
 fluids/atmosphere.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/atmosphere.py b/fluids/atmosphere.py
index dc8e3f7..2ab0287 100644
--- a/fluids/atmosphere.py
+++ b/fluids/atmosphere.py
@@ -874,9 +874,9 @@ def sunrise_sunset(moment: datetime.datetime, latitude: float, longitude: float)
     sunset = datetime.datetime.fromtimestamp(sunset, datetime.timezone.utc).replace(tzinfo=None)
 
     if moment.tzinfo is not None:
-        sunrise = moment.tzinfo.fromutc(sunrise)
-        sunset = moment.tzinfo.fromutc(sunset)
-        transit = moment.tzinfo.fromutc(transit)
+        sunrise = sunrise.replace(tzinfo=datetime.timezone.utc).astimezone(moment.tzinfo)
+        sunset = sunset.replace(tzinfo=datetime.timezone.utc).astimezone(moment.tzinfo)
+        transit = transit.replace(tzinfo=datetime.timezone.utc).astimezone(moment.tzinfo)
     return sunrise, sunset, transit
 
 
-- 
2.43.0


From 8e1d9475d6ed15b12a4e36aa08c0c79afd1cee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:25 +0000
Subject: [PATCH 036/115] fix: solar irradiation of a surface facing the sun
 could raise a math domain error

---
 fluids/optional/irradiance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/optional/irradiance.py b/fluids/optional/irradiance.py
index 89bedb1..999bfeb 100644
--- a/fluids/optional/irradiance.py
+++ b/fluids/optional/irradiance.py
@@ -60,7 +60,8 @@ def aoi_projection(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth):
 def aoi(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth):
     projection = aoi_projection(surface_tilt, surface_azimuth,
                                 solar_zenith, solar_azimuth)
-    aoi_value = degrees(acos(projection))
+    # rounding can put the projection just outside of the domain of acos
+    aoi_value = degrees(acos(max(-1.0, min(1.0, projection))))
     return aoi_value
 
 def poa_components(aoi, dni, poa_sky_diffuse, poa_ground_diffuse):
-- 
2.43.0


From 01a8f22af9c4da33aa8231671410c4dc8b71f7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:59 +0000
Subject: [PATCH 037/115] fix: best_bounding_bounds compared the positive
 history instead of the negative one when improving the upper bound

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index aff14df..f84252e 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2631,7 +2631,7 @@ def best_bounding_bounds(low, high, f=None, xs_pos=None, ys_pos=None,
             if y_min_neg > fa:
                 fa, low = y_min_neg, x_min_neg
         else:
-            if y_min_pos > fb:
+            if y_min_neg > fb:
                 fb, high = y_min_neg, x_min_neg
 
     if fa*fb > 0:
-- 
2.43.0


From 32173b43af7fa50ef787fa951d1084043719753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:27 +0000
Subject: [PATCH 038/115] fix: brenth and bisect lost the bracket when products
 of small function values underflowed

---
 fluids/numerics/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index f84252e..b893e03 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2643,7 +2643,7 @@ def bisect(f, a, b, args=(), xtol=1e-12, rtol=2.220446049250313e-16, maxiter=100
     """Port of SciPy's C bisect routine."""
     fa = f(a, *args)
     fb = f(b, *args)
-    if fa*fb > 0.0:
+    if (fa > 0.0 and fb > 0.0) or (fa < 0.0 and fb < 0.0):
         raise ValueError("f(a) and f(b) must have different signs")
     elif fa == 0.0:
         return a
@@ -2657,7 +2657,7 @@ def bisect(f, a, b, args=(), xtol=1e-12, rtol=2.220446049250313e-16, maxiter=100
         dm *= 0.5
         xm = a + dm
         fm = f(xm, *args)
-        if fm*fa >= 0.0:
+        if fm == 0.0 or (fm > 0.0 and fa > 0.0) or (fm < 0.0 and fa < 0.0):
             a = xm
         abs_dm = fabs(dm)
 
@@ -2733,7 +2733,8 @@ def brenth(f, xa, xb, args=(),
     else:
         fcur = fb
 
-    if fpre*fcur > 0.0 or isnan(fpre) or isnan(fcur):
+    # compare signs; the product of two small values underflows
+    if (fpre > 0.0 and fcur > 0.0) or (fpre < 0.0 and fcur < 0.0) or isnan(fpre) or isnan(fcur):
         raise NotBoundedError("f(a) and f(b) must have different signs")
     elif fpre == 0.0:
         return xa
@@ -2741,7 +2742,7 @@ def brenth(f, xa, xb, args=(),
         return xb
 
     for i in range(maxiter):
-        if fpre*fcur < 0.0:
+        if (fpre < 0.0 and fcur > 0.0) or (fpre > 0.0 and fcur < 0.0):
             xblk = xpre
             fblk = fpre
             spre = scur = xcur - xpre
-- 
2.43.0


From 5a73d174767e4ad4998f5777f392d7b3d8c2c77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:27 +0000
Subject: [PATCH 039/115] fix: newton and halley returned a bound as the root
 when the iteration was stuck against it

---
 fluids/numerics/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index b893e03..1bc1ecd 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3307,6 +3307,7 @@ def newton(func, x0, fprime=None, args=(), maxiter=100,
 #                    if p > b:
 #                        p = 0.5*(a + b)
 
+        p_free = p # the step before it is limited to the bounds
         if low is not None and p < low:
             hit_low += 1
             if p0 == low and hit_low > max_bound_hits:
@@ -3330,13 +3331,13 @@ def newton(func, x0, fprime=None, args=(), maxiter=100,
         if ytol is not None and xtol is not None:
             # Meet both tolerance - new value is under ytol, and old value
             ytol_met = abs(fval) <= ytol
-            xtol_met = abs(p - p0) <= abs(xtol*p) # Has to be less or equal to for the case of zero!
+            xtol_met = abs(p_free - p0) <= abs(xtol*p) # Has to be less or equal to for the case of zero!
             if (xtol_met and ytol_met) or (not require_xtol and ytol_met):
                 if require_eval:
                     return p0
                 return p
         elif xtol is not None:
-            if abs(p - p0) < abs(xtol*p):
+            if abs(p_free - p0) < abs(xtol*p):
                 if require_eval:
                     return p0
                 return p
@@ -3402,10 +3403,11 @@ def halley(func, x0, args=(), maxiter=100,
             if (not (a < p < b) and not (b < p < a)):
                 p = 0.5*(a + b)
 
+        p_free = p # the step before it is limited to the bounds
         if low is not None and p < low:
             hit_low += 1
             if p0 == low and hit_low > max_bound_hits:
-                if abs(fval) < ytol:
+                if ytol is not None and abs(fval) < ytol:
                     return low
                 else:
                     raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={p:f} ")
@@ -3414,7 +3416,7 @@ def halley(func, x0, args=(), maxiter=100,
         if high is not None and p > high:
             hit_high += 1
             if p0 == high and hit_high > max_bound_hits:
-                if abs(fval) < ytol:
+                if ytol is not None and abs(fval) < ytol:
                     return high
                 else:
                     raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={p:f} ")
@@ -3427,12 +3429,12 @@ def halley(func, x0, args=(), maxiter=100,
         if not skipped_halley:
             if ytol is not None and xtol is not None:
                 # Meet both tolerance - new value is under ytol, and old value
-                if abs(p - p0) < abs(xtol*p) and abs(fval) < ytol:
+                if abs(p_free - p0) < abs(xtol*p) and abs(fval) < ytol:
                     if require_eval:
                         return p0
                     return p
             elif xtol is not None:
-                if abs(p - p0) < abs(xtol*p):
+                if abs(p_free - p0) < abs(xtol*p):
                     if require_eval:
                         return p0
                     return p
-- 
2.43.0


From fcc5841579aefa0501e6d70fddb205e2f6315f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:27 +0000
Subject: [PATCH 040/115] fix: halley did not pass kwargs to the function

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 1bc1ecd..e958d75 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3367,7 +3367,7 @@ def halley(func, x0, args=(), maxiter=100,
     hit_low, hit_high = 0, 0
 
     for it in range(maxiter):
-        fval, fder, fder2 = func(p0, *args)
+        fval, fder, fder2 = func(p0, *args, **kwargs)
         if fval == 0.0:
             return p0 # Cannot continue or already finished
         elif fder == 0.0:
-- 
2.43.0


From c33e49418539a942d32f9183238c9ea64912fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:27 +0000
Subject: [PATCH 041/115] fix: halley returned a point with zero derivative as
 the root when no ytol was given

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index e958d75..87a5df3 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3371,7 +3371,7 @@ def halley(func, x0, args=(), maxiter=100,
         if fval == 0.0:
             return p0 # Cannot continue or already finished
         elif fder == 0.0:
-            if ytol is None or abs(fval) < ytol:
+            if ytol is not None and abs(fval) < ytol:
                 return p0
             else:
                 raise UnconvergedError(f"Derivative became zero; maxiter ({maxiter}) reached, value={p0:f} ")
-- 
2.43.0


From 406dc8e2fe2f8b87d50e88d1dca3cacb91a2200a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:29 +0000
Subject: [PATCH 042/115] fix: ridder left the bracket when it was narrower
 than the tolerance

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 87a5df3..74df8de 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2692,7 +2692,7 @@ def ridder(f, a, b, args=(), xtol=_xtol, rtol=_rtol, maxiter=_iter,
         fm = f(xm, *args)
         dn = copysign(1.0/sqrt(fm*fm - fa*fb), fb - fa)*fm*dm
 
-        dn_abs, dm_abs_tol = fabs(dn), fabs(dm) - 0.5*tol
+        dn_abs, dm_abs_tol = fabs(dn), max(fabs(dm) - 0.5*tol, 0.0)
         xn = xm - copysign((min(dm_abs_tol, dn_abs)), dn)
         fn = f(xn, *args)
 
-- 
2.43.0


From 9b0b2005ec8eeff694dd67ad60d5ec1c9005ae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:38 +0000
Subject: [PATCH 043/115] fix: secant additional guesses could continue from a
 point outside the bounds

---
 fluids/numerics/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 74df8de..8741a89 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2961,6 +2961,11 @@ def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0,
                         if not (isnan(q1) or isinf(q1)) and temp_q*q0 < 0.0:
                             # print('Bisected the problem, restarting with new point')
                             break
+                    # The last guess may have been skipped for being out of bounds
+                    if low is not None and p < low:
+                        p = low
+                    if high is not None and p > high:
+                        p = high
 
                     did_additional_guesses = True
                 else:
-- 
2.43.0


From 561bd5e9635d47258f4cb32921ad839fe1c21b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:28 +0000
Subject: [PATCH 044/115] fix: secant returned the last additional guess as the
 root of a function flat everywhere it looked

---
 fluids/numerics/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 8741a89..b637e9d 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2966,6 +2966,9 @@ def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0,
                         p = low
                     if high is not None and p > high:
                         p = high
+                    if p == p1:
+                        # No new point was found
+                        raise SamePointError("Convergence failed - previous points are the same", q1=q1, p1=p1, q0=q0, p0=p0)
 
                     did_additional_guesses = True
                 else:
-- 
2.43.0


From 5f702801110ed73f4c06b5d7cc6a9bedd5b18cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:48 +0000
Subject: [PATCH 045/115] fix: ridder lost the bracket when products of small
 function values underflowed

---
 fluids/numerics/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index b637e9d..cc4c982 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2679,7 +2679,8 @@ def ridder(f, a, b, args=(), xtol=_xtol, rtol=_rtol, maxiter=_iter,
 
     fa = f(a, *args)
     fb = f(b, *args)
-    if fa*fb > 0.0:
+    # compare signs; the product of two small values underflows
+    if (fa > 0.0 and fb > 0.0) or (fa < 0.0 and fb < 0.0):
         raise ValueError("f(a) and f(b) must have different signs")
     elif fa == 0.0:
         return a
@@ -2696,12 +2697,12 @@ def ridder(f, a, b, args=(), xtol=_xtol, rtol=_rtol, maxiter=_iter,
         xn = xm - copysign((min(dm_abs_tol, dn_abs)), dn)
         fn = f(xn, *args)
 
-        if (fn*fm < 0.0):
+        if (fn < 0.0 and fm > 0.0) or (fn > 0.0 and fm < 0.0):
             a = xn
             fa = fn
             b = xm
             fb = fm
-        elif (fn*fa < 0.0):
+        elif (fn < 0.0 and fa > 0.0) or (fn > 0.0 and fa < 0.0):
             b = xn
             fb = fn
         else:
-- 
2.43.0


From 822a1ce10aff1a8f5bef6aa31d405009d5680185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:13 +0000
Subject: [PATCH 046/115] fix: ridder tolerance became smaller, or negative,
 for negative roots

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index cc4c982..79e574a 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2708,7 +2708,7 @@ def ridder(f, a, b, args=(), xtol=_xtol, rtol=_rtol, maxiter=_iter,
         else:
             a = xn
             fa = fn
-        tol = xtol + rtol*xn
+        tol = xtol + rtol*fabs(xn)
         if (fn == 0.0 or fabs(b - a) < tol):
             return xn
     raise UnconvergedError(f"Failed to converge after {maxiter} iterations") # numba: delete
-- 
2.43.0


From 52f3ef31dee569bf17aa1c10b543d53309c1dab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:13 +0000
Subject: [PATCH 047/115] fix: newton raised TypeError when looking for a
 bracket with too little history

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 79e574a..a372cc7 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3230,7 +3230,7 @@ def newton(func, x0, fprime=None, args=(), maxiter=100,
                 points = secant_bisection_factors
                 reinitializing = True
                 did_additional_guesses = True
-                require_bracket = fval == fval0 and bisection# The derivative led us astray, try the other way
+                require_bracket = fval == fval0 and bisection and fval1 is not None# The derivative led us astray, try the other way
             else:
                 points = line_search_factors
                 reinitializing = False
-- 
2.43.0


From 6d42bc7b52183f68e6db836312b1f7063b54fecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 048/115] fix: secant additional guesses were all zero when
 starting from zero

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index a372cc7..8215271 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2954,7 +2954,7 @@ def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0,
                 if additional_guesses and not did_additional_guesses:
                     # print('Converged to points with a slope of zero, attempting to bisect the problem...')
                     for guess_factor in secant_bisection_factors:
-                        p = x0*guess_factor*additional_guess_scale
+                        p = (x0*guess_factor if x0 != 0.0 else guess_factor)*additional_guess_scale
                         if (low is not None and p < low) or (high is not None and p > high):
                             continue
                         temp_q = func(p, *args, **kwargs)
-- 
2.43.0


From 79794b8273f3278645f62b7f94f2c2445795c3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:09 +0000
Subject: [PATCH 049/115] fix: brenth could step out of its bracket when xtol
 was met but ytol was not

---
 fluids/numerics/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 8215271..9a39123 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2799,10 +2799,11 @@ def brenth(f, xa, xb, args=(),
         if abs(scur) > delta:
             xcur += scur
         else:
+            # when only ytol is still not met, stay between the bracketing points
             if sbis > 0.0:
-                xcur += delta
+                xcur += min(delta, sbis)
             else:
-                xcur -= delta
+                xcur -= min(delta, -sbis)
 
         fcur = f(xcur, *args, **kwargs)
     raise UnconvergedError(f"Failed to converge after {maxiter} iterations")
-- 
2.43.0


From 19e7a31d984f0e79a91f031c7bf00fd29bc46652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:43 +0000
Subject: [PATCH 050/115] fix: system solvers returned nan as a converged
 solution

---
 fluids/numerics/__init__.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 9a39123..8b91397 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3729,14 +3729,14 @@ def newton_system(f, x0, jac, xtol=None, ytol=None, maxiter=100, damping=1.0,
         # if not jac_also:  # numba: delete
         #     j = jac(x, *args)  # numba: delete
 
-    if xtol is not None and norm2(fcur) > xtol:
+    if xtol is not None and not norm2(fcur) <= xtol:
         raise UnconvergedError("Failed to converge")
 #        raise UnconvergedError("Failed to converge; maxiter (%d) reached, value=%s" %(maxiter, x))
     if ytol is not None:
         err0 = 0.0
         for v in fcur:
             err0 += abs(v)
-        if err0 > ytol:
+        if not err0 <= ytol:
 #            raise UnconvergedError("Failed to converge; maxiter (%d) reached, value=%s" %(maxiter, x))
             raise UnconvergedError("Failed to converge")
     if with_point: # numba: delete
@@ -3784,9 +3784,9 @@ def newton_minimize(f, x0, jac, hess, xtol=None, ytol=None, maxiter=100, damping
         if ytol is not None and err(j) < ytol:
             break
 
-    if xtol is not None and norm2(j) > xtol:
+    if xtol is not None and not norm2(j) <= xtol:
         raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={x} ")
-    if ytol is not None and err(j) > ytol:
+    if ytol is not None and not err(j) <= ytol:
         raise UnconvergedError(f"Failed to converge; maxiter ({maxiter}) reached, value={x} ")
 
     return x, iter
@@ -3957,13 +3957,13 @@ def fixed_point(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
 
 
 
-    if xtol is not None and norm2(fcur) > xtol:
+    if xtol is not None and not norm2(fcur) <= xtol:
         raise UnconvergedError("Failed to converge")
     if ytol is not None:
         err0 = 0.0
         for v in fcur:
             err0 += abs(v)
-        if err0 > ytol:
+        if not err0 <= ytol:
             raise UnconvergedError("Failed to converge")
     return x, iteration
 
@@ -4021,13 +4021,13 @@ def fixed_point_aitken(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
             raise ValueError("Fixed point is not making progress, cannot proceed")
         err0 = err1
 
-    if xtol is not None and norm2(fcur) > xtol:
+    if xtol is not None and not norm2(fcur) <= xtol:
         raise UnconvergedError("Failed to converge")
     if ytol is not None:
         err0 = 0.0
         for v in fcur:
             err0 += abs(v)
-        if err0 > ytol:
+        if not err0 <= ytol:
             raise UnconvergedError("Failed to converge")
     return x, iteration
 
@@ -4124,13 +4124,13 @@ def fixed_point_gdem(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
             raise ValueError("Fixed point is not making progress, cannot proceed")
         err0 = err1
 
-    if xtol is not None and norm2(fcur) > xtol:
+    if xtol is not None and not norm2(fcur) <= xtol:
         raise UnconvergedError("Failed to converge")
     if ytol is not None:
         err0 = 0.0
         for v in fcur:
             err0 += abs(v)
-        if err0 > ytol:
+        if not err0 <= ytol:
             raise UnconvergedError("Failed to converge")
     return x, iteration
 
-- 
2.43.0


From e5273458cca3ae15b6be8789b2a34b7302183813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:43 +0000
Subject: [PATCH 051/115] fix: broyden2 returned its last point without having
 converged

---
 fluids/numerics/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 8b91397..51fd375 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3922,6 +3922,8 @@ def broyden2(xs, fun, jac, xtol=1e-7, maxiter=100, jac_has_fun=False,
         for fi in fcur:
             err += abs(fi)
 
+    if not err <= xtol:
+        raise UnconvergedError("Failed to converge", iterations=iter, err=err, point=xs)
     return xs, iter
 
 def fixed_point(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
-- 
2.43.0


From 2df327f73ddca668be5c8fd174918bdfdc0c8d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:43 +0000
Subject: [PATCH 052/115] fix: the first fixed point iteration ignored damping

---
 fluids/numerics/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 51fd375..32356c5 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3934,7 +3934,7 @@ def fixed_point(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
         err0 += abs(v)
     if xtol is None and (ytol is not None and err0 < ytol):
         return x0, 0.0
-    x = [xi - fi for xi, fi in zip(x0, fcur)]
+    x = [xi - fi*damping for xi, fi in zip(x0, fcur)]
     iteration = 1
     while iteration < maxiter:
         fcur = f(x, *args)
@@ -3994,7 +3994,7 @@ def fixed_point_aitken(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
     if xtol is None and (ytol is not None and err0 < ytol):
         return x0, 0.0
 
-    x = [xi - fi for xi, fi in zip(x0, fcur)]
+    x = [xi - fi*damping for xi, fi in zip(x0, fcur)]
     iteration = 1
     while iteration < maxiter:
         all_guesses.append(x)
@@ -4096,7 +4096,7 @@ def fixed_point_gdem(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
     if xtol is None and (ytol is not None and err0 < ytol):
         return x0, 0.0
 
-    x = [xi - fi for xi, fi in zip(x0, fcur)]
+    x = [xi - fi*damping for xi, fi in zip(x0, fcur)]
     iteration = 1
     while iteration < maxiter:
         all_guesses.append(x)
-- 
2.43.0


From cf1cc4210d449af1a2221f34176f0fef4d505ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:43 +0000
Subject: [PATCH 053/115] fix: nelder_mead required a lower bound to be given
 with an upper bound

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 32356c5..f57a2e8 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5462,7 +5462,7 @@ else:
     quad = lazy_quad
 
 def bounds_clip_naive(x, low, high):
-    N = len(low)
+    N = len(x)
     if low is not None:
         for i in range(N):
             if x[i] < low[i]:
-- 
2.43.0


From 511b7091be47f3d0fc951e8c54c44c00cc1b0f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:43 +0000
Subject: [PATCH 054/115] fix: nelder_mead did not pass args to the function

---
 fluids/numerics/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index f57a2e8..5b59e7b 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5530,7 +5530,7 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
 #    fsim = np.zeros((N+1, ), dtype=float) # numba: uncomment
 
     for k in range(N + 1):
-        fsim[k] = func(sim[k])
+        fsim[k] = func(sim[k], *args)
 
 #     print(sim, fsim)
     sim, fsim = sort_fun(sim, fsim)
@@ -5576,13 +5576,13 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
         if has_bounds:
             xr = bounds_clip_naive(xr, low, high)
 
-        fxr = func(xr)
+        fxr = func(xr, *args)
         if fxr < fsim[0]:
 #            xe = rhochip1*xbar - rhochi*sim_last # numba: uncomment
             xe = [rhochip1*xbar[i] - rhochi*sim_last[i] for i in range(N)] # numba: delete
             if has_bounds:
                 xe = bounds_clip_naive(xe, low, high)
-            fxe = func(xe)
+            fxe = func(xe, *args)
             if fxe < fxr:
                 sim[-1] = xe
                 fsim[-1] = fxe
@@ -5599,7 +5599,7 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
                     xc = [rhopsip1*xbar[i] - rhopsi*sim_last[i] for i in range(N)] # numba: delete
                     if has_bounds:
                         xc = bounds_clip_naive(xc, low, high)
-                    fxc = func(xc)
+                    fxc = func(xc, *args)
 
                     sim[-1] = xc
                     fsim[-1] = fxc
@@ -5609,7 +5609,7 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
                     xcc = [onempsi*xbar[i] + psi*sim_last[i] for i in range(N)] # numba: delete
                     if has_bounds:
                         xcc = bounds_clip_naive(xcc, low, high)
-                    fxcc = func(xcc)
+                    fxcc = func(xcc, *args)
                     sim[-1] = xcc
                     fsim[-1] = fxcc
 
-- 
2.43.0


From 351e860ae2c2d4e7e4a7a2d603c4fd45fecc8f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:01 +0000
Subject: [PATCH 055/115] fix: nelder_mead started from points outside of the
 bounds

---
 fluids/numerics/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 5b59e7b..2540db0 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5525,6 +5525,16 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
         sim = [x.copy() for x in initial_simplex] # numba: delete
 #        sim = np.asfarray(initial_simplex) # numba: uncomment
 
+    if has_bounds:
+        for k in range(N + 1):
+            for i in range(N):
+                # reflect points outside of the bounds; at a bound, the simplex would otherwise be flat
+                if high is not None and sim[k][i] > high[i]:
+                    sim[k][i] = 2.0*high[i] - sim[k][i]
+                elif low is not None and sim[k][i] < low[i]:
+                    sim[k][i] = 2.0*low[i] - sim[k][i]
+            sim[k] = bounds_clip_naive(sim[k], low, high)
+
     # Make a new list to store the points. Can initialize it to anything, irrelevant
     fsim = [x0 for _ in range(N+1)] # numba: delete
 #    fsim = np.zeros((N+1, ), dtype=float) # numba: uncomment
-- 
2.43.0


From c97df379a6c7b4f3a299abd48a9f9f0735f83737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:21 +0000
Subject: [PATCH 056/115] fix: nelder_mead compiled with numba started from the
 origin instead of x0

---
 fluids/numerics/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 2540db0..a92c9f4 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5514,6 +5514,7 @@ def nelder_mead(func, x0, args=(), xtol=1e-4, ftol=1e-4, maxiter=100, maxfun=Non
 
     sim = [x0.copy() for _ in range(N+1)] # numba: delete
 #    sim = np.zeros((N+1, N), dtype=float) # numba: uncomment
+#    sim[:] = x0 # numba: uncomment
 
     if initial_simplex is None:
         for k in range(N):
-- 
2.43.0


From 907bc1903ed3eeaea154bda7b2be447e28279088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:49 +0000
Subject: [PATCH 057/115] fix: homotopy_solver failed when its prediction
 already met ytol

---
 fluids/numerics/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index a92c9f4..6e2d73c 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3606,6 +3606,10 @@ def newton_system(f, x0, jac, xtol=None, ytol=None, maxiter=100, damping=1.0,
         err0 += abs(v)
 
     if xtol is None and (ytol is not None and err0 < ytol):
+        if with_point: # numba: delete
+            if not jac_also: # numba: delete
+                j = jac(x0, *args) # numba: delete
+            return x0, 0, fcur, j # numba: delete
         return x0, 0
 
 
-- 
2.43.0


From f2269082183c3670371a8af12a1f881884b356ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:49 +0000
Subject: [PATCH 058/115] fix: fixed_point_anderson compared ytol to the first
 function value instead of to the current change

---
 fluids/numerics/__init__.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 6e2d73c..2f21029 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -4716,7 +4716,7 @@ def fixed_point_anderson(
         window_size = len(fcur)
 
     # Check initial convergence for ytol
-    err0 = sum(abs(v) for v in fcur) if ytol is not None else 0.0
+    err0 = sum(abs(v - xi) for v, xi in zip(fcur, x)) if ytol is not None else 0.0
     if ytol is not None and xtol is None and err0 < ytol:
         return x0, 0
 
@@ -4781,7 +4781,7 @@ def fixed_point_anderson(
             x_hist[-1] = x_acc
 
         # Calculate errors
-        err1 = sum(abs(v) for v in fcur) if ytol is not None else 0.0
+        err1 = sum(abs(v - xi) for v, xi in zip(x_new, x)) if ytol is not None else 0.0
 
         # Check progress
         if require_progress and ytol is not None and err1 >= err0:
@@ -4802,9 +4802,9 @@ def fixed_point_anderson(
 
     # Check final convergence
     x_err = max(abs((a - b) / abs(b)) for a, b in zip(x_acc, x))
-    if xtol is not None and x_err > xtol:
+    if xtol is not None and not x_err <= xtol:
         raise ValueError(f"Failed to converge after {maxiter} iterations. Error: {x_err}")
-    if ytol is not None and err1 > ytol:
+    if ytol is not None and not err1 <= ytol:
         raise ValueError(f"Failed to converge after {maxiter} iterations. Error: {err1}")
 
     return x, iteration
@@ -4927,9 +4927,9 @@ def fixed_point_anderson_residual(
 
         x = x_new
 
-    if xtol is not None and err1 > xtol:
+    if xtol is not None and not err1 <= xtol:
         raise ValueError(f"Failed to converge after {maxiter} iterations")
-    if ytol is not None and err1 > ytol:
+    if ytol is not None and not err1 <= ytol:
         raise ValueError(f"Failed to converge after {maxiter} iterations")
 
     return x, iteration
-- 
2.43.0


From eb7a41725135db1e8e3642532def8889c7a93798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:26 +0000
Subject: [PATCH 059/115] fix: fixed_point_anderson returned its last point
 without having converged

---
 fluids/numerics/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 2f21029..0d2d6ad 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -4800,8 +4800,7 @@ def fixed_point_anderson(
 
         x = x_acc
 
-    # Check final convergence
-    x_err = max(abs((a - b) / abs(b)) for a, b in zip(x_acc, x))
+    # Check final convergence; x has already been set to x_acc here
     if xtol is not None and not x_err <= xtol:
         raise ValueError(f"Failed to converge after {maxiter} iterations. Error: {x_err}")
     if ytol is not None and not err1 <= ytol:
-- 
2.43.0


From a34dcf0e3a02432f75e6a856df47db3d65cd9df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:26 +0000
Subject: [PATCH 060/115] fix: newton_minimize stopped at the first of its two
 tolerances and then raised for the other

---
 fluids/numerics/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 0d2d6ad..b80f232 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -3783,9 +3783,10 @@ def newton_minimize(f, x0, jac, hess, xtol=None, ytol=None, maxiter=100, damping
             h = hess(x, *args)
 
         iter += 1
-        if xtol is not None and norm2(j) < xtol:
-            break
-        if ytol is not None and err(j) < ytol:
+        if xtol is not None:
+            if norm2(j) < xtol and (ytol is None or err(j) < ytol):
+                break
+        elif ytol is not None and err(j) < ytol:
             break
 
     if xtol is not None and not norm2(j) <= xtol:
-- 
2.43.0


From 68537683b4f29cd1e30e249e58805a380614f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:43 +0000
Subject: [PATCH 061/115] fix: fixed_point_aitken and fixed_point_gdem
 extrapolated away from a converged point

---
 fluids/numerics/__init__.py | 40 ++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index b80f232..c2140c2 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -4008,22 +4008,22 @@ def fixed_point_aitken(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
             for v in fcur:
                 if isinf(v) or isnan(v):
                     raise ValueError("Cannot continue - math error in function value")
-        if (iteration % acc_frequency) == 0:
+        err1 = 0.0
+        for v in fcur:
+            err1 += abs(v)
+        if xtol is not None:
+            converged = (norm2(fcur) < xtol) and (ytol is None or err1 < ytol)
+        else:
+            converged = ytol is not None and err1 < ytol
+        if (iteration % acc_frequency) == 0 and not converged:
             x1, x2 = all_guesses[-2], all_guesses[-3]
             dx = aitken_delta_squared_accelerate(x, x1, x2, acc_max_change_ratio)
             x = [xi + dxi*acc_damping for xi, dxi in zip(x, dx)]
         else:
             x = [xi - fi*damping for xi, fi in zip(x, fcur)]
-        err1 = 0.0
-        for v in fcur:
-            err1 += abs(v)
         iteration += 1
-        if xtol is not None:
-            if (norm2(fcur) < xtol) and (ytol is None or err1 < ytol):
-                break
-        elif ytol is not None:
-            if err1 < ytol:
-                break
+        if converged:
+            break
         if err1 >= err0 and require_progress:
             raise ValueError("Fixed point is not making progress, cannot proceed")
         err0 = err1
@@ -4110,23 +4110,23 @@ def fixed_point_gdem(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0,
             for v in fcur:
                 if isinf(v) or isnan(v):
                     raise ValueError("Cannot continue - math error in function value")
-        if (iteration % acc_frequency) == 0:
+        err1 = 0.0
+        for v in fcur:
+            err1 += abs(v)
+        if xtol is not None:
+            converged = (norm2(fcur) < xtol) and (ytol is None or err1 < ytol)
+        else:
+            converged = ytol is not None and err1 < ytol
+        if (iteration % acc_frequency) == 0 and not converged:
             x1, x2, x3 = all_guesses[-2], all_guesses[-3], all_guesses[-4]
             dx = gdem(x, x1, x2, x3, acc_max_change_ratio)
             # print(np.array([xi - fi*acc_damping for xi, fi in zip(x, fcur)])/[xi + dxi*acc_damping for xi, dxi in zip(x, dx)])
             x = [xi + dxi*acc_damping for xi, dxi in zip(x, dx)]
         else:
             x = [xi - fi*damping for xi, fi in zip(x, fcur)]
-        err1 = 0.0
-        for v in fcur:
-            err1 += abs(v)
         iteration += 1
-        if xtol is not None:
-            if (norm2(fcur) < xtol) and (ytol is None or err1 < ytol):
-                break
-        elif ytol is not None:
-            if err1 < ytol:
-                break
+        if converged:
+            break
         if err1 >= err0 and require_progress:
             raise ValueError("Fixed point is not making progress, cannot proceed")
         err0 = err1
-- 
2.43.0


From 3de73fa377fe982d2d218956c2caa2290c55dce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:52 +0000
Subject: [PATCH 062/115] fix: fixed_point_anderson extrapolated away from a
 point that met ytol

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index c2140c2..bd93c4e 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -4797,7 +4797,7 @@ def fixed_point_anderson(
             if x_err < xtol and (ytol is None or err1 < ytol):
                 return x_acc, iteration
         elif ytol is not None and err1 < ytol:
-            return x_acc, iteration
+            return x_new, iteration
 
         x = x_acc
 
-- 
2.43.0


From 3609113e4fe6a16ad16df95c86374ca9ae528a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:00 +0000
Subject: [PATCH 063/115] fix: roots_quadratic lost the small root to
 cancellation

---
 fluids/numerics/polynomial_roots.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fluids/numerics/polynomial_roots.py b/fluids/numerics/polynomial_roots.py
index 737d972..f9aa126 100644
--- a/fluids/numerics/polynomial_roots.py
+++ b/fluids/numerics/polynomial_roots.py
@@ -54,8 +54,16 @@ def roots_quadratic(a, b, c):
         x2 = (-b - D*1.0j)*a_inv_2
     else:
         D = sqrt(D)
-        x1 = (D - b)*a_inv_2
-        x2 = -(b + D)*a_inv_2
+        # Only add numbers of the same sign; the other root comes from c/a = x1*x2
+        if b > 0.0:
+            x2 = -(b + D)*a_inv_2
+            x1 = -2.0*c/(b + D)
+        elif b < 0.0:
+            x1 = (D - b)*a_inv_2
+            x2 = 2.0*c/(D - b)
+        else:
+            x1 = D*a_inv_2
+            x2 = -D*a_inv_2
     return (x1, x2)
 
 def roots_quartic(a, b, c, d, e):
-- 
2.43.0


From d45c15ba3239b3dcb7faee2f90f863d647585e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:00 +0000
Subject: [PATCH 064/115] fix: deflate_cubic_real_roots divided by zero for a
 root at zero

---
 fluids/numerics/polynomial_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/numerics/polynomial_utils.py b/fluids/numerics/polynomial_utils.py
index 7c31583..a7d2897 100644
--- a/fluids/numerics/polynomial_utils.py
+++ b/fluids/numerics/polynomial_utils.py
@@ -290,7 +290,8 @@ def exp_poly_ln_tau_coeffs3(T, Tc, val, der, der2):
 
 def deflate_cubic_real_roots(b, c, d, x0):
     F = b + x0
-    G = -d/x0
+    # x0 == 0 means d == 0
+    G = -d/x0 if x0 != 0.0 else c
 
     D = F*F - 4.0*G
 #     if D < 0.0:
-- 
2.43.0


From ef95be3c2ea7280f27757682f8906d3c0746b894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:33 +0000
Subject: [PATCH 065/115] fix: det returned the row of a 1x1 matrix instead of
 its element

---
 fluids/numerics/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/arrays.py b/fluids/numerics/arrays.py
index 9c8a329..329e8cb 100644
--- a/fluids/numerics/arrays.py
+++ b/fluids/numerics/arrays.py
@@ -152,7 +152,7 @@ def det(matrix):
     """
     size = len(matrix)
     if size == 1:
-        return matrix[0]
+        return matrix[0][0]
     elif size == 2:
         (a, b), (c, d) = matrix
         return a*d - c*b
-- 
2.43.0


From b5c1f09de6abf9e07ff4bea9cac19fa868d8ef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:33 +0000
Subject: [PATCH 066/115] fix: subset_matrix failed for slices without a start
 or step

---
 fluids/numerics/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/arrays.py b/fluids/numerics/arrays.py
index 329e8cb..ca3993f 100644
--- a/fluids/numerics/arrays.py
+++ b/fluids/numerics/arrays.py
@@ -1419,7 +1419,7 @@ def solve_tridiagonal(a, b, c, d):
     return b
 def subset_matrix(whole, subset):
     if type(subset) is slice:
-        subset = range(subset.start, subset.stop, subset.step)
+        subset = range(*subset.indices(len(whole)))
 #    N = len(subset)
 #    new = [[None]*N for i in range(N)]
 #    for ni, i in enumerate(subset):
-- 
2.43.0


From 404b02e941e20367d1cdda28077b11243ba06ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 067/115] fix: pow_dd raised TypeError for an integer exponent
 given as a float

---
 fluids/numerics/doubledouble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/doubledouble.py b/fluids/numerics/doubledouble.py
index 666a104..ea0b900 100644
--- a/fluids/numerics/doubledouble.py
+++ b/fluids/numerics/doubledouble.py
@@ -223,7 +223,7 @@ def log_dd(r, e):
 def pow_dd(r, e, nr, ne):
     """Compute the power"""
     if ne == 0.0 and (nr %1) == 0:
-        return intpow_dd(r, e, nr)
+        return intpow_dd(r, e, int(nr))
     tmpr, tmpe = log_dd(r, e)
     tmpr, tmpe = mul_dd(tmpr, tmpe, nr, ne)
     return exp_dd(tmpr, tmpe)
-- 
2.43.0


From 67f9b2491e93b9a079429d58066a3df756a7f07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 068/115] fix: sqrt_imag_dd returned the root of the conjugate
 and lost small parts to cancellation

---
 fluids/numerics/doubledouble.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/fluids/numerics/doubledouble.py b/fluids/numerics/doubledouble.py
index ea0b900..5b6e614 100644
--- a/fluids/numerics/doubledouble.py
+++ b/fluids/numerics/doubledouble.py
@@ -263,15 +263,18 @@ def sqrt_imag_dd(xrr, xre, xcr, xce):
     wr, we = add_dd(xrr2, xre2, xcr2, xce2)
     wr, we = sqrt_dd(wr, we)
 
-    zrr, zre = add_dd(wr, we, xrr, xre)
-    zrr *= 0.5
-    zre *= 0.5 # checks out
-    zrr, zre = sqrt_dd(zrr, zre) # real part of answer
-
-    zcr, zce = add_dd(wr, we, -xrr, -xre)
-    zcr *= 0.5
-    zce *= 0.5 # checks out
-    zcr, zce = sqrt_dd(zcr, zce) # real part of answer
+    # Take the square root where nothing cancels; the other part is then half
+    # of the complex part divided by it, which has the right sign as well
+    if xrr >= 0.0:
+        zrr, zre = add_dd(wr, we, xrr, xre)
+        zrr, zre = sqrt_dd(0.5*zrr, 0.5*zre) # real part of answer
+        zcr, zce = div_dd(0.5*xcr, 0.5*xce, zrr, zre)
+    else:
+        zcr, zce = add_dd(wr, we, -xrr, -xre)
+        zcr, zce = sqrt_dd(0.5*zcr, 0.5*zce) # complex part of answer
+        if xcr < 0.0:
+            zcr, zce = -zcr, -zce
+        zrr, zre = div_dd(0.5*xcr, 0.5*xce, zcr, zce)
     return (zrr, zre, zcr, zce)
 
 def add_imag_dd(xrr, xre, xcr, xce, yrr, yre, ycr, yce):
-- 
2.43.0


From 3a1fd36e4129e170a2eaa1ef8bad820e69d7ea5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:47 +0000
Subject: [PATCH 069/115] fix: nquad integrates the value of the inner
 integral, not its (value, error) pair

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index bd93c4e..559163a 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -5436,7 +5436,7 @@ def lazy_quad(f, a, b, args=(), epsrel=1.49e-08, epsabs=1.49e-8, **kwargs):
 
 
 def _call_nquad(x, func, range_funcs, epsrel, epsabs, *args):
-    return nquad(func, range_funcs, args=(x,) +args , epsrel=epsrel, epsabs=epsabs)
+    return nquad(func, range_funcs, args=(x,) +args , epsrel=epsrel, epsabs=epsabs)[0]
 
 def nquad(func, ranges, args=(), epsrel=1.48e-8, epsabs=1.48e-8):
     my_low, my_high = ranges[-1](*args)
-- 
2.43.0


From 208bdeb67b5397eef34b815c56e2ec455bf345f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:12 +0000
Subject: [PATCH 070/115] fix: linspace of one point returns the step as well
 when retstep is requested

---
 fluids/numerics/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 559163a..ded69ea 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -596,10 +596,10 @@ def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None):
         return []
     if endpoint:
         if num == 1:
+            if retstep:
+                return [start], nan
             return [start]
         step = (stop-start)/float(num-1)
-        if num == 1:
-            step = nan
 
         y = [start]
         for _ in range(num-2):
-- 
2.43.0


From 5e8b3bb1683f8903e0515e67b1845ced254954f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:12 +0000
Subject: [PATCH 071/115] fix: caching_decorator calls again when the info of a
 cached point was not stored

---
 fluids/numerics/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index ded69ea..29ed7e0 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -2151,8 +2151,8 @@ def caching_decorator(f, full=False):
     @wraps(f)
     def wrapper(x, *args, **kwargs):
         has_info = "info" in kwargs
-        if x in cache:
-            if "info" in kwargs:
+        if x in cache and (not has_info or x in info_cache):
+            if has_info:
                 kwargs["info"][:] = info_cache[x]
             return cache[x]
 
-- 
2.43.0


From 7cc26d90fa12773de330b9a6b2abff34c91634b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 072/115] fix: build_solve_pychebfun stops at N_max points when
 the fit needs fewer terms than it samples

---
 fluids/optional/pychebfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/optional/pychebfun.py b/fluids/optional/pychebfun.py
index 7411281..a93aa93 100644
--- a/fluids/optional/pychebfun.py
+++ b/fluids/optional/pychebfun.py
@@ -85,7 +85,7 @@ def build_solve_pychebfun(f, goal, domain, N=15, N_max=100, find_roots=2):
     fun = build_pychebfun(cached_fun, domain, N=N)
     roots = (fun - goal).roots()
 
-    while (len(roots) < find_roots and len(fun._values) < N_max):
+    while (len(roots) < find_roots and len(fun._values) < N_max and N < N_max):
         N *= 2
         fun = build_pychebfun(cached_fun, domain, N=N)
         roots = (fun - goal).roots()
-- 
2.43.0


From c074ff44c674feb100d79632d8f7971843d7bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 073/115] fix: Chebfun.roots of a linear function

---
 fluids/optional/pychebfun.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fluids/optional/pychebfun.py b/fluids/optional/pychebfun.py
index a93aa93..8c30fb1 100644
--- a/fluids/optional/pychebfun.py
+++ b/fluids/optional/pychebfun.py
@@ -544,6 +544,14 @@ class Chebfun(Polyfun):
         if self.size() == 1:
             return np.array([])
 
+        elif self.size() == 2:
+            # the colleague matrix needs at least two rows
+            ak = self.coefficients()
+            root = -ak[0]/ak[1]
+            if np.abs(root) > 1:
+                return np.array([])
+            return self._ui_to_ab(np.array([root]))
+
         elif self.size() <= 100:
             ak = self.coefficients()
             v = np.zeros_like(ak[:-1])
-- 
2.43.0


From a4bd36809c514c291410953f436e151d5b1621a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:31 +0000
Subject: [PATCH 074/115] fix: two_phase_dP_methods lists Beggs-Brill only when
 the angle two_phase_dP requires is given

---
 fluids/two_phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/two_phase.py b/fluids/two_phase.py
index deaebea..c809ddc 100644
--- a/fluids/two_phase.py
+++ b/fluids/two_phase.py
@@ -2356,7 +2356,7 @@ two_phase_correlations = {
 _unknown_msg_two_phase = f"Unknown method; available methods are {list(two_phase_correlations.keys())}"
 
 def two_phase_dP_methods(m: float, x: float, rhol: float, D: float, L: float=1.0, rhog: float | None=None, mul: float | None=None, mug: float | None=None,
-                         sigma: float | None=None, P: float | None=None, Pc: float | None=None, roughness: float=0.0, angle: float=0,
+                         sigma: float | None=None, P: float | None=None, Pc: float | None=None, roughness: float=0.0, angle: float | None=None,
                          check_ranges: bool=False) -> list[str]:
     r"""This function returns a list of names of correlations for two-phase
     liquid-gas pressure drop for flow inside channels.
-- 
2.43.0


From 5c20643b575763b9073ceb59fa2693a8ef6260c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:38 +0000
Subject: [PATCH 075/115] fix: documented unit of dP_wedge_meter P2 is read by
 the unit-aware interface

---
 fluids/flow_meter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/flow_meter.py b/fluids/flow_meter.py
index edb42b0..0d7b492 100644
--- a/fluids/flow_meter.py
+++ b/fluids/flow_meter.py
@@ -2045,8 +2045,8 @@ def dP_wedge_meter(D: float, H: float, P1: float, P2: float) -> float:
         Static pressure of fluid upstream of wedge meter at the cross-section
         of the pressure tap, [Pa]
     P2 : float
-        Static pressure of fluid at the end of the wedge meter pressure tap, [
-        Pa]
+        Static pressure of fluid at the end of the wedge meter pressure tap,
+        [Pa]
 
     Returns
     -------
-- 
2.43.0


From d686efd575b02213af8e276f4ab2886740fc621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:38 +0000
Subject: [PATCH 076/115] fix: SA_from_h returns m^2, not m^3, through the
 unit-aware interface

---
 fluids/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index d44fac9..f889654 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3017,7 +3017,7 @@ def SA_from_h(h: float, D: float, L: float, horizontal: bool=True, sideA: str |
     Returns
     -------
     SA : float
-        Wetted wall surface area up to h [m^3]
+        Wetted wall surface area up to h [m^2]
 
     Examples
     --------
-- 
2.43.0


From e145f79ccff51217f6687ef96af3886c80bbc4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:38 +0000
Subject: [PATCH 077/115] fix: unit-aware listings of method names and dict
 outputs with flags or undocumented keys

---
 fluids/units.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fluids/units.py b/fluids/units.py
index a661e79..f401e65 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -316,9 +316,16 @@ def convert_output(result, out_units, out_vars, ureg):
         return result
     elif t is dict:
         for key, ans in result.items():
-            unit = out_units[out_vars.index(key)]
+            if ans is None or isinstance(ans, (str, bool)):
+                continue
+            # Outputs which are not listed, such as Reynolds numbers and
+            # correction factors reported on request, are dimensionless
+            unit = out_units[out_vars.index(key)] if key in out_vars else "dimensionless"
             result[key] = ans*parse_expression_cached(unit, ureg)
         return result
+    elif (t is list or t is tuple) and result and all(isinstance(ans, str) for ans in result):
+        # Names do not have units
+        return result
     elif (t is list or t is ndarray) and output_count == 1:
         return np.array(result)*parse_expression_cached(out_units[0], ureg)
     elif isinstance(result, Iterable):
-- 
2.43.0


From 996f52f17af4a06d24329d4905ca994b9d99d4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:59 +0000
Subject: [PATCH 078/115] fix: unit-aware flow regimes of arrays of inputs

---
 fluids/units.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fluids/units.py b/fluids/units.py
index f401e65..0ceeacb 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -331,6 +331,10 @@ def convert_output(result, out_units, out_vars, ureg):
     elif isinstance(result, Iterable):
         conveted_result = []
         for ans, unit in zip(result, out_units):
+            if isinstance(ans, ndarray) and ans.dtype.kind == "U":
+                # Arrays of names do not have units
+                conveted_result.append(ans)
+                continue
             conveted_result.append(ans*parse_expression_cached(unit, ureg))
         return conveted_result
     else:
-- 
2.43.0


From 9e0cd53805b9c74d0da18ef62436581f337aeb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:59 +0000
Subject: [PATCH 079/115] fix: erosional_velocity factor can be given through
 the unit-aware interface

---
 fluids/piping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/piping.py b/fluids/piping.py
index 7c51d76..5bd27ae 100644
--- a/fluids/piping.py
+++ b/fluids/piping.py
@@ -1071,7 +1071,7 @@ def erosional_velocity(rho: int, C: int) -> float:
     rho : float
         Bulk mass density of the overall fluid, [kg/m^3]
     C : float
-        Erosional velocity factor; must be provided,  [sqrt(lb/(ft*s^2))]
+        Erosional velocity factor; must be provided,  [(lb/(ft*s^2))^0.5]
 
     Returns
     -------
-- 
2.43.0


From 68a6c6b82b52d54f9c600d1cb83c511df16e832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:59 +0000
Subject: [PATCH 080/115] fix: Rosin-Rammler functions are callable through the
 unit-aware interface

---
 fluids/particle_size_distribution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/particle_size_distribution.py b/fluids/particle_size_distribution.py
index 99c5f75..95011a7 100644
--- a/fluids/particle_size_distribution.py
+++ b/fluids/particle_size_distribution.py
@@ -932,7 +932,7 @@ def pdf_Rosin_Rammler(d: float, k: float, m: float) -> float:
     d : float
         Specified particle diameter, [m]
     k : float
-        Parameter in the model, [(1/m)^m]
+        Parameter in the model, (1/m)^m, [base SI]
     m : float
         Parameter in the model, [-]
 
@@ -973,7 +973,7 @@ def cdf_Rosin_Rammler(d: float, k: float, m: float) -> float:
     d : float
         Specified particle diameter, [m]
     k : float
-        Parameter in the model, [(1/m)^m]
+        Parameter in the model, (1/m)^m, [base SI]
     m : float
         Parameter in the model, [-]
 
@@ -1021,7 +1021,7 @@ def pdf_Rosin_Rammler_basis_integral(d: float, k: float, m: float, n: float) ->
     d : float
         Specified particle diameter, [m]
     k : float
-        Parameter in the model, [(1/m)^m]
+        Parameter in the model, (1/m)^m, [base SI]
     m : float
         Parameter in the model, [-]
     n : int
-- 
2.43.0


From 55ade0a67b9ac2cedc7c940dc86936db52b270bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:59 +0000
Subject: [PATCH 081/115] fix: nearest_pipe accepts numpy integer schedules, as
 passed by the vectorized interface

---
 fluids/piping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/piping.py b/fluids/piping.py
index 5bd27ae..dda1411 100644
--- a/fluids/piping.py
+++ b/fluids/piping.py
@@ -735,7 +735,7 @@ def nearest_pipe(Do: float | None=None, Di: float | None=None, NPS: int | None=N
         Do *= 1E3*(1.0 - 1e-13)
 
     # If accidentally given an numerical schedule, convert it to a string
-    if isinstance(schedule, (int, float)):
+    if not isinstance(schedule, str):
         search_schedule = str(int(schedule))
     else:
         search_schedule = schedule
-- 
2.43.0


From 63b77c5e30c43a62d969fecf73aa4204d4220440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:59 +0000
Subject: [PATCH 082/115] fix: liquid_jet_pump is usable through the unit-aware
 interface

---
 fluids/jet_pump.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/fluids/jet_pump.py b/fluids/jet_pump.py
index 77df1b2..5791f05 100644
--- a/fluids/jet_pump.py
+++ b/fluids/jet_pump.py
@@ -326,8 +326,35 @@ def liquid_jet_pump(rhop, rhos, Kp=0.0, Ks=0.1, Km=.15, Kd=0.1,
 
     Returns
     -------
-    solution : dict
-        Dictionary of calculated parameters, [-]
+    results : dict
+        Dictionary of the following calculated parameters:
+    d_nozzle : float
+        The inside diameter of the primary fluid's nozle, [m]
+    d_mixing : float
+        The diameter of the mixing chamber, [m]
+    d_diffuser : float
+        The diameter of the diffuser at its exit, [m]
+    Qp : float
+        The volumetric flow rate of the primary fluid, [m^3/s]
+    Qs : float
+        The volumetric flow rate of the secondary fluid, [m^3/s]
+    P1 : float
+        The pressure of the primary fluid entering its nozzle, [Pa]
+    P2 : float
+        The pressure of the secondary fluid at the entry of the ejector, [Pa]
+    P5 : float
+        The pressure at the exit of the diffuser, [Pa]
+    M : float
+        Ratio of the secondary to the primary volumetric flow rate, [-]
+    N : float
+        Ratio of the pressure gain of the secondary fluid to the pressure loss
+        of the primary fluid, [-]
+    R : float
+        Ratio of the area of the nozzle to that of the mixing chamber, [-]
+    alpha : float
+        Ratio of the area of the mixing chamber to that of the diffuser, [-]
+    efficiency : float
+        Efficiency of the jet pump, the product of `M` and `N`, [-]
 
     Notes
     -----
-- 
2.43.0


From c51b1de5624406db49a25daa5fd81b0de87b0c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:59 +0000
Subject: [PATCH 083/115] fix: liquid_jet_pump_ancillary result has its unit in
 the unit-aware interface

---
 fluids/units.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fluids/units.py b/fluids/units.py
index 0ceeacb..0ce9ca1 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -720,7 +720,9 @@ variable_output_unit_funcs = {
                         (True, True, True, True, False, True, True): [u.m],
                         (True, True, True, True, True, False, True): [u.m],
                         (True, True, True, True, True, True, False): [u.kg/u.s],
-                        }, 7)
+                        }, 7),
+    "liquid_jet_pump_ancillary": ({tuple(i != unknown for i in range(10)): [unit] for unknown, unit in
+                                   ((4, u.m), (5, u.m), (6, u.m**3/u.s), (7, u.m**3/u.s), (8, u.Pa), (9, u.Pa))}, 10),
 }
 
 simple_compressible_variable_output = ({(True, True, False, True, True, True, True): [u.m],
-- 
2.43.0


From 473a8c0671da6bdfb2d86e1e9b053985ec5f30e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:38 +0000
Subject: [PATCH 084/115] fix: unit-aware diffuser_conical_staged takes arrays
 of stage dimensions

---
 fluids/units.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fluids/units.py b/fluids/units.py
index 0ce9ca1..1debd06 100644
--- a/fluids/units.py
+++ b/fluids/units.py
@@ -355,6 +355,8 @@ def wraps_numpydoc(ureg, strict=True):
 
         in_vars = copy(parsed_info["Parameters"]["vars"])
         in_units = copy(parsed_info["Parameters"]["units"])
+        # Arguments which are themselves arrays cannot be vectorized over
+        array_vars = {i for i, j in zip(in_vars, parsed_info["Parameters"]["types"]) if "array" in j}
         if "Other Parameters" in parsed_info:
             in_vars += parsed_info["Other Parameters"]["vars"]
             in_units += parsed_info["Other Parameters"]["units"]
@@ -389,7 +391,8 @@ def wraps_numpydoc(ureg, strict=True):
             for name, val in kw.items():
                 unit = in_vars_to_dict[name]
                 kwargs[name] = convert_input(val, unit, ureg, strict)
-            if any(type(i.m) == np.ndarray for i in list(kw.values()) + list(values) if type(i) == u.Quantity):
+            given = list(zip(in_vars, values)) + list(kw.items())
+            if any(type(i.m) == np.ndarray for name, i in given if type(i) == u.Quantity and name not in array_vars):
                 result = getattr(fluids.vectorized, func.__name__)(*conv_values, **kwargs)
             else:
                 result = func(*conv_values, **kwargs)
-- 
2.43.0


From 10eb1aa06876f0f79d0b0f4b1f55f64dd2ce8259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:16 +0000
Subject: [PATCH 085/115] fix: Reynolds numbers of fittings are dimensionless
 in the unit-aware interface

---
 fluids/fittings.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fluids/fittings.py b/fluids/fittings.py
index 0b8ccf6..e139e47 100644
--- a/fluids/fittings.py
+++ b/fluids/fittings.py
@@ -1164,7 +1164,7 @@ def bend_rounded_Miller(Di: float, angle: float, Re: float, rc: float | None=Non
         Angle of bend, [degrees]
     Re : float
         Reynolds number of the pipe (no specification if inlet or outlet
-        properties should be used), [m]
+        properties should be used), [-]
     rc : float, optional
         Radius of curvature of the entrance, [m]
     bend_diameters : float, optional
@@ -1567,7 +1567,7 @@ def bend_miter_Miller(Di: float, angle: float, Re: float, roughness: float=0.0,
         Angle of miter bend, [degrees]
     Re : float
         Reynolds number of the pipe (no specification if inlet or outlet
-        properties should be used), [m]
+        properties should be used), [-]
     roughness : float, optional
         Roughness of bend wall, [m]
     L_unimpeded : float, optional
@@ -1937,7 +1937,7 @@ def contraction_sharp(Di1: float, Di2: float, fd: float | None=None, Re: float |
         Darcy friction factor in original pipe; used only in the Hooper method
         and will be  calculated from `Re` if not given, [-]
     Re : float, optional
-        Reynolds number of the pipe (used in Hooper method, [m]
+        Reynolds number of the pipe (used in Hooper method), [-]
     roughness : float, optional
         Roughness of original pipe (used in Hooper method only if no friction
         factor given), [m]
@@ -2323,7 +2323,7 @@ def contraction_conical(Di1: float, Di2: float, fd: float | None=None, l: float
         optional [degrees]
     Re : float, optional
         Reynolds number of the pipe (used in `Rennels` and `Hooper` method only
-        if no friction factor given), [m]
+        if no friction factor given), [-]
     roughness : float, optional
         Roughness of bend wall (used in Rennels method if no friction factor
         given), [m]
@@ -2829,7 +2829,7 @@ def diffuser_conical(Di1: float, Di2: float, l: float | None=None, angle: float
         Darcy friction factor [-]
     Re : float, optional
         Reynolds number of the pipe (used in Rennels method only if no friction
-        factor given), [m]
+        factor given), [-]
     roughness : float, optional
         Roughness of bend wall (used in Rennels method if no friction factor
         given), [m]
-- 
2.43.0


From 009746414f872cb874d0a47e37b706d0c6e5fb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:16 +0000
Subject: [PATCH 086/115] fix: SA_tank dish and knuckle parameters are
 dimensionless in the unit-aware interface

---
 fluids/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index f889654..9f1cc4a 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -1491,13 +1491,13 @@ def SA_tank(D: float, L: float, sideA: str | None=None, sideB: str | None=None,
         The distance the head as specified by sideB extends up or to the right
         from the main cylindrical section, [m]
     sideA_f : float, optional
-        Dish-radius parameter for side A; fD  = dish radius [1/m]
+        Dish-radius parameter for side A; fD  = dish radius [-]
     sideA_k : float, optional
-        knuckle-radius parameter for side A; kD = knuckle radius [1/m]
+        knuckle-radius parameter for side A; kD = knuckle radius [-]
     sideB_f : float, optional
-        Dish-radius parameter for side B; fD  = dish radius [1/m]
+        Dish-radius parameter for side B; fD  = dish radius [-]
     sideB_k : float, optional
-        knuckle-radius parameter for side B; kD = knuckle radius [1/m]
+        knuckle-radius parameter for side B; kD = knuckle radius [-]
 
     Returns
     -------
-- 
2.43.0


From d796d73104947e7e3e16eff8238b44fb608a7760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:16 +0000
Subject: [PATCH 087/115] fix: units of RectangularFinExchanger attributes

---
 fluids/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 9f1cc4a..40a9ff1 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4378,10 +4378,10 @@ class RectangularFinExchanger:
     blockage_ratio : float
         The fraction of the layer which is blocked to flow by the fins,
         :math:`\text{blockage ratio} = \frac{s\cdot h - s\cdot t - t(h-t)}{s\cdot h}`,
-        [m]
+        [-]
     A_channel : float
         Flow area of a single channel in a single layer,
-        :math:`\text{channel area} = (s-t)(h-t)`, [m]
+        :math:`\text{channel area} = (s-t)(h-t)`, [m^2]
     P_channel : float
         Wetted perimeter of a single channel in a single layer,
         :math:`\text{channel perimeter} = 2(s-t) + 2(h-t)`, [m]
@@ -4406,7 +4406,7 @@ class RectangularFinExchanger:
         The product of the height, width, and length of the HX, [m^3]
     A_specific_HX : float
         The specific surface area of the heat exchanger - square meters per
-        meter cubed, [m^3]
+        meter cubed, [m^2/m^3]
 
     Notes
     -----
-- 
2.43.0


From c7930056bb45b899f09dc5ace0e4cd675120f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:16 +0000
Subject: [PATCH 088/115] fix: HyperbolicCoolingTower arguments through the
 unit-aware interface

---
 fluids/geometry.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 40a9ff1..a0df9e3 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4554,19 +4554,19 @@ class HyperbolicCoolingTower:
     D_throat : float, optional
         The diameter of the cooling tower at its minimum section, called its
         throat; where the two hyperbolas meet, [m]
-    h_throat : float, optional
+    H_throat : float, optional
         The elevation of the cooling tower's throat (its minimum section; where
         the two hyperbolas meet), [m]
-    inlet_rounding : float, optional
-        Radius of an optional rounded protrusion from the lip of the cooling
-        tower shell base, which curves upwards from the lip (used to reduce
-        the dead zone area rather than having a flat lip), [m]
     H_support : float, optional
         The height of each support column, [m]
     D_support : float, optional
         The diameter of each support column, [m]
     n_support : int, optional
-        The number of support columns of the cooling tower, [m]
+        The number of support columns of the cooling tower, [-]
+    inlet_rounding : float, optional
+        Radius of an optional rounded protrusion from the lip of the cooling
+        tower shell base, which curves upwards from the lip (used to reduce
+        the dead zone area rather than having a flat lip), [m]
 
     Attributes
     ----------
-- 
2.43.0


From 5d976a6e1f0d722aaa2864839477f51300cb2469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:16 +0000
Subject: [PATCH 089/115] fix: positional arguments of HelicalCoil through the
 unit-aware interface

---
 fluids/geometry.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index a0df9e3..8b36bb3 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -3956,23 +3956,23 @@ class HelicalCoil:
     Do : float
         Diameter of the spiral as measured from the center of the coil on one
         side to the center of the coil on the other side, [m]
-    Do_total : float, optional
-        Diameter of the spiral as measured from one edge of the tube to the
-        other edge; equal to Do + Dt; either `Do` or `Do_total` may be
-        specified and the other will be calculated [m]
     pitch : float, optional
         Height change from one coil to the next as measured from the middles
         of the tube, [m]
     H : float, optional
         Height of the spiral, as measured from the middle of the bottom of the
         tube to the middle of the top of the tube, [m]
+    N : float, optional
+        Number of coil turns; may be specified along with `pitch` instead of
+        specifying `H` or `H_total`, [-]
     H_total : float, optional
         Height of the spiral as measured from one edge of the tube to the other
         edge; equal to `H_total` + `Dt`; either may be specified and the other
         will be calculated [m]
-    N : float, optional
-        Number of coil turns; may be specified along with `pitch` instead of
-        specifying `H` or `H_total`, [-]
+    Do_total : float, optional
+        Diameter of the spiral as measured from one edge of the tube to the
+        other edge; equal to Do + Dt; either `Do` or `Do_total` may be
+        specified and the other will be calculated [m]
     Di : float, optional
         Inner diameter of the tube; if specified, inside and annulus properties
         will be calculated, [m]
-- 
2.43.0


From 5d9c7583f684e296c147012ff4e825059986d7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:55 +0000
Subject: [PATCH 090/115] fix: repr of a HelicalCoil without an inner diameter

---
 fluids/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 8b36bb3..b5f4435 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4105,8 +4105,8 @@ outer diameter={self.Dt} m, number of turns={self.N}, pitch={self.pitch} m"
         self.total_inlet_area = pi/4.*self.Dt**2
         self.total_volume = self.total_inlet_area*self.tube_length
 
+        self.Di = Di
         if Di is not None:
-            self.Di = Di
             self.inner_surface_area = self.tube_length*pi*self.Di
             self.inlet_area = pi/4.*self.Di**2
             self.inner_volume = self.inlet_area*self.tube_length
-- 
2.43.0


From 533a303c9691a3b3c479f0ad53ea5d3b2f04ce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:55 +0000
Subject: [PATCH 091/115] fix: ATMOSPHERE_NRLMSISE00 takes f107 through the
 unit-aware interface

---
 fluids/atmosphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/atmosphere.py b/fluids/atmosphere.py
index 2ab0287..a785ac5 100644
--- a/fluids/atmosphere.py
+++ b/fluids/atmosphere.py
@@ -358,10 +358,10 @@ class ATMOSPHERE_NRLMSISE00:
         Daily average 10.7 cm solar flux measurement of the strength of solar
         emissions on the 100 MHz band centered on 2800 MHz, averaged hourly; in
         sfu units, which are multiples of 10^-22 W/m^2/Hz; use 150 as a default
-        [10^-22 W/m^2/Hz]
+        [-]
     f107_avg : float, optional
         81-day sfu average; centered on specified day if possible, otherwise
-        use the previous days [10^-22 W/m^2/Hz]
+        use the previous days, in sfu units of 10^-22 W/m^2/Hz [-]
     geomagnetic_disturbance_indices : list of float, optional
         List of the 7 following `Ap` indexes also known as planetary magnetic
         indexes. Has a negligible effect on the calculation. 4 is the default
-- 
2.43.0


From f56c27aabcceebc24492f9aef1bcef862293975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:46 +0000
Subject: [PATCH 092/115] fix: repr of a PlateExchanger without a port, width,
 length or number of plates

---
 fluids/geometry.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index b5f4435..d5515f1 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -4267,7 +4267,7 @@ chevron_angles={} degrees, area enhancement factor={:g}".format(self.a, self.wav
             s += f", width={self.width:g} m, length={self.length:g} m"
         if self.d_port:
             s += f", port diameter={self.d_port:g} m"
-        if self.plates:
+        if self.plates and self.width and self.length:
             s += f", heat transfer area={self.A_heat_transfer:g} m^2, {self.plates:g} plates>"
         else:
             s += ">"
@@ -4310,16 +4310,11 @@ chevron_angles={} degrees, area enhancement factor={:g}".format(self.a, self.wav
         self.D_eq = 4*self.amplitude # Equivalent diameter for inter-plate spacing
         self.D_hydraulic = 4*self.amplitude/self.plate_enlargement_factor # Get better results when correlations use this
 
-        if width is not None:
-            self.width = width
-        if length is not None:
-            self.length = length
-        if thickness is not None:
-            self.thickness = thickness
-        if d_port is not None:
-            self.d_port = d_port
-        if plates is not None:
-            self.plates = plates
+        self.width = width
+        self.length = length
+        self.thickness = thickness
+        self.d_port = d_port
+        self.plates = plates
 
         if d_port is not None and length is not None:
             self.length_port = length + d_port # port center to port center along the direction of flow
-- 
2.43.0


From 9dcb8c065f964613cb55145fe334f2cad0de36b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:36 +0000
Subject: [PATCH 093/115] fix: vectorized functions do not truncate results
 after an integer one, and accept integers everywhere

---
 fluids/vectorized.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/fluids/vectorized.py b/fluids/vectorized.py
index d072296..947b6ba 100644
--- a/fluids/vectorized.py
+++ b/fluids/vectorized.py
@@ -20,6 +20,8 @@ OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 SOFTWARE.
 """
 
+import functools
+
 import fluids as normal_fluids
 from fluids.numerics import FakePackage
 from fluids.numerics import numpy as np
@@ -62,10 +64,30 @@ if isinstance(np, FakePackage):
     pass
 else:
     import types
+
+    def python_scalars(func):
+        """np.vectorize calls the function once with numpy scalars, and takes the
+        types of all results from those of that call. Numpy integers do not
+        behave like python integers, and an integer first result must not
+        truncate the others.
+        """
+        def to_float(value):
+            return float(value) if type(value) is int else value
+
+        @functools.wraps(func)
+        def wrapper(*args, **kwargs):
+            args = [v.item() if isinstance(v, np.generic) else v for v in args]
+            kwargs = {k: v.item() if isinstance(v, np.generic) else v for k, v in kwargs.items()}
+            result = func(*args, **kwargs)
+            if type(result) is tuple:
+                return tuple([to_float(v) for v in result])
+            return to_float(result)
+        return wrapper
+
     for name in dir(normal_fluids):
         obj = getattr(normal_fluids, name)
         if isinstance(obj, types.FunctionType):
-            obj = np.vectorize(obj)
+            obj = np.vectorize(python_scalars(obj))
         elif isinstance(obj, str) and name in bad_names:
             continue
         __all__.append(name)
-- 
2.43.0


From ddaa5072f3f8a7fd7e51dd632480f7f826da4f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:37 +0000
Subject: [PATCH 094/115] fix: compiled differential_pressure_meter_solver
 found upstream pressures below the downstream one

---
 fluids/flow_meter.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/fluids/flow_meter.py b/fluids/flow_meter.py
index 0d7b492..1bd3f9b 100644
--- a/fluids/flow_meter.py
+++ b/fluids/flow_meter.py
@@ -93,7 +93,7 @@ Flow Meter Utilities
 """
 from __future__ import annotations
 
-from math import acos, exp, log, log10, pi, sqrt
+from math import acos, exp, inf, log, log10, pi, sqrt
 
 from fluids.constants import inch, inch_inv, pi_inv, root_two
 from fluids.core import Froude_densimetric
@@ -2657,6 +2657,11 @@ def differential_pressure_meter_C_epsilon(D: float, D2: float, m: float, P1: flo
 
 
 
+def _dp_meter_solver_secant(err, guess, args, low, high):
+    # numba 0.68 passes the keyword arguments of a call in a `try` block by
+    # position, in the wrong places; so they are written here.
+    return secant(err, guess, args=args, low=low, high=high, bisection=True)
+
 def err_dp_meter_solver_m(m_D: float, D: float, D2: float, P1: float, P2: float, rho: float, mu: float, k: float, meter_type: str, taps: str | None, tap_position: str | None, C_specified: float | None, epsilon_specified: float | None) -> float:
     m = m_D*D
     C, epsilon = differential_pressure_meter_C_epsilon(D, D2, m, P1, P2, rho,
@@ -2814,24 +2819,24 @@ def differential_pressure_meter_solver(D: float, rho: float, mu: float, k: float
         args = (D, m, P1, P2, rho, mu, k, meter_type, taps, tap_position, C_specified, epsilon_specified)
         try:
             try:
-                return secant(err_dp_meter_solver_D2, D*.3, args=args, high=D, low=D*1e-10, bisection=True)
+                return _dp_meter_solver_secant(err_dp_meter_solver_D2, D*.3, args, D*1e-10, D)
             except:
-                return secant(err_dp_meter_solver_D2, D*.75, args=args, high=D, low=D*1e-10, bisection=True)
+                return _dp_meter_solver_secant(err_dp_meter_solver_D2, D*.75, args, D*1e-10, D)
         except:
             return brenth(err_dp_meter_solver_D2, D*(1-1E-9), D*5E-3, args=args)
     elif P2 is None and D is not None and D2 is not None and m is not None and P1 is not None:
         args = (D, D2, m, P1, rho, mu, k, meter_type, taps, tap_position, C_specified, epsilon_specified)
         try:
             try:
-                return secant(err_dp_meter_solver_P2, P1*0.9, low=P1*0.5, args=args, high=P1, bisection=True)
+                return _dp_meter_solver_secant(err_dp_meter_solver_P2, P1*0.9, args, P1*0.5, P1)
             except:
-                return secant(err_dp_meter_solver_P2, P1*0.9, low=P1*1e-10, args=args, high=P1, bisection=True)
+                return _dp_meter_solver_secant(err_dp_meter_solver_P2, P1*0.9, args, P1*1e-10, P1)
         except:
             return brenth(err_dp_meter_solver_P2, P1*(1-1E-9), P1*0.5, args=args)
     elif P1 is None and D is not None and D2 is not None and m is not None and P2 is not None:
         args = (D, D2, m, P2, rho, mu, k, meter_type, taps, tap_position, C_specified, epsilon_specified)
         try:
-            return secant(err_dp_meter_solver_P1, P2*1.5, args=args, low=P2, bisection=True)
+            return _dp_meter_solver_secant(err_dp_meter_solver_P1, P2*1.5, args, P2, inf)
         except:
             return brenth(err_dp_meter_solver_P1, P2*(1+1E-9), P2*1.4, args=args)
     else:
-- 
2.43.0


From 2598200d660f3a5a9a5b8b89b16aec4467890522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:37 +0000
Subject: [PATCH 095/115] fix: compiled trunc_exp truncates

---
 fluids/numerics/special.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluids/numerics/special.py b/fluids/numerics/special.py
index b9495ee..dc3a278 100644
--- a/fluids/numerics/special.py
+++ b/fluids/numerics/special.py
@@ -129,6 +129,9 @@ def py_catanh(z):
 
 def trunc_exp(x, trunc=1.7976931348622732e+308):
     # maximum value occurs at 709.782712893384 exactly
+    if x > 709.782712893384:
+        # compiled code does not raise an exception on overflow
+        return trunc
     try:
         return exp(x)
     except:
-- 
2.43.0


From 4da834f37095020c790e6ea3b9815a69519a853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:50 +0000
Subject: [PATCH 096/115] fix: compiled volumes of full horizontal guppy and
 torispherical tanks were nan

---
 fluids/geometry.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index d5515f1..4dfeb0b 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -457,9 +457,9 @@ def V_horiz_guppy(D: float, L: float, a: float, h: float, headonly: bool=False)
     elif h > D:
         h = D
     R = 0.5*D
-    x0 = sqrt(2.*R*h - h*h)
+    x0 = sqrt(h*(D - h))
     Af = R*R*acos((R-h)/R) - (R-h)*x0
-    Vf = (2./3.0)*a*R*R*acos(1. - h/R) + (2./9.)*a/R*x0*(2.0*h - 3.0*R)*(h + R)
+    Vf = (2./3.0)*a*R*R*acos((R-h)/R) + (2./9.)*a/R*x0*(2.0*h - 3.0*R)*(h + R)
     if headonly:
         Vf = Vf*0.5
     else:
@@ -549,7 +549,7 @@ def V_horiz_spherical(D: float, L: float, a: float, h: float, headonly: bool=Fal
     R = 0.5*D
     r = 0.5*(a*a + R*R)/abs(a)
     w = R - h
-    y = sqrt(2.0*R*h - h*h)
+    y = sqrt(h*(D - h))
     if isclose(r, R, rel_tol=2e-15):
         # Handle the case of small issues in calculation of `r` blowing up the calculation
         z = 0.0
@@ -566,7 +566,8 @@ def V_horiz_spherical(D: float, L: float, a: float, h: float, headonly: bool=Fal
     elif abs(a) >= 0.01*D:
         R_r = R/r
         Vf = a/abs(a)*(
-        (2.0/3.0)*r*r*r*(acos((R*R - r*w)/(R*(w-r))) + acos((R*R+r*w)/(R*(w+r)))
+        (2.0/3.0)*r*r*r*(acos(max(-1.0, min(1.0, (R*R - r*w)/(R*(w-r)))))
+        + acos(max(-1.0, min(1.0, (R*R+r*w)/(R*(w+r)))))
         - z/r*(2.0+R_r*R_r)*acos(w/R))
         - 2.0*(w*r*r - w*w*w*(1.0/3.0))*atan(y/z) + (4.0/3.0)*w*y*z)
     else:
@@ -586,7 +587,7 @@ def V_horiz_torispherical_toint_1(x: float, w: float, c10: float, c11: float) ->
     # No analytical integral available in MP
     n = c11 + sqrt(c10 - x*x)
     n2 = n*n
-    t = sqrt(n2 - w*w)
+    t = sqrt(max(n2 - w*w, 0.0)) # rounding at the limit of the integral
     return n2*asin(t/n) - w*t
 
 def V_horiz_torispherical_toint_2(x: float, w: float, c10: float, c11: float, g: float, g2: float) -> float:
@@ -706,7 +707,7 @@ def V_horiz_torispherical(D: float, L: float, f: float, k: float, h: float, head
     R = 0.5*D
     R2 = R*R
     hh = h*h
-    Af = R2*acos((R-h)/R) - (R-h)*sqrt(2.0*R*h - hh)
+    Af = R2*acos((R-h)/R) - (R-h)*sqrt(h*(D - h))
     r = f*D
     alpha = asin((1.0 - 2.0*k)/(2.*(f - k)))
     cos_alpha = cos(alpha)
-- 
2.43.0


From 1cc8fbe871323f68e3b868de54b1f903da3cff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:46 +0000
Subject: [PATCH 097/115] fix: volume of very shallow spherical heads loses no
 digits (the compiled one was wrong by percents)

---
 fluids/geometry.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 4dfeb0b..c03a24b 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -466,9 +466,11 @@ def V_horiz_guppy(D: float, L: float, a: float, h: float, headonly: bool=False)
         Vf += Af*L
     return Vf
 
-def _V_horiz_spherical_toint(x: float, r2: float, R2: float, den_inv: float) -> float:
-    x2 = x*x
-    return (r2 - x2)*atan(sqrt((R2 - x2)*den_inv))
+def _V_horiz_spherical_toint(x: float, z: float, R2: float, den_inv: float) -> float:
+    # (r^2 - x^2)*atan(y/z) - y*z where y = sqrt(R^2 - x^2); those terms nearly
+    # cancel in a shallow head, so the difference is expanded in t = y/z < 0.05
+    t2 = max((R2 - x*x)*den_inv, 0.0)
+    return z*z*t2*sqrt(t2)*(2.0/3.0 - t2*(2.0/15.0 - t2*(2.0/35.0 - t2*(2.0/63.0 - t2*(2.0/99.0)))))
 
 
 def V_horiz_spherical(D: float, L: float, a: float, h: float, headonly: bool=False) -> float:
@@ -571,11 +573,11 @@ def V_horiz_spherical(D: float, L: float, a: float, h: float, headonly: bool=Fal
         - z/r*(2.0+R_r*R_r)*acos(w/R))
         - 2.0*(w*r*r - w*w*w*(1.0/3.0))*atan(y/z) + (4.0/3.0)*w*y*z)
     else:
-        r2 = r*r
         R2 = R*R
-        den_inv = 1.0/(r2 - R2)
-        integrated = quad(_V_horiz_spherical_toint, w, R, args=(r2, R2, den_inv))[0] # , epsrel=1.49e-13,
-        Vf = a/abs(a)*(2.0*integrated - Af*z)
+        den_inv = 1.0/(z*z)
+        # The integral of `y` is `0.5*Af`
+        integrated = quad(_V_horiz_spherical_toint, w, R, args=(z, R2, den_inv))[0] # , epsrel=1.49e-13,
+        Vf = a/abs(a)*2.0*integrated
     if headonly:
         Vf = 0.5*Vf
     else:
-- 
2.43.0


From 3d0d6023ea6cfa00ae49c06ccee8920ecab7c225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:35 +0000
Subject: [PATCH 098/115] fix: partial area of torispherical heads does not
 evaluate a singular expression (nan compiled)

---
 fluids/geometry.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index c03a24b..1ded2b6 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -2468,11 +2468,9 @@ def SA_partial_horiz_torispherical_head(D: float, f: float, k: float, h: float)
             SA = 2.0*quad(_SA_partial_horiz_torispherical_head_int_2, 0.0, a2, args=(t2, s, c1))[0] # numba: delete
             # print('SA', SA)
 #        SA = 2.0*quad(_SA_partial_horiz_torispherical_head_int_2, 0.0, a2, args=(t2, s, c1))[0] # numba: uncomment
-        try:
-            high = _SA_partial_horiz_torispherical_head_int_1(f*D*sin_alpha, b, c)
-        except:
-            # Expression with the substitution is equally complicated
-            high = _SA_partial_horiz_torispherical_head_int_1(f*D*sin_alpha*(1.0 + 1e-14), b, c)
+        # The limit of the antiderivative at the edge of the dish, `f*D*sin_alpha`,
+        # where its expression divides by zero; a quarter of the cap area over `f*D`
+        high = 0.5*pi*a1
         int_1_term1 = high - _SA_partial_horiz_torispherical_head_int_1(R-h, b, c)
         SA += 2.0*f*D*int_1_term1
     else:
-- 
2.43.0


From b80b793873588f3464ad65584a9a18b2410764f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:35 +0000
Subject: [PATCH 099/115] fix: compiled isothermal_gas: no nan at P1 == P2, no
 ZeroDivisionError in long pipes

---
 fluids/compressible.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluids/compressible.py b/fluids/compressible.py
index 4046b31..c5d3e8e 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -516,10 +516,10 @@ def P_critical_flow(P: float, k: float) -> float:
 
 def _isothermal_lambertw_term(fd: float, D: float, L: float) -> float:
     """Not part of the public API. Calculates `lambertw(-exp(-(D + L*fd)/D), -1)`,
-    also where the exponential underflows (long pipes, `fd*L/D` over ~745).
+    also where the exponential is tiny or underflows (long pipes, `fd*L/D` over ~100).
     """
     x = (D + L*fd)/D
-    if x < 700.0:
+    if x < 100.0:
         # Correct branch of lambertw found by trial and error
         return float((lambertw(-exp((-D - L*fd)/D), -1)).real)
     # Newton's method on w + log(-w) + x = 0, the logarithm of w*exp(w) = -exp(-x)
@@ -917,7 +917,7 @@ f"due to the formation of choked flow at P2={Pcf:f}, specified outlet pressure w
         if P2 > P1:
             raise ValueError("Specified outlet pressure is larger than the "
                              "inlet pressure; fluid will flow backwards.")
-        return sqrt(0.0625*pi*pi*D**4*rho/(P1*(fd*L/D + 2.0*log(P1/P2)))*(P1*P1 - P2*P2))
+        return sqrt(0.0625*pi*pi*D**4*rho/(P1*(fd*L/D + 2.0*log(P1/P2)))*((P1 - P2)*(P1 + P2)))
     elif L is None and P1 is not None and P2 is not None and D is not None and m is not None:
         return D*(pi*pi*D**4*rho*(P1*P1 - P2*P2) - 32.0*P1*m*m*log(P1/P2))/(16.0*P1*fd*m*m)
     elif P1 is None and L is not None and P2 is not None and D is not None and m is not None:
-- 
2.43.0


From 1e84a0ff79fb7ace9b06234bc28c0088dc733a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:36 +0000
Subject: [PATCH 100/115] fix: the integral over the dish of a torispherical
 head in real numbers (nan or an internal error compiled)

---
 fluids/geometry.py | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/fluids/geometry.py b/fluids/geometry.py
index 1ded2b6..17522cb 100644
--- a/fluids/geometry.py
+++ b/fluids/geometry.py
@@ -132,7 +132,7 @@ from __future__ import annotations
 from cmath import sqrt as csqrt
 from math import acos, acosh, asin, atan, atan2, cos, degrees, isclose, log, log1p, pi, radians, sin, sqrt, tan
 
-from fluids.numerics import UnconvergedError, brenth, cacos, catan, chebval, derivative, ellipe, ellipeinc, ellipkinc, linspace, newton, quad, secant, translate_bound_func
+from fluids.numerics import UnconvergedError, brenth, catan, chebval, derivative, ellipe, ellipeinc, ellipkinc, linspace, newton, quad, secant, translate_bound_func
 
 __all__: list[str] = [
     "TANK",
@@ -2260,28 +2260,12 @@ def SA_partial_horiz_guppy_head(D: float, a: float, h: float) -> float:
     return SA
 
 def _SA_partial_horiz_torispherical_head_int_1(x: float, b: float, c: float) -> float:
-    x = float(x) # double check python float here to avoid numpy not erroring on sqrt
-    # May be best to always use complex numbers here
-    # print('_SA_partial_horiz_torispherical_head_int_1', x, b, c)
-    x0 = x*x
-    x1 = b - x0
-    x2 = sqrt(x1)
-    x3 = -b + x0
-    x4 = c*c
-    try:
-        x5 = 1.0/sqrt(x1 - x4)
-    except:
-        x5 = 1.0/csqrt(x1 - x4) # type: ignore
-    x6 = x3 + x4
-    x7 = sqrt(b)
-    try:
-        x3_pow = x3**(-1.5)
-    except:
-        x3_pow = (x3+0j)**(-1.5)
-    ans = (x*cacos(c/x2) + x3_pow*x5*(-c*x1*csqrt(-x6*x6)*catan(x*x2/(csqrt(x3)*csqrt(x6)))
-        + x6*x7*csqrt(-x1*x1)*catan(c*x*x5/x7))/csqrt(-x6/x1))
-    # print('_SA_partial_horiz_torispherical_head_int_1', abs(ans.real))
-    return abs(ans.real)
+    # Integral of acos(c/sqrt(b - x^2)) from 0 to x, where x^2 <= b - c^2
+    x1 = b - x*x
+    g2 = b - c*c
+    x2 = sqrt(max(g2 - x*x, 0.0))
+    x3 = sqrt(b)
+    return x*acos(min(c/sqrt(x1), 1.0)) - c*atan2(x, x2) + x3*atan2(c*x, x3*x2)
 
 def _SA_partial_horiz_torispherical_head_int_2(y: float, t2: float, s: float, c1: float) -> float:
     # May be best to always use complex numbers here
-- 
2.43.0


From f1380ffdf6491b05a98f04c28f3a0e9596ce5046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:15 +0000
Subject: [PATCH 101/115] fix: Colebrook with tol=0 left the precision of
 mpmath changed

---
 fluids/friction.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fluids/friction.py b/fluids/friction.py
index 29feebf..2022937 100644
--- a/fluids/friction.py
+++ b/fluids/friction.py
@@ -433,19 +433,19 @@ def Colebrook(Re: float, eD: float, tol: float | None=None) -> float:
 #        den = log(10)*eD_Re - 18.574*lambert_term
 #        return float(log(10)**2*Rational('3.7')**2*Rational('2.51')**2/(den*den))
         try:
-            from mpmath import lambertw as mp_lambertw
-            from mpmath import log, mp, mpf
-            from mpmath import sqrt as sqrtmp
+            from mpmath import MPContext
         except ImportError:
             raise ImportError("For exact solutions, the `mpmath` library is "
                               "required")
+        mp = MPContext() # not the shared context, whose precision is the user's
         mp.dps = 50
+        mpf = mp.mpf
         Re = mpf(Re)
         eD_Re = mpf(eD)*Re
         sub = 1/mpf("6.3001")*10**(1/mpf("9.287")*eD_Re)*Re*Re
-        lambert_term = mp_lambertw(log(sqrtmp(10))*sqrtmp(sub))
-        den = log(10)*eD_Re - 18.574*lambert_term
-        return float(log(10)**2*mpf("3.7")**2*mpf("2.51")**2/(den*den))
+        lambert_term = mp.lambertw(mp.log(mp.sqrt(10))*mp.sqrt(sub))
+        den = mp.log(10)*eD_Re - 18.574*lambert_term
+        return float(mp.log(10)**2*mpf("3.7")**2*mpf("2.51")**2/(den*den))
     if tol is None:
         try:
             eD_Re = eD*Re
-- 
2.43.0


From 790c8d4567b6dbcac1b406f897ddac7947484207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:15 +0000
Subject: [PATCH 102/115] fix: gas_liquid_viscosity_methods handed out its own
 table

---
 fluids/two_phase_voidage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/two_phase_voidage.py b/fluids/two_phase_voidage.py
index 4e61c1e..82392a2 100644
--- a/fluids/two_phase_voidage.py
+++ b/fluids/two_phase_voidage.py
@@ -2753,7 +2753,7 @@ def gas_liquid_viscosity_methods(rhol: float | None=None, rhog: float | None=Non
     """
     methods = ["McAdams", "Cicchitti", "Lin Kwok"]
     if rhol is not None and rhog is not None:
-        methods = liquid_gas_viscosity_correlations_list
+        methods = list(liquid_gas_viscosity_correlations_list)
     return methods
 _gas_liquid_viscosity_method_unknown = f"Method not recognized; available methods are {list(liquid_gas_viscosity_correlations.keys())}"
 
-- 
2.43.0


From 7c42b0d12ff640b53f19a7a8b499d45fff484fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:15 +0000
Subject: [PATCH 103/115] fix: central_diff_weights handed out its cache

---
 fluids/numerics/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 29ed7e0..1116f61 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -806,7 +806,7 @@ def central_diff_weights(points, divisions=1):
     # Check the cache
     key = (divisions, points)
     try:
-        return central_diff_weights_precomputed[key]
+        return list(central_diff_weights_precomputed[key])
     except:
         pass
 
@@ -832,7 +832,7 @@ def central_diff_weights(points, divisions=1):
     w = [i*factor for i in inverted[divisions]]
 #    w = [i*factor for i in (inv(X)[divisions]).tolist()]
     central_diff_weights_precomputed[key] = w
-    return w
+    return list(w)
 
 
 def derivative(func, x0, dx=1.0, n=1, args=(), order=3, scalar=True,
-- 
2.43.0


From afc6534a3ad3163963329d848906a97bbcd591d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:15 +0000
Subject: [PATCH 104/115] fix: liquid_jet_pump gave different solutions for the
 same inputs (unseeded random variations)

---
 fluids/jet_pump.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/jet_pump.py b/fluids/jet_pump.py
index 5791f05..9fd6610 100644
--- a/fluids/jet_pump.py
+++ b/fluids/jet_pump.py
@@ -441,7 +441,8 @@ def liquid_jet_pump(rhop, rhos, Kp=0.0, Ks=0.1, Km=.15, Kd=0.1,
     .. [4] Ejectors and Jet Pumps. Design and Performance for Incompressible
        Liquid Flow. 85032. ESDU International PLC, 1985.
     """
-    from random import uniform
+    from random import Random
+    uniform = Random(0).uniform # the same variations in every call
     solution_vars = ["d_nozzle", "d_mixing", "Qp", "Qs", "P1", "P2", "P5"]
     unknown_vars = []
     for i in solution_vars:
-- 
2.43.0


From 8a2ebfede195aa58c7033783ada545b8b86e08cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:10 +0000
Subject: [PATCH 105/115] fix: weather stations on the equator and the prime
 meridian were left out

---
 fluids/design_climate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 5d7c014..95172f8 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -647,8 +647,8 @@ def _load_station_data():
                         except:
                             continue
                 lat, lon = values[6], values[7]
-                # Some stations have no lat-long; this isn't useful
-                if lat and lon:
+                # Some stations have no lat-long, or zeros for both of them; this isn't useful
+                if lat is not None and lon is not None and (lat or lon):
                     _stations.append(IntegratedSurfaceDatabaseStation(*values))
                     temp_latlongs.append((lat, lon))
 
-- 
2.43.0


From 2a8c7215f65b8e4662dd33b53a10296ecfb69a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:10 +0000
Subject: [PATCH 106/115] fix: get_closest_station compared degrees of latitude
 and longitude instead of distances, and failed for match_max=1

---
 fluids/design_climate.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 95172f8..9bb8bf6 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -615,6 +615,13 @@ _latlongs = None
 _station_count = None
 _kd_tree = None
 
+def _unit_vectors(latlongs):
+    """Convert latitudes and longitudes in degrees to points on the unit sphere,
+    where the ordering of the straight distances is that of the true ones.
+    """
+    lat, lon = np.radians(latlongs).T
+    return np.column_stack((np.cos(lat)*np.cos(lon), np.cos(lat)*np.sin(lon), np.sin(lat)))
+
 def _load_station_data():
     """Read in the parsed data into
     1) a list of latitudes and longitudes, temporary, which will get converted to
@@ -652,10 +659,9 @@ def _load_station_data():
                     _stations.append(IntegratedSurfaceDatabaseStation(*values))
                     temp_latlongs.append((lat, lon))
 
-        # _latlongs must be unchanged as data is not copied
         _latlongs = np.array(temp_latlongs)
         _station_count = len(_stations)
-        _kd_tree = cKDTree(_latlongs)
+        _kd_tree = cKDTree(_unit_vectors(_latlongs))
 
 def get_station_count():
     """Get the total number of stations."""
@@ -676,7 +682,7 @@ def get_latlongs():
     return _latlongs
 
 def get_kd_tree():
-    """Get the KD-tree for spatial queries."""
+    """Get the KD-tree for spatial queries, of points on the unit sphere."""
     if _kd_tree is None:
         _load_station_data()
     return _kd_tree
@@ -728,9 +734,9 @@ def get_closest_station(latitude, longitude, minumum_recent_data=20140000,
     # bad data is returned if k > station_count
     station_count = get_station_count()
     stations = get_stations()
-    distances, indexes = get_kd_tree().query([latitude, longitude], k=min(match_max, station_count))
-    for i in indexes:
-        latlon = _latlongs[i]
+    point = _unit_vectors(np.array([[latitude, longitude]]))[0]
+    distances, indexes = get_kd_tree().query(point, k=min(match_max, station_count))
+    for i in np.atleast_1d(indexes):
         enddate = stations[i].END
         # Iterate for all indexes until one is found whose date is current
         if enddate > minumum_recent_data:
-- 
2.43.0


From 41be9abf9c937e5cfcc70048967511d95828c502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:10 +0000
Subject: [PATCH 107/115] fix: a GSOD pressure of 999.9 mbar was taken for a
 missing one

---
 fluids/design_climate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 9bb8bf6..cf2317b 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -875,8 +875,10 @@ gsod_int_fields = ("TEMP_COUNT", "DEWP_COUNT", "SLP_COUNT", "STP_COUNT",
 
 # Values which signify flags
 gsod_flag_chars = "*ABCDEFGHI"
-# Values which should be converted to None, as normally there is no value
+# Values which should be converted to None, as normally there is no value;
+# 999.9 is an ordinary pressure
 gsod_bad_values = frozenset(["99.99", "999.9", "9999.9"])
+gsod_bad_pressures = frozenset(["9999.9"])
 
 gsod_indicator_names = ["fog", "rain", "snow_ice", "hail", "thunder",
                         "tornado"]
@@ -938,7 +940,7 @@ def gsod_day_parser(line, SI=True, to_datetime=True):
     # Parse float values as floats
     for field in gsod_float_fields:
         value = obj[field].rstrip(gsod_flag_chars)
-        if value in gsod_bad_values:
+        if value in (gsod_bad_pressures if field in ("SLP", "STP") else gsod_bad_values):
             value = None
         else:
             value = float(value)
-- 
2.43.0


From c6661dd5165172c5bb669c4405ed27acbccba7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:10 +0000
Subject: [PATCH 108/115] fix: monthly averages of a GSOD station failed
 without the optional years

---
 fluids/design_climate.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index cf2317b..7e38ce0 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -476,6 +476,11 @@ class StationDataGSOD:
         year_month_averages = {}
         year_month_counts = {}
 
+        if older_year is None:
+            older_year = self.begin.year
+        if newer_year is None:
+            newer_year = self.end.year
+
         for year, data in self.parsed_data.items():
             if not (older_year <= year <= newer_year):
                 continue # Ignore out-of-range years easily
@@ -540,6 +545,11 @@ class StationDataGSOD:
         year_month_averages = {}
         year_month_counts = {}
 
+        if older_year is None:
+            older_year = self.begin.year
+        if newer_year is None:
+            newer_year = self.end.year
+
         for year, data in self.parsed_data.items():
             if not (older_year <= year <= newer_year):
                 continue # Ignore out-of-range years easily
-- 
2.43.0


From 3301458840fd247893cbf165b979e7a60671ef1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:10 +0000
Subject: [PATCH 109/115] fix: GSOD files of stations whose identifier starts
 with a zero or a letter were not found

---
 fluids/design_climate.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 7e38ce0..fd5bfd3 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -783,7 +783,13 @@ def get_station_year_text(WMO, WBAN, year, data_dir_override=None):
         WMO = 999999
     if WBAN is None:
         WBAN = 99999
-    station = str(int(WMO)) + "-" + str(WBAN)
+    # The identifiers in the file names have leading zeros; those of some
+    # stations start with a letter
+    try:
+        WMO = int(WMO)
+    except ValueError:
+        pass
+    station = str(WMO).zfill(6) + "-" + str(WBAN).zfill(5)
     if data_dir_override is None:
         gsod_year_dir = os.path.join(data_dir, "gsod", str(year))
     else:
-- 
2.43.0


From 958e1849ab2a152f4268b6ed3726822d2e42ab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:07 +0000
Subject: [PATCH 110/115] fix: the geocoding cache confused numeric addresses
 such as 01234 and 1234 (STRING has numeric affinity in sqlite)

---
 fluids/design_climate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index fd5bfd3..18ca511 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -114,7 +114,7 @@ class SimpleGeolocatorCache:
         self.connection = conn = sqlite3.connect(file_name)
         cursor = self.connection.cursor()
         cursor.execute("CREATE TABLE IF NOT EXISTS geopy ( "
-                       "address STRING PRIMARY KEY, latitude real, longitude real )")
+                       "address TEXT PRIMARY KEY, latitude real, longitude real )")
         self.connection.commit()
 
     def cached_address(self, address):
-- 
2.43.0


From 9e3f17a7928ea6e9c74f19945089f4d258cc851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:23 +0000
Subject: [PATCH 111/115] fix: ICAO identifiers of digits were converted to
 floats

---
 fluids/design_climate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/design_climate.py b/fluids/design_climate.py
index 18ca511..b61f6e6 100644
--- a/fluids/design_climate.py
+++ b/fluids/design_climate.py
@@ -657,7 +657,7 @@ def _load_station_data():
                         values[i] = None
                     else:
                         try:
-                            if i > 2:
+                            if i > 5: # the fields before are texts
                                 values[i] = float(v)
                             if int(v) == 99999:
                                 values[i] = None
-- 
2.43.0


From 8dd52c739a549bfd0fa0ee5b9c45abb4cbcade75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:50 +0000
Subject: [PATCH 112/115] fix: size_control_valve_g and low-Reynolds sizing
 report the FP, xTP, Rev and FR of the last iteration

full_output overwrote the values of the converged pass with those of the first
pass while the recursion unwound, so the reported factors did not satisfy the
sizing equation with the returned flow coefficient.
---
 fluids/control_valve.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/fluids/control_valve.py b/fluids/control_valve.py
index 61a79b3..42c9438 100644
--- a/fluids/control_valve.py
+++ b/fluids/control_valve.py
@@ -759,12 +759,11 @@ def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: floa
                     FR = Reynolds_factor(FL=FL, C=Ci, d=d, Rev=Rev, full_trim=False)
                 else:
                     FR = Reynolds_factor(FL=FL, C=Ci, d=d, Rev=Rev, full_trim=True)
-                if C/FR >= Ci:
-                    Ci = iterate_piping_laminar_l(Ci) # pragma: no cover
-
                 if full_output:
                     ans["Rev"] = Rev
                     ans["FR"] = FR
+                if C/FR >= Ci:
+                    Ci = iterate_piping_laminar_l(Ci) # pragma: no cover
                 return Ci
             C = iterate_piping_laminar_l(C)
     if full_output:
@@ -937,14 +936,14 @@ def size_control_valve_g(T: float, MW: float, mu: float, gamma: float, Z: float,
                 else:
                     # Non-choked flow with piping, equation 11a
                     C = Q/(N9*FP*P1*Y)*sqrt(MW*T*Z/x)
-                if Ci/C < 0.99 and iterations < MAX_ITER and Ci < MAX_C_POSSIBLE:
-                    C = iterate_piping_coef_g(C, iterations+1)
                 if full_output:  # numba: delete
                     ans["xTP"] = xTP  # numba: delete
                     ans["FP"] = FP  # numba: delete
                     ans["choked"] = choked  # numba: delete
                     if MAX_ITER == iterations or Ci >= MAX_C_POSSIBLE:  # numba: delete
                         ans["warning"] = "Not converged in inner loop"  # numba: delete
+                if Ci/C < 0.99 and iterations < MAX_ITER and Ci < MAX_C_POSSIBLE:
+                    C = iterate_piping_coef_g(C, iterations+1)
                 return C
 
 #            def err_piping_coeff(Ci):
@@ -977,11 +976,11 @@ def size_control_valve_g(T: float, MW: float, mu: float, gamma: float, Z: float,
                     FR = Reynolds_factor(FL=FL, C=Ci, d=d, Rev=Rev, full_trim=False)
                 else:
                     FR = Reynolds_factor(FL=FL, C=Ci, d=d, Rev=Rev, full_trim=True)
-                if C/FR >= Ci:
-                    Ci = iterate_piping_laminar_g(Ci)
                 if full_output:  # numba: delete
                     ans["FR"] = FR  # numba: delete
                     ans["Rev"] = Rev  # numba: delete
+                if C/FR >= Ci:
+                    Ci = iterate_piping_laminar_g(Ci)
                 return Ci
             C = iterate_piping_laminar_g(C)
     if full_output:  # numba: delete
-- 
2.43.0


From 62466d52ebb012c715ec051f77ffdb9516f9c91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:24 +0000
Subject: [PATCH 113/115] fix: isothermal_gas solves numerically for P2 where
 the Lambert W argument is denormal

---
 fluids/compressible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluids/compressible.py b/fluids/compressible.py
index c5d3e8e..5a5e2fe 100644
--- a/fluids/compressible.py
+++ b/fluids/compressible.py
@@ -956,7 +956,8 @@ f"due to the formation of choked flow at P2={Pcf:f}, specified outlet pressure w
             lambert_ans = float(lambertw(arg, k=-1).real)
             # Large overflow problem here; also divide by zero problems!
             # Fail and try a numerical solution if it doesn't work.
-            if isinf(lambert_ans):
+            # A denormal argument has lost its digits, and so would the solution.
+            if isinf(lambert_ans) or arg > -2.2250738585072014e-308:
                 raise ValueError("Should not be infinity")
             P2 = P1/exp((-C*m**2+lambert_ans*m**2+B*P1)/m**2/2.)
             if not (P2 < P1):
-- 
2.43.0


From eb96ea8547a635e28fc89dd7939557e7208efb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:42 +0000
Subject: [PATCH 114/115] fix: Colebrook(tol=0) keeps its full precision; a
 double constant limited the exact solution to about 1e-9 at large Re*eD

---
 fluids/friction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/friction.py b/fluids/friction.py
index 2022937..e7dc06d 100644
--- a/fluids/friction.py
+++ b/fluids/friction.py
@@ -444,7 +444,7 @@ def Colebrook(Re: float, eD: float, tol: float | None=None) -> float:
         eD_Re = mpf(eD)*Re
         sub = 1/mpf("6.3001")*10**(1/mpf("9.287")*eD_Re)*Re*Re
         lambert_term = mp.lambertw(mp.log(mp.sqrt(10))*mp.sqrt(sub))
-        den = mp.log(10)*eD_Re - 18.574*lambert_term
+        den = mp.log(10)*eD_Re - mpf("18.574")*lambert_term
         return float(mp.log(10)**2*mpf("3.7")**2*mpf("2.51")**2/(den*den))
     if tol is None:
         try:
-- 
2.43.0


From 3275b418b4036fd9ec30163b3d1e030e5f560b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:30 +0000
Subject: [PATCH 115/115] fix: assert_close2d keeps comparing after an element
 only numpy's combined tolerance accepts

---
 fluids/numerics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluids/numerics/__init__.py b/fluids/numerics/__init__.py
index 1116f61..a77914b 100644
--- a/fluids/numerics/__init__.py
+++ b/fluids/numerics/__init__.py
@@ -1955,7 +1955,7 @@ def assert_close2d(a, b, rtol=1e-7, atol=0.0):
                     pass
             if not good:
                 from numpy.testing import assert_allclose
-                return assert_allclose(a1, b1, rtol=rtol, atol=atol)
+                assert_allclose(a1, b1, rtol=rtol, atol=atol)
 
 
 
-- 
2.43.0

