From b31bfbd9082be9959ea043919f4980cf61e8ee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 01/24] fix: Black76Option finite difference delta, gamma and
 lambda raised TypeError

The base greeks differentiate with respect to S, but Black76Option names its
underlying FT, so set_param("S", ...) passed an unexpected argument to __init__.
---
 src/finoptions/vanillaoptions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index 0479872..ed6a042 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -587,6 +587,9 @@ class Black76Option(GBSOption):
         None
         """
 
+        if x == "S":
+            x = "FT"  # the base greeks refer to the underlying as S
+
         tmp = self.get_params()
         tmp[x] = value
 
-- 
2.43.0


From 032349022d816d45d209b7f52c3e0adbf8f4483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 02/24] fix: GBSOption rho and greeks raised ValueError when b
 is an array

The b != 0 test decided between two formulas with an if statement.
---
 src/finoptions/vanillaoptions.py | 35 ++++++++++++++------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index ed6a042..735f71c 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -300,31 +300,26 @@ class GBSOption(Option):
         if method == "analytic":
             if call == True:
                 price = self.call()
-                if self._b != 0:
-                    result = (
-                        self._t
-                        * self._K
-                        * _np.exp(-self._r * self._t)
-                        * self._CND(self._d2)
-                    )
-                else:
-                    result = -self._t * price
+                result = (
+                    self._t
+                    * self._K
+                    * _np.exp(-self._r * self._t)
+                    * self._CND(self._d2)
+                )
             else:
                 price = self.put()
-                if self._b != 0:
-                    result = (
-                        -self._t
-                        * self._K
-                        * _np.exp(-self._r * self._t)
-                        * self._CND(-self._d2)
-                    )
-                else:
-                    result = -self._t * price
+                result = (
+                    -self._t
+                    * self._K
+                    * _np.exp(-self._r * self._t)
+                    * self._CND(-self._d2)
+                )
 
-            return result
+            # b may be an array. multiply by 1 to return float vs array for scalars
+            return _np.where(self._b != 0, result, -self._t * price) * 1
         elif method == "fdm":
             # This only works if the cost to carry b is zero....
-            if self._b == 0:
+            if _np.all(self._b == 0):
                 return self._greeks.rho(call=call)
             else:
                 raise ValueError(
-- 
2.43.0


From a4bf3d66f2097d1c943c854db785de8e38e985d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 03/24] fix: relative performance spread option paid
 Q1*S1/Q2*S2 instead of (Q1*S1)/(Q2*S2)

Missing parentheses: the documented payoff of option 8 divides by Q2*S2.
---
 src/finoptions/spread_options/bitree3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index bbaafd2..f89be5a 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -219,7 +219,7 @@ class BionomialSpreadAllTypes(_Option):
         elif option == 7: # Exchange option
             return _np.maximum(0, z*(Q2*S2 - Q1*S1))
         elif option == 8: # Outperformance option
-            return _np.maximum(0, z*((Q1*S1 / Q2*S2) - K))
+            return _np.maximum(0, z*((Q1*S1) / (Q2*S2) - K))
         elif option == 9: # Product option
             return _np.maximum(0, z*((Q1*S1 * Q2*S2) - K))
         
-- 
2.43.0


From a703dbfd96f9ee273784cd10f0ac2cc626337e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 04/24] fix: spread options reported themselves under another
 class's name in repr

---
 src/finoptions/spread_options/bitree3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index f89be5a..53c82b0 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -110,7 +110,7 @@ class BionomialSpreadAllTypes(_Option):
     ----------
     [1] Haug E.G., The Complete Guide to Option Pricing Formulas
     """
-    __name__ = "BionomialSpreadOption"
+    __name__ = "BionomialSpreadAllTypes"
     __title__ = "Rubinstein Binomial Tree Spread Option Model"
 
     def __init__(
@@ -745,7 +745,7 @@ class BionomialSpreadOption(BionomialSpreadAllTypes):
     >>> opt.put()
     >>> opt.greeks(call=True)
     """
-    __name__ = "BionomialMinOption"
+    __name__ = "BionomialSpreadOption"
     __title__ = "Binomial Tree Spread Option Model"
 
     def __init__(
-- 
2.43.0


From 23fbe03edbcdd16cb80de5be3a709d5fdeb5b4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 05/24] fix: TIANBinomialTreeOption reported itself as the CRR
 model in summary and repr

---
 src/finoptions/binomial_tree_options/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finoptions/binomial_tree_options/__init__.py b/src/finoptions/binomial_tree_options/__init__.py
index b2010f1..fbec3b5 100644
--- a/src/finoptions/binomial_tree_options/__init__.py
+++ b/src/finoptions/binomial_tree_options/__init__.py
@@ -504,6 +504,9 @@ class TIANBinomialTreeOption(CRRBinomialTreeOption):
     [1] Haug E.G., The Complete Guide to Option Pricing Formulas
     """
 
+    __name__ = "TIANBinomialTreeOption"
+    __title__ = "TIAN Binomial Tree Model"
+
     def _calc_price(self, z, n, type, tree=False):
         dt = self._t / n
         M = _np.exp(self._b * dt)
-- 
2.43.0


From 1d63fca3071e0958efa247ff13afcd4e70f26320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 06/24] fix: hngarch_fit ignored the symmetric flag

~True is -2, which is truthy, so gamma was always part of the likelihood: the
symmetric model was fitted with a free gamma that was then reported as 0, next to
a likelihood, h and z computed with the discarded value.
---
 src/finoptions/heston_nandi_options/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index dcd5431..6af1f6e 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -259,7 +259,7 @@ def _llhHNGarch(x0, trace, symmetric, rfr, x, ret_obj=False):
     beta = 1 / (1 + _np.exp(-beta))
 
     # Add gamma if selected:
-    if ~symmetric:
+    if not symmetric:
         gam = gamma
     else:
         gam = 0
@@ -313,8 +313,7 @@ def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma =
     par_alpha = -_np.log((1-alpha)/alpha)  # for 3
     par_beta = -_np.log((1-beta)/beta)     # for 4
     par_start = [lamb, par_omega, par_alpha, par_beta]
-    if ~symmetric:
-        par_start.append(gam)
+    par_start.append(gam)  # ignored by the likelihood if symmetric
 
     # Initial Log Likelihood:
     opt = dict()
-- 
2.43.0


From 5f98339faac5993d9da12ce1754f38fa1eca504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 07/24] fix: Monte Carlo trace printed the total of all loops
 as the running average

---
 src/finoptions/monte_carlo_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/monte_carlo_options/__init__.py b/src/finoptions/monte_carlo_options/__init__.py
index acd98fb..a1bad93 100644
--- a/src/finoptions/monte_carlo_options/__init__.py
+++ b/src/finoptions/monte_carlo_options/__init__.py
@@ -293,7 +293,7 @@ class MonteCarloOption:  # _Option
                 i,
                 "\t:",
                 iteration[i],
-                _np.sum(iteration) / (i + 1),
+                _np.sum(iteration[: i + 1]) / (i + 1),
                 end="",
             )
         print("\n")
-- 
2.43.0


From 155a014c742b5c248e6e7649b457f7196a1d8f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 08/24] fix: Sobol innovations let -inf through

Only the maximum was tested, so a sample at 0 (norm.ppf -> -inf) was returned.
---
 src/finoptions/monte_carlo_options/mc_innovations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/monte_carlo_options/mc_innovations.py b/src/finoptions/monte_carlo_options/mc_innovations.py
index a1e356e..b7bdf28 100644
--- a/src/finoptions/monte_carlo_options/mc_innovations.py
+++ b/src/finoptions/monte_carlo_options/mc_innovations.py
@@ -35,7 +35,7 @@ class NormalSobolInnovations(Innovations):
         sobol = self._get_sobol(scramble)
 
         # avoid inf
-        while _np.abs(_np.max(sobol)) == _np.inf:
+        while _np.any(_np.isinf(sobol)):
             sobol = self._get_sobol(scramble)
 
         if self._eps is None:
-- 
2.43.0


From 54443bde2f0512aafcbfffa7d66e18ccbd71009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 09/24] fix: hngarch_sim truncated the simulated returns to
 integers for integer innovations

---
 src/finoptions/heston_nandi_options/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index 6af1f6e..21ab051 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -414,6 +414,9 @@ def hngarch_sim(lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma = 0,
     if (inno_start is None) & (n_start > 0):
         inno_start = _np.random.normal(0, 1, n_start)
 
+    # the recursion writes into copies of the innovations, which must not be integers
+    inno = _np.asarray(inno, dtype=float)
+
     if inno_start is not None:
         x = _np.concatenate((inno_start, inno))
     else:
-- 
2.43.0


From 95f70862f6ac6ab0f690258b46009c30a260bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 10/24] fix: BAWAmericanApproxOption returned nan for r = 0

2r / (sigma^2 (1 - exp(-rt))) is 0/0 for r = 0, and the put has no critical
price when it is never optimal to exercise it.
---
 .../basic_american_options/__init__.py        | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 50b60bc..cbe4512 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -400,6 +400,12 @@ class BAWAmericanApproxOption(_Option):
 
         self._greeks = GreeksFDM(self)
 
+    def _bawX(self):
+        if self._r == 0:
+            # limit for r -> 0
+            return 2 / (self._sigma ** 2 * self._t)
+        return 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
+
     def _bawKc(self):
         # Newton Raphson algorithm to solve for the critical commodity
         # price for a Call.
@@ -414,7 +420,7 @@ class BAWAmericanApproxOption(_Option):
             / (Su - self._K)
         )
         Si = self._K + (Su - self._K) * (1 - _np.exp(h2))
-        X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
+        X = self._bawX()
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
         )
@@ -475,7 +481,7 @@ class BAWAmericanApproxOption(_Option):
             / (self._K - Su)
         )
         Si = Su + (self._K - Su) * _np.exp(h1)
-        X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
+        X = self._bawX()
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
         )
@@ -550,7 +556,7 @@ class BAWAmericanApproxOption(_Option):
         else:
             Sk = self._bawKc()
             n = 2 * self._b / self._sigma ** 2
-            X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
+            X = self._bawX()
             d1 = (
                 _np.log(Sk / self._K) + (self._b + self._sigma ** 2 / 2) * self._t
             ) / (self._sigma * _np.sqrt(self._t))
@@ -590,10 +596,15 @@ class BAWAmericanApproxOption(_Option):
         ----------
         [1] Haug E.G., The Complete Guide to Option Pricing Formulas
         """
+        if self._r <= 0 and self._b <= self._r:
+            # never optimal to exercise before maturity
+            return _GBSOption(
+                self._S, self._K, self._t, self._r, self._b, self._sigma
+            ).put()
 
         Sk = self._bawKp()
         n = 2 * self._b / self._sigma ** 2
-        X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
+        X = self._bawX()
         d1 = (_np.log(Sk / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
         )
-- 
2.43.0


From dcdcb988576b8b147542dc5b25bd671789583347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 11/24] fix: BAWAmericanApproxOption returned nan or negative
 prices for large |b| t

The seed of the Newton iteration left the interval between the strike and the
perpetual critical price when |b| t > 2 sigma sqrt(t), and the iteration ended
at a wrong root or at nan, e.g. -50 for a call with S=50, K=100, t=3, r=0.01,
b=-0.1, sigma=0.05.
---
 src/finoptions/basic_american_options/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index cbe4512..40f9941 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -419,7 +419,7 @@ class BAWAmericanApproxOption(_Option):
             * self._K
             / (Su - self._K)
         )
-        Si = self._K + (Su - self._K) * (1 - _np.exp(h2))
+        Si = self._K + (Su - self._K) * (1 - _np.exp(min(h2, 0)))
         X = self._bawX()
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
@@ -480,7 +480,7 @@ class BAWAmericanApproxOption(_Option):
             * self._K
             / (self._K - Su)
         )
-        Si = Su + (self._K - Su) * _np.exp(h1)
+        Si = Su + (self._K - Su) * _np.exp(min(h1, 0))
         X = self._bawX()
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
-- 
2.43.0


From 100fe6e0afef13f30d66e68ce2725f7979a85443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 12/24] fix: BSAmericanApproxOption returned negative prices
 for large |b| t

The trigger price fell below the strike (even below 0) when |b| t >
2 sigma sqrt(t), and the payoff at the trigger was then negative, e.g. -100
for a put with S=200, K=100, t=3, r=0.2, b=0.1, sigma=0.05.
---
 src/finoptions/basic_american_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 40f9941..05b0f18 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -848,7 +848,7 @@ class BSAmericanApproxOption(_Option):
             B0 = max(X, r / (r - b) * X)
             ht = -(b * Time + 2 * sigma * _np.sqrt(Time)) * B0 / (BInfinity - B0)
             # Trigger Price I:
-            I = B0 + (BInfinity - B0) * (1 - _np.exp(ht))
+            I = B0 + (BInfinity - B0) * (1 - _np.exp(min(ht, 0)))
             alpha = (I - X) * I ** (-Beta)
             if S >= I:
                 result = dict(OptionPrice=S - X, TriggerPrice=I)
-- 
2.43.0


From 32012e5c821f00e4c5c55d283769336a7d57195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 13/24] fix: BAWAmericanApproxOption did not terminate for many
 inputs

The Newton iteration for the critical price takes a slope with the distribution
function of d1 where the derivative has its density. Where that slope makes the
iteration cycle (for example a put or call with small t, or a call with b close
to r: S=100, K=100, t=1, r=0.2, b=0.199, sigma=0.8) call() and put() never
returned. Switch to the derivative after 100 steps; prices that were returned
before do not change.
---
 src/finoptions/basic_american_options/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 05b0f18..7a64747 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -443,7 +443,12 @@ class BAWAmericanApproxOption(_Option):
         E = 0.000001
 
         # Newton Raphson algorithm for finding critical price Si
+        # The first steps take the slope of fOptions, with which the iteration may
+        # cycle, the later ones the derivative of RHS, with which it does not
+        steps = 0
         while abs(LHS - RHS) / self._K > E:
+            steps += 1
+            slope = self._CND if steps < 100 else self._NDF
             Si = (self._K + RHS - bi * Si) / (1 - bi)
             d1 = (
                 _np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t
@@ -458,7 +463,7 @@ class BAWAmericanApproxOption(_Option):
                 + (
                     1
                     - _np.exp((self._b - self._r) * self._t)
-                    * self._CND(d1)
+                    * slope(d1)
                     / (self._sigma * _np.sqrt(self._t))
                 )
                 / Q2
@@ -504,7 +509,12 @@ class BAWAmericanApproxOption(_Option):
         E = 0.000001
 
         # Newton Raphson algorithm for finding critical price Si
+        # The first steps take the slope of fOptions, with which the iteration may
+        # cycle, the later ones the derivative of RHS, with which it does not
+        steps = 0
         while abs(LHS - RHS) / self._K > E:
+            steps += 1
+            slope = self._CND if steps < 100 else self._NDF
             Si = (self._K - RHS + bi * Si) / (1 + bi)
             d1 = (
                 _np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t
@@ -521,7 +531,7 @@ class BAWAmericanApproxOption(_Option):
                 - (
                     1
                     + _np.exp((self._b - self._r) * self._t)
-                    * self._CND(-d1)
+                    * slope(-d1)
                     / (self._sigma * _np.sqrt(self._t))
                 )
                 / Q1
-- 
2.43.0


From 388431faff41bd5f539356bf8c99cf02119865b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 14/24] fix: RollGeskeWhaleyOption raised ValueError where the
 exercise boundary is out of reach

If no stock price up to 1e8 makes exercise at the dividend date worthwhile the
option is worth the European value, which call() computed and then discarded
with ValueError (Haug returns it). volatility() met this at the end of its
bracket for ordinary options, e.g. S=80, K=82, t=1, td=0.3, r=0.01, D=0.5.
---
 src/finoptions/basic_american_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 7a64747..3488a00 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -134,7 +134,7 @@ class RollGeskeWhaleyOption(_Option):
             result = _GBSOption(
                 Sx, self._K, self._t, self._r, b=self._r, sigma=self._sigma
             ).call()
-            raise ValueError("HighS > big setting")
+            return result
 
         LowS = 0
         I = HighS * 0.5
-- 
2.43.0


From c13cc074810b67bdd86a0be6b08005c4e5d60102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:28 +0000
Subject: [PATCH 15/24] fix: RollGeskeWhaleyOption.vega raised TypeError for
 sigma = 0.25, 0.5, 1

The numerical derivative steps over sigma = 0 there, where the arguments of the
bivariate normal are nan; _CBND fell through all its cases and returned None
(TypeError in the sum) instead of nan, which the differentiation discards.
---
 src/finoptions/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index 713d069..4abce16 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -127,6 +127,9 @@ class _Base(ABC):
             result = self._CBND(a, 0, rho1) + self._CBND(b, 0, rho2) - delta
             return result
 
+        # only nan arguments get here
+        return _np.nan
+
 
 class Derivative(_Base):
     pass
-- 
2.43.0


From edf931f701a4fff196cb60e43db0505c7ce3c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 16/24] fix: TrinomialTreeOption priced an unknown option type
 at zero

A misspelt type ("American", "bermudan") left the lattice unfilled: the
trinomial tree answered 0.0 and the binomial trees raised UnboundLocalError.
Refuse it when the option is built.
---
 src/finoptions/binomial_tree_options/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finoptions/binomial_tree_options/__init__.py b/src/finoptions/binomial_tree_options/__init__.py
index fbec3b5..85e7082 100644
--- a/src/finoptions/binomial_tree_options/__init__.py
+++ b/src/finoptions/binomial_tree_options/__init__.py
@@ -157,6 +157,9 @@ class CRRBinomialTreeOption(_Option):
         type: str = "european",
         n: int = 5,
     ):
+        if type not in ("european", "american"):
+            raise ValueError(f'type must be "european" or "american", not {type!r}')
+
         self._S = S
         self._K = K
         self._t = t
-- 
2.43.0


From a960a336355b5cf5a6835936eaf932237a3aa648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 17/24] fix: spread tree options priced an unknown otype as
 European

A misspelt otype ("American", "bermudan") silently gave the European price.
Refuse it when the option is built.
---
 src/finoptions/spread_options/bitree3d.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index 53c82b0..6e51421 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -132,6 +132,9 @@ class BionomialSpreadAllTypes(_Option):
         otype: str = "european",
         n: int = 5,
     ):
+        if otype not in ("european", "american"):
+            raise ValueError(f'otype must be "european" or "american", not {otype!r}')
+
         self._S1 = S1
         self._S2 = S2
         self._Q1 = Q1
@@ -498,6 +501,9 @@ class BionomialMaxOption(BionomialSpreadAllTypes):
         otype: str = "european",
         n: int = 5,
     ):
+        if otype not in ("european", "american"):
+            raise ValueError(f'otype must be "european" or "american", not {otype!r}')
+
         self._S1 = S1
         self._S2 = S2
         self._Q1 = Q1
@@ -632,6 +638,9 @@ class BionomialMinOption(BionomialSpreadAllTypes):
         otype: str = "european",
         n: int = 5,
     ):
+        if otype not in ("european", "american"):
+            raise ValueError(f'otype must be "european" or "american", not {otype!r}')
+
         self._S1 = S1
         self._S2 = S2
         self._Q1 = Q1
@@ -765,6 +774,9 @@ class BionomialSpreadOption(BionomialSpreadAllTypes):
         otype: str = "european",
         n: int = 5,
     ):
+        if otype not in ("european", "american"):
+            raise ValueError(f'otype must be "european" or "american", not {otype!r}')
+
         self._S1 = S1
         self._S2 = S2
         self._Q1 = Q1
-- 
2.43.0


From 4fe17fefcbc722f758bf6331258d6f7d404d7665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 18/24] fix: implied volatility of matrix-shaped (2-D or
 broadcasting) parameters raised ValueError

---
 src/finoptions/base.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index 4abce16..27c5198 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -551,12 +551,16 @@ class Option(Derivative):
 
         # check to see if arrays were past vs scalars.
         if self._check_array(price, *self.get_params().values()):
-            # if arrays, use root function
-            a = self._max_array(price, *self.get_params().values())
-            if verbose == True:
-                sol = _root(_func, args=(self, call, price), x0=_np.ones_like(a))
-            else:
-                sol = _root(_func, args=(self, call, price), x0=_np.ones_like(a)).x
+            # if arrays, use root function, which works on vectors
+            a = _np.broadcast(price, *self.get_params().values())
+
+            def _flat_func(sigma, *args):
+                return _np.ravel(_func(_np.reshape(sigma, a.shape), *args))
+
+            sol = _root(_flat_func, args=(self, call, price), x0=_np.ones(a.size))
+            sol.x = _np.reshape(sol.x, a.shape)
+            if verbose != True:
+                sol = sol.x
         else:
             # if scalars use root_scalar function
             if verbose == True:
-- 
2.43.0


From 3cd7da8197af8065338878a4593e6dc9831fc1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:06 +0000
Subject: [PATCH 19/24] fix: reports of options with 0-d array parameters
 raised IndexError

---
 src/finoptions/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index 27c5198..41c2c22 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -474,7 +474,7 @@ class Option(Derivative):
         so that it fits.
         """
         if isinstance(x, _np.ndarray):
-            if x.shape[0] > 6:
+            if x.ndim > 0 and x.shape[0] > 6:
                 return _np.array2string(x.round(2), threshold=6)
 
         return x
-- 
2.43.0


From c5ab4a52f60a977970e6eda0c1a2cfcc2f596e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 20/24] fix: array volatility() solves element by element where
 the vector solver fails

---
 src/finoptions/base.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index 41c2c22..865c1b0 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -558,6 +558,24 @@ class Option(Derivative):
                 return _np.ravel(_func(_np.reshape(sigma, a.shape), *args))
 
             sol = _root(_flat_func, args=(self, call, price), x0=_np.ones(a.size))
+            if not sol.success:
+                # elements whose prices do not move at the start value stop the
+                # solver for all, solve one element at a time
+                params = self.get_params()
+                flat = [
+                    _np.broadcast_to(x, a.shape).ravel() for x in (price, *params.values())
+                ]
+                for i, (p, *values) in enumerate(zip(*flat)):
+                    temp = self.copy()
+                    for name, value in zip(params, values):
+                        temp.set_param(name, value)
+                    sol.x[i] = _root_scalar(
+                        _func,
+                        (temp, call, p),
+                        bracket=[-10, 10],
+                        xtol=tol,
+                        maxiter=maxiter,
+                    ).root
             sol.x = _np.reshape(sol.x, a.shape)
             if verbose != True:
                 sol = sol.x
-- 
2.43.0


From 77955870c10f765ca3ae8731c583fdddc355a229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 21/24] fix: volatility() refuses prices that no volatility
 reproduces

---
 src/finoptions/base.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index 865c1b0..5e73b8a 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -577,26 +577,26 @@ class Option(Derivative):
                         maxiter=maxiter,
                     ).root
             sol.x = _np.reshape(sol.x, a.shape)
+            sigma = sol.x
             if verbose != True:
                 sol = sol.x
         else:
             # if scalars use root_scalar function
-            if verbose == True:
-                sol = _root_scalar(
-                    _func,
-                    (self, call, price),
-                    bracket=[-10, 10],
-                    xtol=tol,
-                    maxiter=maxiter,
-                )
-                # sol = _opt.brentq(_func, 1, 10000, xtol=tol, maxiter=maxiter)
-            else:
-                sol = _root_scalar(
-                    _func,
-                    (self, call, price),
-                    bracket=[-10, 10],
-                    xtol=tol,
-                    maxiter=maxiter,
-                ).root
+            sol = _root_scalar(
+                _func,
+                (self, call, price),
+                bracket=[-10, 10],
+                xtol=tol,
+                maxiter=maxiter,
+            )
+            sigma = sol.root
+            if verbose != True:
+                sol = sol.root
+            # sol = _opt.brentq(_func, 1, 10000, xtol=tol, maxiter=maxiter)
+
+        # for prices out of reach the solvers return a negative sigma or a jump at zero
+        error = _np.abs(_func(_np.abs(sigma), self, call, price))
+        if not _np.all(error <= 1e-6 * (_np.abs(self._S) + _np.abs(self._K))):
+            raise ValueError("no volatility reproduces the price")
 
         return sol
-- 
2.43.0


From 031b279528ae9e6011b59f198ad4c245ddafaf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:28 +0000
Subject: [PATCH 22/24] fix: numeric theta of an option that expires within a
 business day was nan

The difference quotient reached t <= 0 (or t <= td). The step is now at
most a tenth of the remaining life.
---
 src/finoptions/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index 5e73b8a..7e24384 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -212,7 +212,10 @@ class GreeksFDM:
         -------
         float
         """
-        fd = self._make_partial_der("t", call, self._opt, n=1, step=1 / 252)
+        # one business day, or a tenth of the remaining life (after a dividend at td) if that is shorter
+        life = self._opt._t - getattr(self._opt, "_td", 0)
+        step = _np.minimum(1 / 252, life / 10)
+        fd = self._make_partial_der("t", call, self._opt, n=1, step=step)
 
         # multiple by 1 to return float vs array for single element arrays. Multi-element arrays returned as normal
         return fd(self._opt._t) * -1
-- 
2.43.0


From 75b8898db23b7a6f48c8a7d9faf8784d506c4bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:32 +0000
Subject: [PATCH 23/24] fix: BAW put was nan when the search for the critical
 price overshot below zero

For a high cost of carry and a long life (S=100, K=100, t=15, r=0, b=0.1,
sigma=0.7) a Newton step went negative and the logarithm ended the search.
---
 src/finoptions/basic_american_options/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 3488a00..f680cd0 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -516,6 +516,9 @@ class BAWAmericanApproxOption(_Option):
             steps += 1
             slope = self._CND if steps < 100 else self._NDF
             Si = (self._K - RHS + bi * Si) / (1 + bi)
+            if Si <= 0 and steps < 100:
+                # overshot: from the strike the derivative leads straight to Si
+                Si, slope, steps = self._K, self._NDF, 100
             d1 = (
                 _np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t
             ) / (self._sigma * _np.sqrt(self._t))
-- 
2.43.0


From 66c768cc8de8afe461434e391ad079e6fdd278cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:10 +0000
Subject: [PATCH 24/24] fix: Roll-Geske-Whaley search stops at limits relative
 to the strike, not at absolute prices

---
 src/finoptions/basic_american_options/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index f680cd0..f36d24f 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -83,8 +83,8 @@ class RollGeskeWhaleyOption(_Option):
         self._sigma = sigma
 
         # Settings:
-        self._big = 100000000
-        self._eps = 1.0e-5
+        self._big = 100000000 * K
+        self._eps = 1.0e-7 * K
 
         self._greeks = GreeksFDM(self)
 
-- 
2.43.0

