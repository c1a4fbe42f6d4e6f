From c9676b27e5355175ca78566a35d2524d6a0b3d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 01/33] fix: capm_return renamed the columns of the caller's
 market_prices

---
 pypfopt/expected_returns.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypfopt/expected_returns.py b/pypfopt/expected_returns.py
index b9ab02e..1d08694 100644
--- a/pypfopt/expected_returns.py
+++ b/pypfopt/expected_returns.py
@@ -260,6 +260,8 @@ def capm_return(
         # Append market return to right and compute sample covariance matrix
         returns["mkt"] = returns.mean(axis=1)
     else:
+        # Label a copy, so that the caller's dataframe keeps its own column name
+        market_returns = market_returns.copy()
         market_returns.columns = ["mkt"]
         returns = returns.join(market_returns, how="left")
 
-- 
2.43.0


From 23ce9c25602029b8c09e4d980aafd8c7c76d0bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 02/33] fix: a (None, x) bound pair for two assets was read as
 one pair per asset

---
 pypfopt/base_optimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index f988409..7caf9c5 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -212,8 +212,10 @@ class BaseConvexOptimizer(BaseOptimizer):
         :rtype: tuple pair of np.ndarray
         """
         # If it is a collection with the right length, assume they are all bounds.
-        if len(test_bounds) == self.n_assets and not isinstance(
-            test_bounds[0], (float, int)
+        if (
+            len(test_bounds) == self.n_assets
+            and test_bounds[0] is not None
+            and not np.isscalar(test_bounds[0])
         ):
             bounds = np.array(test_bounds, dtype=float)
             self._lower_bounds = np.nan_to_num(bounds[:, 0], nan=-np.inf)
-- 
2.43.0


From 8bc40b3596144fa48a9bc35200bb6acc282813aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:54 +0000
Subject: [PATCH 03/33] fix: assets without a finite bound made conic solvers
 and max_sharpe crash

---
 pypfopt/base_optimizer.py                        | 10 ++++++++--
 pypfopt/efficient_frontier/efficient_frontier.py |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index 7caf9c5..c4837a2 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -238,8 +238,14 @@ class BaseConvexOptimizer(BaseOptimizer):
                 self._lower_bounds = np.nan_to_num(lower, nan=-1)
                 self._upper_bounds = np.nan_to_num(upper, nan=1)
 
-        self.add_constraint(lambda w: w >= self._lower_bounds)
-        self.add_constraint(lambda w: w <= self._upper_bounds)
+        # Infinite bounds are not constraints, and not all solvers accept them
+        has_lower = np.isfinite(self._lower_bounds)
+        has_upper = np.isfinite(self._upper_bounds)
+        if has_lower.any():
+            self.add_constraint(lambda w: w[has_lower] >= self._lower_bounds[has_lower])
+        if has_upper.any():
+            self.add_constraint(lambda w: w[has_upper] <= self._upper_bounds[has_upper])
+        self._n_bound_constraints = int(has_lower.any()) + int(has_upper.any())
 
     def is_parameter_defined(self, parameter_name: str) -> bool:
         is_defined = False
diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index bec2fe0..7483a50 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -173,10 +173,10 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
                     "Market neutrality requires shorting - bounds have been amended",
                     RuntimeWarning,
                 )
+                n_original = self._n_bound_constraints
                 self._map_bounds_to_constraints((-1, 1))
                 # Delete original constraints
-                del self._constraints[0]
-                del self._constraints[0]
+                del self._constraints[:n_original]
 
             self.add_constraint(lambda w: cp.sum(w) == 0)
         else:
-- 
2.43.0


From cd12a9884506205244442134005f03d43e996c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 04/33] fix: efficient_risk refused attainable targets for
 market-neutral portfolios and riskless assets

---
 pypfopt/efficient_frontier/efficient_frontier.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 7483a50..3126b32 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -348,7 +348,14 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         if not isinstance(target_volatility, (float, int)) or target_volatility < 0:
             raise ValueError("target_volatility should be a positive float")
 
-        global_min_volatility = np.sqrt(1 / np.sum(np.linalg.pinv(self.cov_matrix)))
+        ones = np.ones(self.n_assets)
+        inv_ones = np.linalg.pinv(self.cov_matrix) @ ones
+        if market_neutral or not np.allclose(self.cov_matrix @ inv_ones, ones):
+            # The closed form below assumes that weights sum to one, and that no
+            # fully-invested portfolio is riskless
+            global_min_volatility = 0.0
+        else:
+            global_min_volatility = np.sqrt(1 / np.sum(inv_ones))
 
         if target_volatility < global_min_volatility:
             raise ValueError(
-- 
2.43.0


From bf8761dc4bb29795e78d64e41722eb317891c22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 05/33] fix: efficient_return refused attainable market-neutral
 targets and failed with a zero or unbounded maximum return

---
 .../efficient_frontier/efficient_frontier.py   | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 3126b32..1079bad 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -400,17 +400,25 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         """
         if not isinstance(target_return, float):
             raise ValueError("target_return should be a float")
-        if not self._max_return_value:
+        update_existing_parameter = self.is_parameter_defined("target_return")
+        if update_existing_parameter:
+            self._validate_market_neutral(market_neutral)
+        # The maximum return of a market-neutral portfolio is another one (and it may be
+        # that only such a portfolio exists), so then it is left to the solver.
+        if self._max_return_value is None and not market_neutral:
             a = self.deepcopy()
-            self._max_return_value = a._max_return()
-        if target_return > self._max_return_value:
+            try:
+                self._max_return_value = a._max_return()
+            except exceptions.OptimizationError:
+                if a._opt.status not in {"unbounded", "unbounded_inaccurate"}:
+                    raise
+                self._max_return_value = np.inf
+        if not market_neutral and target_return > self._max_return_value:
             raise ValueError(
                 "target_return must be lower than the maximum possible return"
             )
 
-        update_existing_parameter = self.is_parameter_defined("target_return")
         if update_existing_parameter:
-            self._validate_market_neutral(market_neutral)
             self.update_parameter_value("target_return", target_return)
         else:
             self._objective = objective_functions.portfolio_variance(
-- 
2.43.0


From 4780719e2f490afefc4b9f65ea129d047fac2788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 06/33] fix: lp_portfolio matched prices to weights by position
 instead of by ticker

---
 pypfopt/discrete_allocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index d67f911..5330a2e 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -306,7 +306,7 @@ class DiscreteAllocation:
             self.allocation = self._remove_zero_positions(self.allocation)
             return self.allocation, long_leftover + short_leftover
 
-        p = self.latest_prices.values
+        p = self.latest_prices[[i[0] for i in self.weights]].values
         n = len(p)
         w = np.fromiter([i[1] for i in self.weights], dtype=float)
 
-- 
2.43.0


From cb786c028c30349f15a348bfde5dfe420b55d1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:45 +0000
Subject: [PATCH 07/33] fix: greedy_portfolio failed when rounded weights added
 up to slightly more than one

---
 pypfopt/discrete_allocation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index 5330a2e..0c06bf1 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -196,11 +196,13 @@ class DiscreteAllocation:
             price = self.latest_prices[ticker]
             # Attempt to buy the lower integer number of shares, which could be zero.
             n_shares = int(weight * self.total_portfolio_value / price)
-            cost = n_shares * price
             # As weights are all > 0 (long only) we always round down n_shares
-            # so the cost is always <= simple weighted share of portfolio value,
-            # so we can not run out of funds just here.
-            assert cost <= available_funds, "Unexpectedly insufficient funds."
+            # so the cost is always <= simple weighted share of portfolio value.
+            # But rounded weights may add up to slightly more than one, so make
+            # sure that we can not run out of funds just here.
+            if n_shares * price > available_funds:
+                n_shares = int(available_funds // price)
+            cost = n_shares * price
             available_funds -= cost
             shares_bought.append(n_shares)
             buy_prices.append(price)
-- 
2.43.0


From 527a65051460521ee9fc6887797d4c702d6f62a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 08/33] fix: bl_weights used the wrong matrix when the
 covariance matrix is singular

---
 pypfopt/black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index f24df06..6a429c3 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -466,7 +466,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             weight_solution = np.linalg.solve(A, b)
         except np.linalg.LinAlgError as e:
             if "Singular matrix" in str(e):
-                weight_solution = np.linalg.lstsq(self._A, b, rcond=None)[0]
+                weight_solution = np.linalg.lstsq(A, b, rcond=None)[0]
             else:
                 raise e
         raw_weights = weight_solution
-- 
2.43.0


From fb6f2e0403a9eea8ccc364e03883e2bd88835275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 09/33] fix: short_ratio=0 was accepted and then made the
 allocation fail

---
 pypfopt/discrete_allocation.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index 0c06bf1..2709a52 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -171,13 +171,15 @@ class DiscreteAllocation:
 
             if verbose:
                 print("\nAllocating short sub-portfolio...")
-            da2 = DiscreteAllocation(
-                shorts,
-                self.latest_prices[shorts.keys()],
-                total_portfolio_value=short_val,
-            )
-            short_alloc, short_leftover = da2.greedy_portfolio()
-            short_alloc = {t: -w for t, w in short_alloc.items()}
+            short_alloc, short_leftover = {}, 0
+            if short_val > 0:
+                da2 = DiscreteAllocation(
+                    shorts,
+                    self.latest_prices[shorts.keys()],
+                    total_portfolio_value=short_val,
+                )
+                short_alloc, short_leftover = da2.greedy_portfolio()
+                short_alloc = {t: -w for t, w in short_alloc.items()}
 
             # Combine and return
             self.allocation = long_alloc.copy()
@@ -294,13 +296,15 @@ class DiscreteAllocation:
 
             if verbose:
                 print("\nAllocating short sub-portfolio:")
-            da2 = DiscreteAllocation(
-                shorts,
-                self.latest_prices[shorts.keys()],
-                total_portfolio_value=short_val,
-            )
-            short_alloc, short_leftover = da2.lp_portfolio(solver=solver)
-            short_alloc = {t: -w for t, w in short_alloc.items()}
+            short_alloc, short_leftover = {}, 0
+            if short_val > 0:
+                da2 = DiscreteAllocation(
+                    shorts,
+                    self.latest_prices[shorts.keys()],
+                    total_portfolio_value=short_val,
+                )
+                short_alloc, short_leftover = da2.lp_portfolio(solver=solver)
+                short_alloc = {t: -w for t, w in short_alloc.items()}
 
             # Combine and return
             self.allocation = long_alloc.copy()
-- 
2.43.0


From 14024d14bc3c72b4b4c3eaa8f2417a7b262a004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 10/33] fix: greedy_portfolio failed for integer prices

---
 pypfopt/discrete_allocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index 2709a52..28643dc 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -214,7 +214,7 @@ class DiscreteAllocation:
             # Calculate the equivalent continuous weights of the shares that
             # have already been bought
             current_weights = np.array(buy_prices) * np.array(shares_bought)
-            current_weights /= current_weights.sum()
+            current_weights = current_weights / current_weights.sum()
             ideal_weights = np.array([i[1] for i in self.weights])
             deficit = ideal_weights - current_weights
 
-- 
2.43.0


From 4d5017e2d85374c2a83f56701b0ebbb45355595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:52 +0000
Subject: [PATCH 11/33] fix: pi="market" failed when the covariance matrix is
 an array

---
 pypfopt/black_litterman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index 6a429c3..6760cd6 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -272,7 +272,7 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
             market_prior = market_implied_prior_returns(
                 market_caps, self.risk_aversion, self._raw_cov_matrix, risk_free_rate
             )
-            self.pi = market_prior.values.reshape(-1, 1)
+            self.pi = np.asarray(market_prior).reshape(-1, 1)
         elif pi == "equal":
             self.pi = np.ones((self.n_assets, 1)) / self.n_assets
         else:
-- 
2.43.0


From 98c42a806eb66de80b05f477ed96c5e6c47e29c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 12/33] fix: Black-Litterman performance of user-set weights
 had no return and Sharpe ratio

---
 pypfopt/black_litterman.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index 6760cd6..fcd8433 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -495,6 +495,8 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
         :return: expected return, volatility, Sharpe ratio.
         :rtype: (float, float, float)
         """
+        if self.posterior_rets is None:
+            self.posterior_rets = self.bl_returns()
         if self.posterior_cov is None:
             self.posterior_cov = self.bl_cov()
         return base_optimizer.portfolio_performance(
-- 
2.43.0


From 1cca8b88d0857e8dc6e19e8c09e08ce23fcacfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 13/33] fix: CVaR, CDaR and semivariance frontiers without
 expected returns could not report (or be built)

---
 pypfopt/efficient_frontier/efficient_cdar.py  | 19 ++++++++++++-----
 pypfopt/efficient_frontier/efficient_cvar.py  | 14 +++++++++----
 .../efficient_semivariance.py                 | 21 +++++++++++++------
 3 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_cdar.py b/pypfopt/efficient_frontier/efficient_cdar.py
index febd6e3..cf9bf0d 100644
--- a/pypfopt/efficient_frontier/efficient_cdar.py
+++ b/pypfopt/efficient_frontier/efficient_cdar.py
@@ -75,9 +75,12 @@ class EfficientCDaR(EfficientFrontier):
         :type solver_options: dict, optional
         :raises TypeError: if ``expected_returns`` is not a series, list or array
         """
+        n_assets = (
+            returns.shape[1] if expected_returns is None else len(expected_returns)
+        )
         super().__init__(
             expected_returns=expected_returns,
-            cov_matrix=np.zeros((len(expected_returns),) * 2),  # dummy
+            cov_matrix=np.zeros((n_assets,) * 2),  # dummy
             weight_bounds=weight_bounds,
             solver=solver,
             verbose=verbose,
@@ -221,9 +224,14 @@ class EfficientCDaR(EfficientFrontier):
         :return: expected return, CDaR.
         :rtype: (float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        if self.weights is None:
+            raise ValueError("Weights is None")
+
+        mu = None
+        if self.expected_returns is not None:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
 
         cdar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
             self._z
@@ -231,7 +239,8 @@ class EfficientCDaR(EfficientFrontier):
         cdar_val = cdar.value
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Conditional Drawdown at Risk: {:.2f}%".format(100 * cdar_val))
 
         return mu, cdar_val
diff --git a/pypfopt/efficient_frontier/efficient_cvar.py b/pypfopt/efficient_frontier/efficient_cvar.py
index d456f79..e2e1c2d 100644
--- a/pypfopt/efficient_frontier/efficient_cvar.py
+++ b/pypfopt/efficient_frontier/efficient_cvar.py
@@ -228,9 +228,14 @@ class EfficientCVaR(EfficientFrontier):
         :return: expected return, CVaR.
         :rtype: (float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        if self.weights is None:
+            raise ValueError("Weights is None")
+
+        mu = None
+        if self.expected_returns is not None:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
 
         cvar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
             self._u
@@ -238,7 +243,8 @@ class EfficientCVaR(EfficientFrontier):
         cvar_val = cvar.value
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Conditional Value at Risk: {:.2f}%".format(100 * cvar_val))
 
         return mu, cvar_val
diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index 89d520c..e77a7dc 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -261,19 +261,28 @@ class EfficientSemivariance(EfficientFrontier):
         :return: expected return, semideviation, Sortino ratio.
         :rtype: (float, float, float)
         """
-        mu = objective_functions.portfolio_return(
-            self.weights, self.expected_returns, negative=False
-        )
+        if self.weights is None:
+            raise ValueError("Weights is None")
+
+        mu = None
+        if self.expected_returns is not None:
+            mu = objective_functions.portfolio_return(
+                self.weights, self.expected_returns, negative=False
+            )
 
         portfolio_returns = self.returns @ self.weights
         drops = np.fmin(portfolio_returns - self.benchmark, 0)
         semivariance = np.sum(np.square(drops)) / self._T * self.frequency
         semi_deviation = np.sqrt(semivariance)
-        sortino_ratio = (mu - risk_free_rate) / semi_deviation
+        sortino_ratio = None
+        if mu is not None:
+            sortino_ratio = (mu - risk_free_rate) / semi_deviation
 
         if verbose:
-            print("Expected annual return: {:.1f}%".format(100 * mu))
+            if mu is not None:
+                print("Expected annual return: {:.1f}%".format(100 * mu))
             print("Annual semi-deviation: {:.1f}%".format(100 * semi_deviation))
-            print("Sortino Ratio: {:.2f}".format(sortino_ratio))
+            if sortino_ratio is not None:
+                print("Sortino Ratio: {:.2f}".format(sortino_ratio))
 
         return mu, semi_deviation, sortino_ratio
-- 
2.43.0


From 51bf8f25a016d57d3cecd597498770161ae7e35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 14/33] fix: max_sharpe scaled constraints with constants on
 the variable's side wrongly and refused w[i] >= w[j]

---
 .../efficient_frontier/efficient_frontier.py  | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 1079bad..cd1c3bb 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -222,6 +222,24 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         else:
             return res
 
+    def _constant_term(self, constr):
+        """
+        Helper method to find the constant term of a constraint, written as ``affine(w) <= 0``
+        or ``affine(w) == 0``. None if the constraint is of another kind.
+        """
+        if not isinstance(
+            constr,
+            (cp.constraints.nonpos.Inequality, cp.constraints.zero.Equality),
+        ):
+            return None
+        expr = constr.args[0] - constr.args[1]
+        if not expr.is_affine():
+            return None
+        current, self._w.value = self._w.value, np.zeros(self.n_assets)
+        offset = expr.value
+        self._w.value = current
+        return offset
+
     def max_sharpe(self, risk_free_rate=0.0):
         """
         Maximise the Sharpe Ratio. The result is also referred to as the tangency portfolio,
@@ -265,7 +283,15 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         new_constraints = []
         # Must rebuild the constraints
         for constr in self._constraints:
-            if isinstance(constr, cp.constraints.nonpos.Inequality):
+            offset = self._constant_term(constr)
+            if offset is not None:
+                # Affine constraint: the constant term is all that has to be scaled
+                scaled = constr.args[0] - constr.args[1] + offset * (k - 1)
+                if isinstance(constr, cp.constraints.zero.Equality):
+                    new_constraints.append(scaled == 0)
+                else:
+                    new_constraints.append(scaled <= 0)
+            elif isinstance(constr, cp.constraints.nonpos.Inequality):
                 # Either the first or second item is the expression
                 if isinstance(
                     constr.args[0], cp.expressions.constants.constant.Constant
-- 
2.43.0


From b7b101731dad638dd938dc8a582a2aa4b1721053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 15/33] fix: plot_efficient_frontier plotted a point for
 parameter values without a portfolio

---
 pypfopt/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index 54fcf48..2d8e32d 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -255,6 +255,7 @@ def _plot_ef(ef, ef_param, ef_param_range, ax, show_assets, show_tickers, intera
                     param_value
                 )
             )
+            continue
 
         ret, sigma, _ = ef.portfolio_performance()
         mus.append(ret)
-- 
2.43.0


From 174b6414ac00441724704789250a576935454b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 16/33] fix: plot_covariance failed for arrays unless told not
 to show tickers

---
 pypfopt/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypfopt/plotting.py b/pypfopt/plotting.py
index 2d8e32d..6aa66ae 100644
--- a/pypfopt/plotting.py
+++ b/pypfopt/plotting.py
@@ -83,10 +83,11 @@ def plot_covariance(cov_matrix, plot_correlation=False, show_tickers=True, **kwa
     fig.colorbar(cax)
 
     if show_tickers:
+        tickers = getattr(matrix, "index", np.arange(0, matrix.shape[0], 1))
         ax.set_xticks(np.arange(0, matrix.shape[0], 1))
-        ax.set_xticklabels(matrix.index)
+        ax.set_xticklabels(tickers)
         ax.set_yticks(np.arange(0, matrix.shape[0], 1))
-        ax.set_yticklabels(matrix.index)
+        ax.set_yticklabels(tickers)
         plt.xticks(rotation=90)
 
     _plot_io(**kwargs)
-- 
2.43.0


From dc004b905237b952ae6c259223b24cf24f0df172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 17/33] fix: CVaR and CDaR reports changed when a later request
 failed or a copy was optimised

---
 pypfopt/efficient_frontier/efficient_cdar.py | 15 +++++++++++----
 pypfopt/efficient_frontier/efficient_cvar.py | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_cdar.py b/pypfopt/efficient_frontier/efficient_cdar.py
index cf9bf0d..630fa6f 100644
--- a/pypfopt/efficient_frontier/efficient_cdar.py
+++ b/pypfopt/efficient_frontier/efficient_cdar.py
@@ -89,6 +89,7 @@ class EfficientCDaR(EfficientFrontier):
 
         self.returns = self._validate_returns(returns)
         self._beta = self._validate_beta(beta)
+        self._cdar_val = None
         self._alpha = cp.Variable()
         self._u = cp.Variable(len(self.returns) + 1)
         self._z = cp.Variable(len(self.returns))
@@ -213,6 +214,15 @@ class EfficientCDaR(EfficientFrontier):
         self.add_constraint(lambda _: self._z >= 0)
         self.add_constraint(lambda _: self._u[1:] >= 0)
 
+    def _solve_cvxpy_opt_problem(self):
+        weights = super()._solve_cvxpy_opt_problem()
+        # The variables change if this problem is solved again, or if a copy is solved
+        cdar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
+            self._z
+        )
+        self._cdar_val = cdar.value
+        return weights
+
     def portfolio_performance(self, verbose=False):
         """
         After optimising, calculate (and optionally print) the performance of the optimal
@@ -233,10 +243,7 @@ class EfficientCDaR(EfficientFrontier):
                 self.weights, self.expected_returns, negative=False
             )
 
-        cdar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
-            self._z
-        )
-        cdar_val = cdar.value
+        cdar_val = self._cdar_val
 
         if verbose:
             if mu is not None:
diff --git a/pypfopt/efficient_frontier/efficient_cvar.py b/pypfopt/efficient_frontier/efficient_cvar.py
index e2e1c2d..9591604 100644
--- a/pypfopt/efficient_frontier/efficient_cvar.py
+++ b/pypfopt/efficient_frontier/efficient_cvar.py
@@ -87,6 +87,7 @@ class EfficientCVaR(EfficientFrontier):
 
         self.returns = self._validate_returns(returns)
         self._beta = self._validate_beta(beta)
+        self._cvar_val = None
         self._alpha = cp.Variable()
         self._u = cp.Variable(len(self.returns))
 
@@ -217,6 +218,15 @@ class EfficientCVaR(EfficientFrontier):
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
+    def _solve_cvxpy_opt_problem(self):
+        weights = super()._solve_cvxpy_opt_problem()
+        # The variables change if this problem is solved again, or if a copy is solved
+        cvar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
+            self._u
+        )
+        self._cvar_val = cvar.value
+        return weights
+
     def portfolio_performance(self, verbose=False):
         """
         After optimising, calculate (and optionally print) the performance of the optimal
@@ -237,10 +247,7 @@ class EfficientCVaR(EfficientFrontier):
                 self.weights, self.expected_returns, negative=False
             )
 
-        cvar = self._alpha + 1.0 / (len(self.returns) * (1 - self._beta)) * cp.sum(
-            self._u
-        )
-        cvar_val = cvar.value
+        cvar_val = self._cvar_val
 
         if verbose:
             if mu is not None:
-- 
2.43.0


From 816bc00b6d75b72713f59054913b290848e4bf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 18/33] fix: subtract the benchmark itself, not benchmark times
 the weight sum, in EfficientSemivariance (market-neutral portfolios)

---
 .../efficient_semivariance.py                 | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_semivariance.py b/pypfopt/efficient_frontier/efficient_semivariance.py
index e77a7dc..fc22b4a 100644
--- a/pypfopt/efficient_frontier/efficient_semivariance.py
+++ b/pypfopt/efficient_frontier/efficient_semivariance.py
@@ -123,8 +123,9 @@ class EfficientSemivariance(EfficientFrontier):
         for obj in self._additional_objectives:
             self._objective += obj
 
-        B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-        self.add_constraint(lambda w: B @ w - p + n == 0)
+        B = self.returns.values / np.sqrt(self._T)
+        b = self.benchmark / np.sqrt(self._T)
+        self.add_constraint(lambda w: B @ w - b - p + n == 0)
         self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
@@ -161,8 +162,9 @@ class EfficientSemivariance(EfficientFrontier):
             for obj in self._additional_objectives:
                 self._objective += obj
 
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            B = self.returns.values / np.sqrt(self._T)
+            b = self.benchmark / np.sqrt(self._T)
+            self.add_constraint(lambda w: B @ w - b - p + n == 0)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
@@ -200,8 +202,9 @@ class EfficientSemivariance(EfficientFrontier):
             self.add_constraint(
                 lambda _: self.frequency * cp.sum(cp.square(n)) <= target_semivariance
             )
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            B = self.returns.values / np.sqrt(self._T)
+            b = self.benchmark / np.sqrt(self._T)
+            self.add_constraint(lambda w: B @ w - b - p + n == 0)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
@@ -241,8 +244,9 @@ class EfficientSemivariance(EfficientFrontier):
             self.add_constraint(
                 lambda w: cp.sum(w @ self.expected_returns) >= target_return_par
             )
-            B = (self.returns.values - self.benchmark) / np.sqrt(self._T)
-            self.add_constraint(lambda w: B @ w - p + n == 0)
+            B = self.returns.values / np.sqrt(self._T)
+            b = self.benchmark / np.sqrt(self._T)
+            self.add_constraint(lambda w: B @ w - b - p + n == 0)
             self._make_weight_sum_constraint(market_neutral)
         return self._solve_cvxpy_opt_problem()
 
-- 
2.43.0


From efa1d1f96450bd969520dfe71601bfab68846e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 19/33] fix: lp_portfolio reported the leftover of the solver's
 unrounded share numbers

---
 pypfopt/discrete_allocation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index 28643dc..77625bd 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -340,7 +340,11 @@ class DiscreteAllocation:
             )
         )
 
+        # The solver's integers are only approximately integral, so work out what
+        # is left after buying the rounded numbers of shares.
+        leftover = self.total_portfolio_value - p @ vals
+
         if verbose:
-            print("Funds remaining: {:.2f}".format(r.value))
+            print("Funds remaining: {:.2f}".format(leftover))
             self._allocation_rmse_error()
-        return self.allocation, r.value
+        return self.allocation, leftover
-- 
2.43.0


From b4b0f7c0532ec14e25fb19a2d5cd652ced600a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 20/33] fix: a refused max_sharpe request changed the risk-free
 rate of later performance reports

---
 pypfopt/efficient_frontier/efficient_frontier.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index cd1c3bb..7deda92 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -264,8 +264,6 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
                 "at least one of the assets must have an expected return exceeding the risk-free rate"
             )
 
-        self._risk_free_rate = risk_free_rate
-
         # max_sharpe requires us to make a variable transformation.
         # Here we treat w as the transformed variable.
         self._objective = cp.quad_form(self._w, self.cov_matrix, assume_PSD=True)
@@ -314,6 +312,7 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         ] + new_constraints
 
         self._solve_cvxpy_opt_problem()
+        self._risk_free_rate = risk_free_rate
         # Inverse-transform
         self.weights = (self._w.value / k.value).round(16) + 0.0
         return self._make_output_weights()
-- 
2.43.0


From 5cf8432e232d0051c1007cb4e1811ed65c8e1aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 21/33] fix: portfolio_performance failed for a weights dict
 without expected returns and labels

---
 pypfopt/base_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index c4837a2..151d7ac 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -548,7 +548,7 @@ def portfolio_performance(
         elif isinstance(cov_matrix, pd.DataFrame):
             tickers = list(cov_matrix.columns)
         else:
-            tickers = list(range(len(expected_returns)))
+            tickers = list(range(len(cov_matrix)))
         new_weights = np.zeros(len(tickers))
 
         for i, k in enumerate(tickers):
-- 
2.43.0


From 7b938ebcb3a8162125277b4122bbbabe6eb38e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 22/33] fix: label the weights of CVaR, CDaR and semivariance
 portfolios by the returns' columns if the expected returns have no labels

---
 pypfopt/efficient_frontier/efficient_frontier.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 7deda92..490486f 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -158,6 +158,12 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
                     "returns columns do not match expected_returns. Please check your tickers."
                 )
 
+        # Integer labels were used for lack of others, if expected_returns has none
+        if isinstance(returns, pd.DataFrame) and self.tickers == list(
+            range(self.n_assets)
+        ):
+            self.tickers = list(returns.columns)
+
         return returns_df
 
     def _make_weight_sum_constraint(self, is_market_neutral):
-- 
2.43.0


From e2d5f0e7c95a5145aee8fa72bba21ef96482527d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:08 +0000
Subject: [PATCH 23/33] fix: CLA truncated weights when per-asset bounds were
 integers

---
 pypfopt/cla.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 910d598..a1dae3e 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -83,6 +83,10 @@ class CLA(base_optimizer.BaseOptimizer):
             else:
                 self.uB = np.array(weight_bounds[1]).reshape(self.mean.shape)
 
+        # Weights start from copies of the bounds, so integers would truncate them
+        self.lB = self.lB.astype(float)
+        self.uB = self.uB.astype(float)
+
         self.w = []  # solution
         self.ls = []  # lambdas
         self.g = []  # gammas
-- 
2.43.0


From db3716684d0273b4773a5525e630b5ceb9f74181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 24/33] fix: CLA computed turning points with an outdated value
 of the weight that had just reached its bound

---
 pypfopt/cla.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index a1dae3e..6c72d78 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -358,7 +358,10 @@ class CLA(base_optimizer.BaseOptimizer):
                 else:
                     self.ls.append(l_out)
                     f.append(i_out)
-                covarF, covarFB, meanF, wB = self._get_matrices(f)
+                covarF, covarFB, meanF, _ = self._get_matrices(f)
+                # a weight that has just been bounded counts at its bound, not at
+                # the value it had at the previous turning point
+                wB = self._reduce_matrix(w, self._get_b(f), [0])
                 covarF_inv = np.linalg.inv(covarF)
             # 5) compute solution vector
             wF, g = self._compute_w(covarF_inv, covarFB, meanF, wB)
-- 
2.43.0


From f49b125afcec7912290edc31c10e03ccc0caab9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:14 +0000
Subject: [PATCH 25/33] fix: Black-Litterman ignored surplus view confidences
 given as an array

---
 pypfopt/black_litterman.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pypfopt/black_litterman.py b/pypfopt/black_litterman.py
index fcd8433..cb6c3fc 100644
--- a/pypfopt/black_litterman.py
+++ b/pypfopt/black_litterman.py
@@ -299,16 +299,15 @@ class BlackLittermanModel(base_optimizer.BaseOptimizer):
                     "To use Idzorek's method, please supply a vector of percentage "
                     "confidence levels for each view."
                 )
-            if not isinstance(view_confidences, np.ndarray):
-                try:
-                    view_confidences = np.array(view_confidences).reshape(-1, 1)
-                    assert view_confidences.shape[0] == self.Q.shape[0]
-                    assert np.issubdtype(view_confidences.dtype, np.number)
-                except AssertionError:
-                    raise ValueError(
-                        "view_confidences should be a numpy 1D array or vector with the same length "
-                        "as the number of views."
-                    )
+            try:
+                view_confidences = np.array(view_confidences).reshape(-1, 1)
+                assert view_confidences.shape[0] == self.Q.shape[0]
+                assert np.issubdtype(view_confidences.dtype, np.number)
+            except AssertionError:
+                raise ValueError(
+                    "view_confidences should be a numpy 1D array or vector with the same length "
+                    "as the number of views."
+                )
 
             self.omega = BlackLittermanModel.idzorek_method(
                 view_confidences,
-- 
2.43.0


From 6607e9b6957b7555b63f1aea7f521d6d3b506a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:56 +0000
Subject: [PATCH 26/33] fix: nonconvex_objective refused an initial guess of
 the documented shape (n, 1)

---
 pypfopt/base_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/base_optimizer.py b/pypfopt/base_optimizer.py
index 151d7ac..6650ceb 100644
--- a/pypfopt/base_optimizer.py
+++ b/pypfopt/base_optimizer.py
@@ -510,7 +510,7 @@ class BaseConvexOptimizer(BaseOptimizer):
 
         result = sco.minimize(
             custom_objective,
-            x0=initial_guess,
+            x0=np.ravel(initial_guess),
             args=objective_args,
             method=solver,
             bounds=bounds,
-- 
2.43.0


From 8bfc8e4b408bdc9d1e32935b4fdfbc1e61ed0da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 27/33] fix: max_sharpe scaled the bounds of nonlinear convex
 constraints as if they were linear

---
 pypfopt/efficient_frontier/efficient_frontier.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pypfopt/efficient_frontier/efficient_frontier.py b/pypfopt/efficient_frontier/efficient_frontier.py
index 490486f..10c3782 100644
--- a/pypfopt/efficient_frontier/efficient_frontier.py
+++ b/pypfopt/efficient_frontier/efficient_frontier.py
@@ -273,7 +273,7 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
         # max_sharpe requires us to make a variable transformation.
         # Here we treat w as the transformed variable.
         self._objective = cp.quad_form(self._w, self.cov_matrix, assume_PSD=True)
-        k = cp.Variable()
+        k = cp.Variable(nonneg=True)
 
         # Note: objectives are not scaled by k. Hence there are subtle differences
         # between how these objectives work for max_sharpe vs min_volatility
@@ -295,6 +295,13 @@ class EfficientFrontier(base_optimizer.BaseConvexOptimizer):
                     new_constraints.append(scaled == 0)
                 else:
                     new_constraints.append(scaled <= 0)
+            elif isinstance(constr, cp.constraints.nonpos.Inequality) and hasattr(
+                cp, "perspective"
+            ):
+                # Convex constraint f(w) <= 0: becomes k * f(w / k) <= 0
+                f = constr.args[0] - constr.args[1]
+                for term in [f] if f.is_scalar() else f:
+                    new_constraints.append(cp.perspective(term, k) <= 0)
             elif isinstance(constr, cp.constraints.nonpos.Inequality):
                 # Either the first or second item is the expression
                 if isinstance(
-- 
2.43.0


From 459ec6099463f2e86ffe2653431a82fff4d9c0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 28/33] fix: lp_portfolio could stop short of the optimal
 allocation

---
 pypfopt/discrete_allocation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index 77625bd..930090e 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -328,7 +328,9 @@ class DiscreteAllocation:
         objective = cp.sum(u) + r
 
         opt = cp.Problem(cp.Minimize(objective), constraints)
-        opt.solve(solver=solver)
+        # By default ECOS_BB may stop 0.1% of the portfolio value short of the optimum
+        solver_options = {"mi_rel_eps": 1e-8} if solver == "ECOS_BB" else {}
+        opt.solve(solver=solver, **solver_options)
 
         if opt.status not in {"optimal", "optimal_inaccurate"}:  # pragma: no cover
             raise exceptions.OptimizationError("Please try greedy_portfolio")
-- 
2.43.0


From 81cb29b00a352f32f9fbc613fd00ba91654bc6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 29/33] fix: greedy_portfolio gave up after eleven unaffordable
 assets although others could be bought

---
 pypfopt/discrete_allocation.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pypfopt/discrete_allocation.py b/pypfopt/discrete_allocation.py
index 930090e..9f47655 100644
--- a/pypfopt/discrete_allocation.py
+++ b/pypfopt/discrete_allocation.py
@@ -225,21 +225,19 @@ class DiscreteAllocation:
 
             # If we can't afford this asset, search for the next highest deficit that we
             # can purchase.
-            counter = 0
             while price > available_funds:
                 deficit[idx] = 0  # we can no longer purchase the asset at idx
                 idx = np.argmax(deficit)  # find the next most deviant asset
 
-                # If either of these conditions is met, we break out of both while loops
-                # hence the repeated statement below
-                if deficit[idx] < 0 or counter == 10:
+                # If no asset below its ideal weight is left, we break out of both
+                # while loops, hence the repeated statement below
+                if deficit[idx] <= 0:
                     break
 
                 ticker, weight = self.weights[idx]
                 price = self.latest_prices[ticker]
-                counter += 1
 
-            if deficit[idx] <= 0 or counter == 10:  # pragma: no cover
+            if deficit[idx] <= 0:  # pragma: no cover
                 # Dirty solution to break out of both loops
                 break
 
-- 
2.43.0


From 516bea600609a5f76245445e560a4b536606fb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 30/33] fix: CLA.efficient_frontier was empty or incomplete
 with fewer points than two per turning point

---
 pypfopt/cla.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 6c72d78..c8aae73 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -429,14 +429,16 @@ class CLA(base_optimizer.BaseOptimizer):
             self._solve()
 
         mu, sigma, weights = [], [], []
+        # each segment needs both its ends, however few points are asked for
+        n_segment = max(points // len(self.w), 2)
         # remove the 1, to avoid duplications
-        a = np.linspace(0, 1, points // len(self.w))[:-1]
+        a = np.linspace(0, 1, n_segment)[:-1]
         b = list(range(len(self.w) - 1))
         for i in b:
             w0, w1 = self.w[i], self.w[i + 1]
             if i == b[-1]:
                 # include the 1 in the last iteration
-                a = np.linspace(0, 1, points // len(self.w))
+                a = np.linspace(0, 1, n_segment)
             for j in a:
                 w = w1 * j + (1 - j) * w0
                 weights.append(np.copy(w))
-- 
2.43.0


From f8a81e03542ff774f55dbff75ed93398dc71759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 31/33] fix: CLA never terminated when two weights reached
 their bounds together

---
 pypfopt/cla.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index c8aae73..7ea8d50 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -310,6 +310,7 @@ class CLA(base_optimizer.BaseOptimizer):
         self.ls.append(None)
         self.g.append(None)
         self.f.append(f[:])
+        i_bounded = None
         while True:
             # 1) case a): Bound one free weight
             l_in = None
@@ -329,6 +330,10 @@ class CLA(base_optimizer.BaseOptimizer):
             if len(f) < self.mean.shape[0]:
                 b = self._get_b(f)
                 for i in b:
+                    # the weight bounded at the last turning point stays there next,
+                    # although rounding may suggest to free it again straight away
+                    if i == i_bounded:
+                        continue
                     covarF, covarFB, meanF, wB = self._get_matrices(f + [i])
                     covarF_inv = np.linalg.inv(covarF)
                     l, bi = self._compute_lambda(
@@ -355,8 +360,10 @@ class CLA(base_optimizer.BaseOptimizer):
                     self.ls.append(l_in)
                     f.remove(i_in)
                     w[i_in] = bi_in  # set value at the correct boundary
+                    i_bounded = i_in
                 else:
                     self.ls.append(l_out)
+                    i_bounded = None
                     f.append(i_out)
                 covarF, covarFB, meanF, _ = self._get_matrices(f)
                 # a weight that has just been bounded counts at its bound, not at
-- 
2.43.0


From aa9b8876be6b09cd5f5e7b2584374b397d456cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 32/33] fix: CLA failed or went wrong when expected returns
 tied or turning points coincided

---
 pypfopt/cla.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 7ea8d50..5c63827 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -62,9 +62,12 @@ class CLA(base_optimizer.BaseOptimizer):
         """
         # Initialize the class
         self.mean = np.array(expected_returns).reshape((len(expected_returns), 1))
-        # if (self.mean == np.ones(self.mean.shape) * self.mean.mean()).all():
-        #     self.mean[-1, 0] += 1e-5
         self.expected_returns = self.mean.reshape((len(self.mean),))
+        # The algorithm needs turning points that do not coincide, as they do for equal
+        # expected returns: part them by far less than any estimate's accuracy
+        scale = np.abs(self.mean).max() or 1
+        parts = 1e-10 * np.sqrt(np.arange(1, len(self.mean) + 1)).reshape(-1, 1)
+        self.mean = self.mean + scale * parts
         self.cov_matrix = np.asarray(cov_matrix)
 
         # Bounds
@@ -449,7 +452,7 @@ class CLA(base_optimizer.BaseOptimizer):
             for j in a:
                 w = w1 * j + (1 - j) * w0
                 weights.append(np.copy(w))
-                mu.append(np.dot(w.T, self.mean)[0, 0])
+                mu.append(np.dot(w.T, self.expected_returns)[0])
                 sigma.append(np.dot(np.dot(w.T, self.cov_matrix), w)[0, 0] ** 0.5)
 
         self.frontier_values = (mu, sigma, weights)
-- 
2.43.0


From 3a772dc57a1b6eb8e223cff66daafd1f503f3de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:30 +0000
Subject: [PATCH 33/33] fix: CLA failed when the lower bounds leave exactly one
 portfolio

---
 pypfopt/cla.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypfopt/cla.py b/pypfopt/cla.py
index 5c63827..df0b6fd 100644
--- a/pypfopt/cla.py
+++ b/pypfopt/cla.py
@@ -126,7 +126,7 @@ class CLA(base_optimizer.BaseOptimizer):
         b = np.sort(a, order="mu")
         # 3) First free weight
         i, w = b.shape[0], np.copy(self.lB)
-        while sum(w) < 1:
+        while i == b.shape[0] or sum(w) < 1:
             i -= 1
             w[b[i][0]] = self.uB[b[i][0]]
         w[b[i][0]] += 1 - sum(w)
-- 
2.43.0

