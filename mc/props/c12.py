"""C12 objective functions: value = definition, for numbers and for optimisation expressions alike."""
import itertools
import math

import cvxpy as cp
import numpy as np
import pandas as pd

import data
from engine import Family
from pypfopt import objective_functions as of


def definition(case):
    """Plain-Python restatement of each documented formula."""
    f, w = case["f"], case["w"]
    n = len(w)
    mu, S = case.get("mu"), case.get("S")
    ret = lambda: sum(a * b for a, b in zip(w, mu))  # noqa: E731
    var = lambda x: sum(x[i] * S[i][j] * x[j] for i in range(n) for j in range(n))  # noqa: E731
    sign = {True: -1, False: 1, None: -1}[case.get("negative")]
    if f == "portfolio_variance":
        return var(w)
    if f == "portfolio_return":
        return sign * ret()
    if f == "sharpe_ratio":
        return sign * (ret() - case.get("rf", 0)) / math.sqrt(var(w))
    if f == "quadratic_utility":
        return sign * (ret() - .5 * case["delta"] * var(w))
    if f == "L2_reg":
        return case.get("gamma", 1) * sum(x * x for x in w)
    if f == "transaction_cost":
        return case.get("k", .001) * sum(abs(a - b) for a, b in zip(w, case["prev"]))
    if f == "ex_ante_tracking_error":
        return var([a - b for a, b in zip(w, case["prev"])])
    act = [sum(a * b for a, b in zip(row, w)) - r for row, r in zip(case["R"], case["b"])]
    m = sum(act) / len(act)
    return sum((a - m) ** 2 for a in act)


def arguments(case):
    f = case["f"]
    kw = {}
    if f in ("portfolio_return", "sharpe_ratio", "quadratic_utility"):
        kw["expected_returns"] = np.array(case["mu"], float)
        if case.get("negative") is not None:
            kw["negative"] = case["negative"]
    if "S" in case:
        kw["cov_matrix"] = np.array(case["S"], float)
    if f == "sharpe_ratio" and "rf" in case:
        kw["risk_free_rate"] = case["rf"]
    if f == "quadratic_utility":
        kw["risk_aversion"] = case["delta"]
    if f == "L2_reg" and "gamma" in case:
        kw["gamma"] = case["gamma"]
    if f == "transaction_cost":
        kw["w_prev"] = np.array(case["prev"], float)
        if "k" in case:
            kw["k"] = case["k"]
    if f == "ex_ante_tracking_error":
        kw["benchmark_weights"] = np.array(case["prev"], float)
    if f == "ex_post_tracking_error":
        kw["historic_returns"] = np.array(case["R"], float)
        kw["benchmark_returns"] = np.array(case["b"], float)
        if case.get("form") == "frame":
            kw["historic_returns"] = pd.DataFrame(kw["historic_returns"])
            kw["benchmark_returns"] = pd.Series(kw["benchmark_returns"])
    return kw


CONVEX = {"portfolio_variance", "portfolio_return", "L2_reg", "transaction_cost", "ex_ante_tracking_error", "ex_post_tracking_error"}


def run(case, ctx):
    f = getattr(of, case["f"])
    want = definition(case)
    kw = arguments(case)
    keep = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in kw.items()}
    w = np.array(case["w"], float)
    got = ctx.step("number", f, w, **kw)
    ctx.require(np.isscalar(got), "not a number", got=type(got).__name__)
    size = case.get("size") and (abs(want) or 1)
    if size:  # relative to the value itself, also when it is tiny or huge
        ctx.close(got / size, want / size, 1e-9, f"{case['f']}: value differs from its definition")
    ctx.close(got, want, 1e-9, f"{case['f']}: value differs from its definition")
    var = cp.Variable(len(w))
    expr = ctx.step("expression", f, var, **kw)
    ctx.require(isinstance(expr, cp.Expression), "not an expression", got=type(expr).__name__)
    var.value = w
    ctx.close(float(expr.value), want, 1e-9, f"{case['f']}: the expression's value differs from the definition")
    if case["f"] in CONVEX or (case["f"] == "quadratic_utility" and case.get("negative") is not False):
        ctx.require(expr.is_convex(), f"{case['f']}: cannot be minimised by the optimisers")
    for k, v in kw.items():
        same = v.equals(keep[k]) if hasattr(v, "equals") else np.array_equal(v, keep[k])
        ctx.require(same, f"{case['f']}: argument {k} was changed")
    ctx.require(np.array_equal(w, np.array(case["w"], float)), "the weights were changed")
    ctx.outcome(case["f"])


def families(tier):
    deep = tier == "thorough"
    g = [-1, -.25, 0, .5, 1.5]
    W = [list(w) for n in (1, 2, 3) for w in itertools.product(g if n < 3 or deep else [-.5, 0, 1.25], repeat=n)]
    W += [[((7 * i + 3) % 11 - 4) / 9 for i in range(n)] for n in (5, 20)]
    cases = []
    for i, w in enumerate(W):
        n = len(w)
        mu = [(.05, .2, -.1)[(j + i) % 3] + .01 * j for j in range(n)]
        other = [(.3, -.2, .5, 0)[(j + i) % 4] for j in range(n)]
        vols = [.1 + .1 * ((j + i) % 4) for j in range(n)]
        for rho in (0, .4) if n > 1 else (0,):
            C = np.full((n, n), rho)
            np.fill_diagonal(C, 1)
            S = data.cov_from(vols, C).tolist()
            cases.append({"f": "portfolio_variance", "w": w, "S": S})
            cases.append({"f": "ex_ante_tracking_error", "w": w, "S": S, "prev": other})
            if any(w):
                cases += [{"f": "sharpe_ratio", "w": w, "mu": mu, "S": S, "negative": neg} for neg in (None, True, False)]
                cases += [{"f": "sharpe_ratio", "w": w, "mu": mu, "S": S, "rf": rf, "negative": False} for rf in (.02, -.01)]
            cases += [{"f": "quadratic_utility", "w": w, "mu": mu, "S": S, "delta": d, "negative": neg} for d in (.5, 1, 4) for neg in (None, True, False)]
        cases += [{"f": "portfolio_return", "w": w, "mu": mu, "negative": neg} for neg in (None, True, False)]
        cases += [{"f": "L2_reg", "w": w}] + [{"f": "L2_reg", "w": w, "gamma": x} for x in (.1, 2, 5)]
        cases += [{"f": "transaction_cost", "w": w, "prev": other}] + [{"f": "transaction_cost", "w": w, "prev": p, "k": x} for x in (.01, .5) for p in (other, w, [0] * n)]
        for T in (1, 2, 5):
            R = data.grid_returns(T, n, i % 5).tolist()
            for form in ("array", "frame"):
                cases.append({"f": "ex_post_tracking_error", "w": w, "R": R, "b": [.01 * ((t * 3 + i) % 4 - 1) for t in range(T)], "form": form})
    scaled = []
    for n, T in ((1, 30), (2, 1), (3, 60), (7, 250), (30, 100), (60, 300)) if not deep else ((1, 30), (2, 1), (3, 60), (7, 250), (12, 13), (30, 100), (60, 300), (150, 500)):
        for i, k in enumerate((1e-7, 1e-3, 1, 40, 1e4)):
            w = [k * ((7 * j + 3 + i) % 11 - 3.5) / 9 for j in range(n)]
            other = [k * ((5 * j + i) % 7 - 1.5) / 5 for j in range(n)]
            base = {"w": w, "size": True}
            for m, v in itertools.product((1e-5, 1, 300), (1e-6, 1, 1e3)):
                mu = [m * ((3 * j + i) % 8 - 2.5) / 20 for j in range(n)]
                S = (v * data.cov_from([.1 + .1 * ((j + i) % 4) for j in range(n)], .3 + .7 * np.eye(n))).tolist()
                if m == 1:
                    scaled += [dict(base, f="portfolio_variance", S=S), dict(base, f="ex_ante_tracking_error", S=S, prev=other), dict(base, f="ex_ante_tracking_error", S=S, prev=[0] * n)]
                if v == 1:
                    scaled.append(dict(base, f="portfolio_return", mu=mu, negative=(None, True, False)[i % 3]))
                scaled += [dict(base, f="sharpe_ratio", mu=mu, S=S, rf=rf, negative=neg) for rf, neg in ((0, None), (5 * m, True), (-m * k, False), (-.5, False))]
                scaled += [dict(base, f="quadratic_utility", mu=mu, S=S, delta=d, negative=neg) for d, neg in ((1e-6, None), (.01, False), (30, True), (1e6, None))]
            scaled += [dict(base, f="L2_reg", gamma=g) for g in (0, 1e-8, .003, 1, 1e5)] + [dict(base, f="transaction_cost", prev=p, k=c) for c in (0, 1e-9, .0005, 1, 50) for p in (other, w)]
            for r in (1e-4, 1, 100):
                R = (r * data.big_returns(T, n, i)).tolist()
                scaled += [dict(base, f="ex_post_tracking_error", R=R, b=[c * r * ((t * 3 + i) % 7 - 2) for t in range(T)], form=form) for c, form in ((.01, "array"), (0, "frame"), (3, "frame"))]
            S0 = [[0.0] * n for _ in range(n)]
            scaled += [dict(base, f="portfolio_variance", S=S0), dict(base, f="ex_ante_tracking_error", S=S0, prev=other), dict(base, f="quadratic_utility", mu=[.1] * n, S=S0, delta=2)]
    return [Family("scales", scaled, run, "weights from 1e-7 to 1e4, returns and covariances over eight magnitudes, coefficients 0 to 1e6, up to %d assets and %d periods" % (n, T), chunk=30), Family("values", cases, run, "all eight objective functions on every weight vector of 1-3 assets over a grid and two longer ones, all signs and parameters, as numbers and as expressions", chunk=150)]
