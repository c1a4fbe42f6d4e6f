"""C14 weight bounds: every accepted spelling means the same box, for every optimiser."""
import itertools

import cvxpy as cp
import numpy as np
import pandas as pd

import data
from engine import Family
from optim import Model, weights_of
from oracle import INF, Poly
from pypfopt import CLA, EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance
from pypfopt.base_optimizer import BaseConvexOptimizer
from pypfopt.exceptions import OptimizationError

NAN = float("nan")


def spell(how, box):
    """The user's spelling of a list of (lo, hi); None = no bound."""
    if how == "pair":
        return tuple(box[0])
    if how == "pair-list":
        return list(box[0])
    if how == "tuples":
        return [tuple(b) for b in box]
    if how == "lists":
        return [list(b) for b in box]
    if how == "tuple-of-tuples":
        return tuple(tuple(b) for b in box)
    if how == "array":
        return np.array([[NAN if x is None else x for x in b] for b in box], float)
    lo = [NAN if b[0] is None else b[0] for b in box]
    hi = [NAN if b[1] is None else b[1] for b in box]
    if how == "arrays":
        return (np.array(lo, float), np.array(hi, float))
    if how == "arrays-list":
        return [np.array(lo, float), np.array(hi, float)]
    raise KeyError(how)


def documented(how, box):
    """(lower, upper): in a pair (of numbers or arrays) a missing bound is -1 or 1, per asset it is none."""
    pair = how.startswith("pair") or how.startswith("arrays")
    lo = np.array([(-1.0 if pair else -INF) if b[0] is None else b[0] for b in box], float)
    hi = np.array([(1.0 if pair else INF) if b[1] is None else b[1] for b in box], float)
    return lo, hi


def optimizer(case, bounds, n):
    lab = data.names(n)
    kind = case["cls"]
    if kind == "base":
        return BaseConvexOptimizer(n, lab, weight_bounds=bounds, solver="CLARABEL")
    mu = pd.Series([.05 + .03 * i for i in range(n)], index=lab)
    if kind == "ef":
        return EfficientFrontier(mu, pd.DataFrame(np.eye(n) * .04, index=lab, columns=lab), weight_bounds=bounds, solver="CLARABEL")
    R = pd.DataFrame(data.grid_returns(6, n), columns=lab)
    return {"cvar": EfficientCVaR, "cdar": EfficientCDaR, "semivariance": EfficientSemivariance}[kind](mu, R, weight_bounds=bounds, solver="CLARABEL")


def run(case, ctx):
    box, n = case["box"], len(case["box"])
    lo, hi = documented(case["how"], box)
    bounds = spell(case["how"], box)
    before = repr(bounds)
    P = Poly(n, lo, hi, Aeq=[np.ones(n)], beq=[1.0])
    possible = P.feasible()
    for t in directions(n):
        opt = ctx.step("init", optimizer, case, bounds, n)
        tag, val = ctx.attempt(["convex", t.tolist()], opt.convex_objective, lambda w: cp.sum_squares(w - t))
        if not possible:
            ctx.require(tag == "err" and isinstance(val, OptimizationError), "weights were returned although no portfolio satisfies the bounds")
            ctx.outcome("impossible")
            continue
        if tag == "err":
            raise val
        w = weights_of(ctx, opt, val, "convex")
        ctx.small(max((lo - w).max(), (w - hi).max()), 1e-6, "a weight is outside its bounds", w=w, lower=lo, upper=hi)
        m = Model(P).quadratic(np.eye(n), 1.0, centre=t)
        ctx.small(m.bound(w), 2e-6 * (1 + m.value(w)), "a portfolio inside the bounds was not considered", w=w, lower=lo, upper=hi)
        ctx.outcome("corner" if (np.minimum(w - lo, hi - w) < 1e-5).any() else "interior")
    if possible and case["cls"] == "base":
        t = directions(n)[-1]
        opt = optimizer(case, bounds, n)
        start = np.clip(np.full(n, 1 / n), lo, hi)
        res = ctx.step("nonconvex", opt.nonconvex_objective, lambda w, t: float(((w - t) ** 2).sum()), objective_args=(t,), initial_guess=start)
        w = weights_of(ctx, opt, res, "nonconvex")
        m = Model(P).quadratic(np.eye(n), 1.0, centre=t)
        ctx.small(P.infeasibility(w), 1e-6, "nonconvex: a weight is outside its bounds", w=w)
        ctx.small(m.bound(w), 1e-4 * (1 + m.value(w)), "nonconvex: a portfolio inside the bounds was not considered", w=w)
    ctx.require(repr(bounds) == before, "the caller's bounds were changed")


def directions(n):
    e = np.eye(n)
    out = [5 * e[i] for i in range(n)] + [-5 * e[i] for i in range(n)] + [np.zeros(n)]
    if n > 1:
        out.append(3 * e[0] - 2 * e[-1])
    return out


def run_neutral(case, ctx):
    """Market neutrality keeps bounds that allow shorting and otherwise replaces them by (-1, 1)."""
    box, n = case["box"], len(case["box"])
    lo, hi = documented(case["how"], box)
    if not (lo < 0).any():
        lo, hi = np.full(n, -1.0), np.full(n, 1.0)
    lab = data.names(n)
    P = Poly(n, lo, hi, Aeq=[np.ones(n)], beq=[0.0])
    for k in range(2 * n):
        mu = np.array([.01 + .02 * i for i in range(n)])
        mu[k % n] += .4 * (1 if k < n else -1)
        opt = EfficientFrontier(pd.Series(mu, index=lab), pd.DataFrame(np.eye(n) * .04, index=lab, columns=lab), weight_bounds=spell(case["how"], box), solver="CLARABEL")
        tag, val = ctx.attempt(["utility", k], opt.max_quadratic_utility, 1, market_neutral=True)
        if not P.feasible():
            ctx.require(tag == "err" and isinstance(val, OptimizationError), "weights were returned although no portfolio satisfies the bounds")
            continue
        if tag == "err":
            raise val
        w = weights_of(ctx, opt, val, "utility")
        ctx.small(P.infeasibility(w), 1e-6, "market neutral: a weight is outside its bounds", w=w)
        m = Model(P).linear(-mu).quadratic(np.eye(n) * .04, .5)
        ctx.small(m.bound(w), 2e-6, "market neutral: a better portfolio inside the bounds exists", w=w)
        ctx.outcome("neutral")


def run_cla(case, ctx):
    """The critical line algorithm respects the same boxes (minimum volatility determines them)."""
    box, n = case["box"], len(case["box"])
    lo, hi = np.array([b[0] for b in box], float), np.array([b[1] for b in box], float)
    P = Poly(n, lo, hi, Aeq=[np.ones(n)], beq=[1.0])
    for k in range(n):
        mu = np.array([.05 + .03 * ((i + k) % n) for i in range(n)])
        v = np.array([.1 + .15 * ((i + k) % n) for i in range(n)])
        S = np.diag(v ** 2)
        cla = ctx.step("init", CLA, mu, S, weight_bounds=spell(case["how"], box))
        w = np.array(list(ctx.step(["min_volatility", k], cla.min_volatility).values()))
        ctx.small(P.infeasibility(w), 1e-8, "CLA: a weight is outside its bounds", w=w)
        ctx.small(Model(P).quadratic(S).bound(w), 1e-8, "CLA: a portfolio inside the bounds was not considered", w=w)
        ctx.outcome("cla")


def run_bad(case, ctx):
    n = 3
    tag, val = ctx.attempt("init", BaseConvexOptimizer, n, data.names(n), weight_bounds=case["bad"] if case["as"] == "list" else tuple(case["bad"]))
    ctx.require(tag == "err" and isinstance(val, (TypeError, ValueError, IndexError)), "malformed bounds were accepted")
    ctx.outcome("refused")


def families(tier):
    deep = tier == "thorough"
    pairs = [(0, 1), (-1, 1), (.1, .6), (-.3, .7), (None, .8), (.2, None), (None, None), (0, .4), (0, 2)]
    hows_each = ["tuples", "lists", "tuple-of-tuples", "array"]
    out, cases = [], []
    for n in (1, 2, 3, 4):
        for b in pairs:
            for how in ["pair", "pair-list"] + hows_each:
                cases.append({"cls": "base", "how": how, "box": [list(b)] * n})
    out.append(Family("uniform", cases, run, "9 bound pairs (None on either side) x 1-4 assets x 6 spellings; the feasible set is probed from every axis direction", chunk=4))
    each = []
    two = [(0, 1), (None, .3), (-.4, None), (.2, .5)]
    for n, alpha in ((2, two), (3, two if deep else two[1:])):
        for box in itertools.product(alpha, repeat=n):
            for how in hows_each + (["arrays", "arrays-list"] if n != 2 else []):
                each.append({"cls": "base", "how": how, "box": [list(b) for b in box]})
    out.append(Family("per-asset", each, run, "every assignment of 3-4 bound pairs to 2-3 assets x per-asset spellings (lists, tuples, arrays, pair of arrays)", chunk=4))
    cls = []
    for kind in ("ef", "cvar", "cdar", "semivariance"):
        for how, box in (("pair", [(-.3, .7)] * 3), ("pair", [(None, .5)] * 3), ("tuples", [(0, .2), (-.1, .6), (.1, None)]), ("array", [(0, .2), (-.1, .6), (.1, 1)]), ("arrays", [(0, .2), (-.1, .6), (.1, 1)])):
            cls.append({"cls": kind, "how": how, "box": [list(b) for b in box]})
    out.append(Family("classes", cls, run, "the same spellings through every optimiser class", chunk=1))
    neu = []
    for how in ("pair", "tuples", "array", "arrays"):
        for b in ((0, 1), (.1, .5), (-.2, .6), (-1, 1), (-.5, .1), (0, .2)):
            for n in (2, 3):
                if how == "arrays" and n == 2:
                    continue
                neu.append({"how": how, "box": [list(b)] * n})
    for how in ("tuples", "array"):
        neu.append({"how": how, "box": [[0, 1], [-.3, .2], [0, .5]]})
        neu.append({"how": how, "box": [[0, 1], [.1, .2], [0, .5]]})
    out.append(Family("market-neutral", neu, run_neutral, "amended and kept bounds of market-neutral portfolios", chunk=2))
    cla = []
    for how in ("pair", "tuples", "lists", "array", "arrays", "arrays-list"):
        for b in ((0, 1), (-1, 1), (.1, .6), (-.2, .7), (0, .45)):
            cla.append({"how": how, "box": [list(b)] * 3})
        if how != "pair":
            cla.append({"how": how, "box": [[0, .3], [.1, .6], [-.2, .9]]})
            cla.append({"how": how, "box": [[.2, .5], [0, .3], [0, 1], [.05, .6]]})
    out.append(Family("critical-line", cla, run_cla, "bound spellings of the critical line algorithm", chunk=2))
    bad = [[0], [0, 1, 2, 3], [[0, 1], [0, 1]], [[0, 1]] * 4, [[0, .5]]]
    out.append(Family("malformed", [{"bad": b, "as": a} for b in bad for a in ("list", "tuple")], run_bad, "collections of the wrong length"))
    return out
