"""C07 maximum Sharpe ratio."""
import itertools

import numpy as np
import pandas as pd
from cvxpy.error import SolverError

from engine import Family
from optim import Model, add_constraints, add_objectives, bounds_arg, poly_of, weights_of
from oracle import INF, Poly
from pypfopt import EfficientFrontier
from pypfopt.exceptions import OptimizationError
import data
from props.c06 import build

TOL, LOOSE = 2e-6, 5e-3


def cone_of(P, e):
    """y = w / (e.w): the portfolios of P with positive excess return, scaled to excess return one."""
    one = np.ones(P.n)
    return Poly(P.n, Aeq=np.vstack([P.Aeq - np.outer(P.beq, one), e[None, :]]), beq=np.append(np.zeros(len(P.beq)), 1.0),
                G=np.vstack([P.G - np.outer(P.h, one), -one[None, :]]), h=np.zeros(len(P.h) + 1))


def judge_sharpe(ctx, P, mu, S, rf, w, tol, what):
    """w lies in P and no portfolio of P has a higher Sharpe ratio (certified)."""
    e = mu - rf
    ctx.small(P.infeasibility(w), tol, f"{what}: weights violate a bound or constraint", w=w)
    x = float(e @ w)
    ctx.require(x > 0, f"{what}: the excess return is not positive although an admissible portfolio has a positive one", w=w)
    y = w / x
    m = Model(cone_of(P, e)).quadratic(S)
    v = m.value(y)
    # relative suboptimality of the squared ratio
    ctx.small(m.bound(y, enough=tol / 10 * v) / v, tol, f"{what}: another admissible portfolio has a higher Sharpe ratio", w=w, sharpe=v ** -.5)


def run(case, ctx):
    solver = case.get("solver", "CLARABEL")
    tol = LOOSE if solver is None else case.get("tol", TOL)
    some = 1e-3 * case.get("scale", 1)  # an excess return that is clearly positive
    for rf in case["rfs"]:
        opt, mu, S = build(case, ctx, solver)
        add_constraints(ctx, opt, case.get("cons", ()))
        P = poly_of(len(mu), case["bounds"], case.get("cons", ()), tickers=opt.tickers)
        hi, _ = P.lp(-(mu - rf))
        kw = {} if rf == 0 else {"risk_free_rate": rf}
        tag, val = ctx.attempt(["max_sharpe", rf], opt.max_sharpe, **kw)
        if tag == "err":
            ctx.require(isinstance(val, (ValueError, OptimizationError, SolverError)), f"max_sharpe: refused with {type(val).__name__}: {val}")
            ctx.require(hi == INF or -hi <= some or mu.max() <= rf, f"max_sharpe(rf={rf}) was refused although a portfolio with a positive excess return exists: {val}")
            ctx.outcome("refused")
            continue
        ctx.require(mu.max() > rf, f"max_sharpe(rf={rf}) was not refused although no asset returns more than the risk-free rate", w=dict(val))
        ctx.require(hi < -1e-6 * some, f"max_sharpe(rf={rf}) returned weights although no admissible portfolio has a positive excess return", w=dict(val))
        w = weights_of(ctx, opt, val, "max_sharpe")
        if -hi < some:
            continue
        judge_sharpe(ctx, P, mu, S, rf, w, tol, f"max_sharpe(rf={rf})")
        ctx.outcome("optimal")
        got = ctx.step("performance", opt.portfolio_performance, risk_free_rate=rf)
        sd = np.sqrt(w @ S @ w)
        ctx.close(got, [w @ mu, sd, (w @ mu - rf) / sd], 1e-9, "reported performance")


def run_quad(case, ctx):
    """A constraint on the sum of squared weights."""
    import cvxpy as cp

    mu, S = np.array(case["mu"], float), np.array(case["S"], float)
    opt = ctx.step("init", EfficientFrontier, mu, S, solver="CLARABEL")
    if case["how"] == "norm":
        ctx.step("constraint", opt.add_constraint, lambda w: cp.norm(w) <= case["cap"] ** .5)
    else:
        ctx.step("constraint", opt.add_constraint, lambda w: cp.sum_squares(w) <= case["cap"])
    w = weights_of(ctx, opt, ctx.step("max_sharpe", opt.max_sharpe), "max_sharpe")
    ctx.small(float(w @ w) - case["cap"], 1e-5, "the constraint on the squared weights is violated", w=w)
    P = poly_of(len(mu), ["pair", 0, 1])
    y = w / (mu @ w)
    m = Model(cone_of(P, mu)).quadratic(S)
    m.cap_quadratic(np.eye(len(mu)) - case["cap"] * np.ones((len(mu),) * 2), 0.0)  # |y|^2 <= cap (1'y)^2
    m.cons[-1] = (lambda x: float(np.sqrt(x @ x) - case["cap"] ** .5 * x.sum()), lambda x: x / np.sqrt(x @ x) - case["cap"] ** .5)
    v = m.value(y)
    ctx.small(m.bound(y, enough=1e-6 * v) / v, 1e-4, "another admissible portfolio has a higher Sharpe ratio", w=w)
    ctx.outcome("optimal")


SECT = ["sector", {"b": "x", "a": "y", "d": "x"}, {"y": 0.3}, {"x": 0.65}]
CONSTRAINTS = [
    [], [["le_i", [0, 0, 1], .3]], [["ge_i", [1, 0, 0], .4]], [["ge_off", [1, 0, 0], .45]], [["le_off", [0, 1, 1], .4]],
    [["eq_i", [0, 1, 0], .25]], [["eq_off", [0, 1, 0], .25]], [["le_rev", [1, 1, 0], .5]], [["ge_rev", [0, 1, 1], .7]],
    [["le_two", [1, -1, 0], 0]], [["le_par", [0, 0, 1], .3, "limit"]], [["ge_par", [1, 0, 0], .4, "limit"], ["le_par", [0, 1, 1], .55, "cap"]], [["ge_two", [1, 0, -1], .1]], [["eq_two", [1, -1, 0], .05]], [["ge", [1, -.5, 0], .1], ["le", [0, 1, 2], 1.1]], [SECT],
]


def families(tier):
    deep = tier == "thorough"
    out = []
    two = []
    for mu in ([.05, .15], [.15, .05], [.1, .1], [-.05, .1], [-.1, -.02]):
        for v in ([.1, .2], [.3, .1]):
            for c in (-.6, 0, .5, .9) if deep else (-.6, .5):
                for b in (["pair", 0, 1], ["pair", -1, 1], ["pair", .2, .7], ["pair", None, None], ["pair", -.3, 1.5], ["each", [[.1, .6], [0, 3]]], ["each", [[None, .9], [.1, 2]]]):
                    two.append({"mu": mu, "S": data.cov_from(v, [[1, c], [c, 1]]).tolist(), "bounds": b, "rfs": [0, .02, .08, .12, -.05] if deep else [0, .02, .12, -.05]})
    out.append(Family("two-assets", two, run, "5 returns x 2 volatilities x correlations x 7 bounds x risk-free rates (some above every return)", chunk=8))
    low = []
    for mu, rfs in (([-.1, -.02, -.05], [0, -.02, -.01, .05]), ([-.01, -.02, -.3], [0, -.01, .1]), ([.05, .02, .0], [.05, .06, .3]), ([0, -.1, -.4], [0, .01])):
        for c in ([0, 0, 0], [.3, -.4, .5]):
            for b in (["pair", 0, 1], ["pair", -1, 1], ["pair", -1, 2], ["pair", None, None], ["each", [[0, 1], [.1, .6], [-2, 1]]]):
                low.append({"mu": mu, "S": data.cov_from([.1, .2, .3], data.sym_corr(3, c)).tolist(), "bounds": b, "rfs": rfs})
    out.append(Family("no-excess", low, run, "no asset returns more than the risk-free rate, although portfolios with short positions may", chunk=8))
    three = []
    mus = [[.05, .1, .2], [.12, .04, .08], [.1, -.05, .03]]
    Ss = [data.cov_from([.1, .2, .3], data.sym_corr(3, c)) for c in ([0, 0, 0], [.3, -.4, .5], [.8, .7, .6])]
    for mu, S, b, c in itertools.product(mus, Ss, (["pair", 0, 1], ["pair", -1, 1], ["each", [[0, .5], [.1, .6], [-.2, 1]]]), CONSTRAINTS):
        three.append({"mu": mu, "S": S.tolist(), "bounds": b, "cons": c, "rfs": [0, .03]})
    out.append(Family("constraints", three, run, "3 returns x 3 covariances x 3 bounds x 16 constraint sets in every spelling (constants on either side, variables on both sides, sectors)", chunk=6))
    forms = []
    for form in ("frame", "array", "list", "column"):
        for nm in ("str", "int"):
            for b in (["pair", 0, 1], ["pair", -1, 1], ["pair", .1, .6]):
                for solver in ("CLARABEL", None, "ECOS"):
                    forms.append({"mu": mus[0], "S": Ss[1].tolist(), "bounds": b, "form": form, "names": nm, "solver": solver, "rfs": [0, .02], "tol": 1e-4})
    out.append(Family("forms", forms, run, "input containers, tickers, CLARABEL, ECOS and the default solver", chunk=2))
    big = []
    for n in (5, 8, 13, 25, 40, 61) if deep else (5, 8, 20, 33):
        for kind in ("factor", "toeplitz"):
            mu, S = data.structured(n, kind)
            for b in (["pair", 0, 1], ["pair", -.5, .5], ["each", [[0, .3] if i % 2 else [-.1, 1] for i in range(n)]], ["pair", 1 / (4 * n), .5]):
                big.append({"mu": mu.tolist(), "S": S.tolist(), "bounds": b, "rfs": [0, .02, .1]})
    out.append(Family("larger", big, run, "structured instances with up to %d assets" % (61 if deep else 33), chunk=1))
    scaled = []
    for k in (1 / 252, 100):
        for mu, S, b, c in itertools.product(mus if deep else mus[:2], Ss, (["pair", 0, 1], ["pair", -1, 1], ["each", [[0, .5], [.1, .6], [-.2, 1]]]), CONSTRAINTS if deep else CONSTRAINTS[::3]):
            kk = k * k if k == 100 else k
            scaled.append({"mu": [k * x for x in mu], "S": (kk * S).tolist(), "bounds": b, "cons": c, "rfs": [0, .03 * k, .11 * k, -.05 * k], "scale": k, "tol": 1e-5})
    out.append(Family("scales", scaled, run, "the same problems in daily and in percent figures, with risk-free rates to match", chunk=6))
    quad = []
    for how in ("norm", "squares"):
        for cap in (.36, .45):
            quad.append({"mu": mus[0], "S": Ss[0].tolist(), "cap": cap, "how": how})
    out.append(Family("squared-weights", quad, run_quad, "caps on the Euclidean norm and on the sum of squared weights", chunk=1))
    return out
