"""C08 a session on one optimiser object: every request is answered correctly or refused without side effects."""
import functools
import itertools

import numpy as np
from cvxpy.error import SolverError

import data
import downside
from engine import Family
from optim import add_constraints, add_objectives, poly_of, weights_of
from oracle import INF
from props import c06
from props.c07 import judge_sharpe
from pypfopt import objective_functions as of
from pypfopt.exceptions import InstantiationError, OptimizationError

REFUSALS = (InstantiationError, OptimizationError, ValueError, SolverError, NotImplementedError)
PARAMETRIC = ("max_quadratic_utility", "efficient_risk", "efficient_return", "utility")
LATE = ("add_constraint", "add_objective", "add_sector_constraints")


def late(opt, what):
    if what == "add_constraint":
        return opt.add_constraint(lambda w: w[0] <= .1)
    if what == "add_objective":
        return opt.add_objective(of.L2_reg, gamma=1)
    return opt.add_sector_constraints({opt.tickers[0]: "s"}, {}, {"s": .1})


def convex_min_var(opt, S):
    import cvxpy as cp

    return opt.convex_objective(lambda w: cp.quad_form(w, S, assume_PSD=True))


def perf(ctx, opt, rf=0.0):
    tag, val = ctx.attempt("performance", opt.portfolio_performance)
    if tag == "err":
        ctx.require(isinstance(val, ValueError), f"portfolio_performance failed with {type(val).__name__}: {val}")
        return None
    return tuple(val)


def stored(opt):
    return None if opt.weights is None else np.array(opt.weights, float).copy()


def run(case, ctx):
    kind = case["kind"]
    ef = kind == "ef"
    if ef:
        opt, mu, S = c06.build(case, ctx)
        R = None
    else:
        opt, mu, R = downside.build(case, ctx)
        S = None
    add_constraints(ctx, opt, case.get("cons", ()))
    add_objectives(ctx, opt, case.get("objs", ()), S)
    first = None      # the request that started the session: (method, market neutral)
    pure = True       # nothing but that request so far
    answered = False
    rf_used = 0.0
    for op in case["ops"]:
        method, arg, neutral = op
        before, report = stored(opt), perf(ctx, opt)
        if method in LATE:
            if first is None:
                continue  # before the first optimisation these are ordinary set-up (C28)
            tag, val = ctx.attempt(op, late, opt, method)
            if tag == "ok" and not answered:  # nothing has been solved yet: still set-up
                return
            ctx.require(tag == "err" and isinstance(val, InstantiationError), f"{method} was accepted after an optimisation")
            refused(ctx, opt, before, report, op)
            continue
        if method == "convex":
            tag, val = ctx.attempt(op, convex_min_var, opt, S)
        elif method == "max_sharpe":
            tag, val = ctx.attempt(op, opt.max_sharpe, risk_free_rate=arg)
        elif ef:
            tag, val = ctx.attempt(op, c06.request, opt, method, arg, neutral)
        else:
            tag, val = ctx.attempt(op, downside.request, opt, kind, method, arg, neutral)
        invalid = method == "max_quadratic_utility" and arg <= 0 or method == "utility" and arg <= 0 or method == "efficient_risk" and arg < 0 or isinstance(arg, str)
        must = (first is None or (pure and first == (method, neutral) and method in PARAMETRIC)) and not invalid
        if tag == "err":
            ctx.require(isinstance(val, REFUSALS), f"{op} failed with {type(val).__name__}: {val}")
            if must:
                if method == "max_sharpe":
                    hi, _ = poly_of(len(mu), case["bounds"], case.get("cons", ())).lp(-(mu - arg))
                    ctx.require(hi == INF or -hi <= 1e-3 or mu.max() <= arg, f"{op} was refused although it is attainable: {val}")
                elif ef:
                    method_ = "min_volatility" if method == "convex" else method
                    can = c06.attainable(case, method_, arg, neutral, mu, S, opt.tickers)
                    ctx.require(can != "yes", f"{op} was refused although it is attainable: {val}")
                else:
                    P = downside.poly_of(R.shape[1], case["bounds"], case.get("cons", ()), market_neutral=neutral, tickers=opt.tickers)
                    can = downside.attainable(case, method, arg, neutral, mu, R, P)
                    ctx.require(can != "yes" or downside.refusable(case, method, arg, mu), f"{op} was refused although it is attainable: {val}")
            refused(ctx, opt, before, report, op)
            ctx.outcome(method + "/refused")
        else:
            if invalid:
                ctx.require(not ef, f"{op} was accepted")
            answer(ctx, case, opt, op, val, mu, S, R)
            ctx.outcome(method + ("/again" if first else "/first"))
            if method == "max_sharpe":
                rf_used = arg
            if ef:
                w = stored(opt)
                got = ctx.step("performance", opt.portfolio_performance, risk_free_rate=rf_used)
                vol = float(np.sqrt(w @ S @ w))
                ctx.close(got[:2], [w @ mu, vol], 1e-9, "the reported return and volatility are not those of the weights")
                if vol > 1e-6:
                    ctx.close(got[2], (w @ mu - rf_used) / vol, 1e-8, "the reported Sharpe ratio is not that of the weights")
            answered = True
        # an argument that is turned down (ValueError) has not started the session
        if tag == "ok" or not isinstance(val, (ValueError, NotImplementedError)):
            if first is None:
                first = (method, neutral)
            elif first != (method, neutral):
                pure = False


def refused(ctx, opt, before, report, op):
    now = stored(opt)
    ctx.require((before is None) == (now is None) and (before is None or np.array_equal(before, now)), f"the refused request {op} changed the weights")
    again = perf(ctx, opt)
    ctx.require(repr(report) == repr(again), f"the refused request {op} changed the reported performance", before=report, after=again)


def answer(ctx, case, opt, op, val, mu, S, R):
    method, arg, neutral = op
    w = weights_of(ctx, opt, val, str(op))
    key = (repr({k: v for k, v in case.items() if k != "ops"}), repr(op), w.tobytes())
    if key in SEEN:
        ctx.compared += 1
        return
    if method == "max_sharpe":
        P = poly_of(len(mu), case["bounds"], case.get("cons", ()), tickers=opt.tickers)
        judge_sharpe(ctx, P, mu, S, arg, w, 2e-6, "max_sharpe")
    elif S is not None:
        c06.judge(ctx, case, opt, "min_volatility" if method == "convex" else method, arg, neutral, mu, S, "ok", val)
    else:
        downside.judge(ctx, case, opt, method, arg, neutral, mu, R, "ok", val)
        if not (method == "efficient_risk" and case["kind"] != "semivariance"):
            downside.report(ctx, case, opt, method, arg, mu, R, w)
    SEEN.add(key)


SEEN = set()


def families(tier):
    deep = tier == "thorough"
    depth = 4 if deep else 3
    out = []
    mu, S = [.05, .1, .2], data.cov_from([.1, .2, .3], data.sym_corr(3, [.3, -.4, .5])).tolist()

    def hist(name, base, alphabet, d, chunk):
        cases = [dict(base, ops=[list(o) for o in ops]) for ops in itertools.product(alphabet, repeat=d)]
        out.append(Family(name, cases, run, f"every sequence of {d} of {len(alphabet)} requests (all shorter ones are prefixes)", chunk=chunk))

    long_only = {"kind": "ef", "mu": mu, "S": S, "bounds": ["pair", 0, 1]}
    A = [("min_volatility", None, False), ("max_quadratic_utility", 1, False), ("max_quadratic_utility", 12, False), ("max_quadratic_utility", -1, False),
         ("efficient_risk", .14, False), ("efficient_risk", .22, False), ("efficient_risk", .01, False), ("efficient_return", .11, False), ("efficient_return", .16, False),
         ("efficient_return", .5, False), ("max_sharpe", .02, False), ("max_sharpe", 0, False), ("max_sharpe", .3, False), ("convex", None, False), ("add_constraint", None, False), ("add_objective", None, False)]
    hist("mean-variance", long_only, A, depth if not deep else 3, 32)
    if deep:
        hist("mean-variance-4", long_only, [A[i] for i in (0, 1, 2, 4, 6, 7, 9, 10, 12)], 4, 81)
    ls = {"kind": "ef", "mu": mu, "S": S, "bounds": ["pair", -1, 1], "cons": [["le_i", [1, 0, 0], .6]]}
    B = [("max_quadratic_utility", 2, False), ("max_quadratic_utility", 2, True), ("max_quadratic_utility", 9, True), ("efficient_risk", .1, True), ("efficient_risk", .2, True), ("efficient_risk", .2, False),
         ("efficient_return", .05, True), ("efficient_return", .1, True), ("efficient_return", .9, True), ("efficient_return", .12, False), ("add_sector_constraints", None, False), ("max_sharpe", .01, False)]
    hist("market-neutral", ls, B, depth, 24)
    # amended bounds: market neutrality requested for long-only bounds
    C = [("max_quadratic_utility", 2, True), ("max_quadratic_utility", 5, True), ("efficient_risk", .15, True), ("efficient_risk", .25, True), ("efficient_return", .05, True), ("efficient_return", .12, True)]
    hist("amended-bounds", long_only, C, depth, 12)
    tight = {"kind": "ef", "mu": mu, "S": S, "bounds": ["pair", 0, 1], "cons": [["le_i", [0, 0, 1], .3]]}
    D = [("efficient_return", .08, False), ("efficient_return", .125, False), ("efficient_return", .19, False), ("efficient_return", -.1, False), ("efficient_risk", .12, False), ("efficient_risk", .102, False), ("efficient_risk", -1, False)]
    hist("infeasible-then-feasible", tight, D, depth + (1 if not deep else 0), 49)
    # the user's own cvxpy parameters, and further objectives, next to the ones that requests update
    own = [A[i] for i in (0, 1, 2, 4, 5, 7, 8, 10)]
    plain = [A[i] for i in (1, 2, 4, 5, 7, 8)]
    param = [["le_par", [0, 0, 1], .45, "limit"], ["ge_par", [1, 0, 0], .05, "floor"]]
    hist("own-parameters", dict(long_only, cons=param), own, 3, 32)
    hist("own-weights", dict(long_only, objs=[["l2par", .05, "gamma"]], cons=param[:1]), plain, 3, 24)
    hist("objectives", dict(long_only, objs=[["l2", .1], ["tc", [.3, .3, .4], .02]], cons=[["le_i", [0, 0, 1], .5]]), plain, 3, 24)
    R = data.grid_returns(12, 3, 1).tolist()
    for kind, par in (("semivariance", {"frequency": 12}), ("cvar", {"beta": .8}), ("cdar", {"beta": .8})):
        base = dict(par, kind=kind, R=R, mu=mu, bounds=["pair", -.5, 1])
        ret, risk = downside.targets(base)
        _, nrisk = downside.targets(base, neutral=True)
        al = [("min", None, False), ("efficient_return", .08, False), ("efficient_return", .15, False), ("efficient_return", .95, False), ("efficient_risk", risk[0], False), ("efficient_risk", risk[1], False),
              ("efficient_risk", risk[-1], False), ("efficient_return", .1, True), ("efficient_risk", nrisk[1], True), ("add_constraint", None, False), ("add_objective", None, False)]
        if kind == "semivariance":
            al += [("utility", 2, False), ("utility", 20, False)]
        hist(kind, base, al, 3, 22)
        al = [a for a in al if a[0] in PARAMETRIC and not a[2] and a[1] != .95]
        hist(kind + "-own-parameters", dict(base, cons=[["le_par", [0, 0, 1], .9, "limit"]], objs=[["l2par", .002, "gamma"]]), al, 3, 22)
    return out
