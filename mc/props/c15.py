"""C15 critical line algorithm: optimal answers, an efficient frontier, independent of the order of requests."""
import itertools

import numpy as np
import pandas as pd

import data
from engine import Family
from optim import Model, bounds_of, weights_of
from oracle import Poly
from pypfopt import CLA
from props.c07 import judge_sharpe

TOL = 1e-7


def setup(case, ctx):
    mu, S = np.array(case["mu"], float), np.array(case["S"], float)
    n = len(mu)
    lab = data.names(n, case.get("names", "str"))
    form = case.get("form", "frame")
    a = {"frame": pd.Series(mu, index=lab), "array": mu.copy(), "list": mu.tolist(), "column": mu.reshape(-1, 1)}[form]
    b = pd.DataFrame(S, index=lab, columns=lab) if form == "frame" else S.copy()
    arg = tuple(case["bounds"][1:]) if case["bounds"][0] == "pair" else [tuple(x) for x in case["bounds"][1]]
    cla = ctx.step("init", CLA, a, b, weight_bounds=arg)
    ctx.require(list(cla.tickers) == (lab if form == "frame" else list(range(n))), "assets are labelled wrongly", got=cla.tickers)
    lo, hi = bounds_of(case["bounds"], n)
    return cla, mu, S, Poly(n, lo, hi, Aeq=[np.ones(n)], beq=[1.0]), (a, b)


def check_min(ctx, cla, res, S, P):
    w = weights_of(ctx, cla, res, "min_volatility")
    ctx.small(P.infeasibility(w), TOL, "min_volatility: weights outside the bounds or not summing to one", w=w)
    ctx.small(Model(P).quadratic(S).bound(w), TOL, "min_volatility: a less volatile portfolio exists", w=w)


def check_sharpe(ctx, cla, res, mu, S, P):
    w = weights_of(ctx, cla, res, "max_sharpe")
    ctx.small(P.infeasibility(w), TOL, "max_sharpe: weights outside the bounds or not summing to one", w=w)
    if w @ mu > 1e-4 or -P.lp(-mu)[0] > 1e-3:
        judge_sharpe(ctx, P, mu, S, 0.0, w, 2e-6, "max_sharpe")
        ctx.outcome("sharpe")


def check_frontier(ctx, cla, res, mu, S, P, points, ties=False):
    m, s, ws = res
    ctx.require(len(m) == len(s) == len(ws) and len(m) >= 1, "frontier lists differ in length", n=(len(m), len(s), len(ws)))
    if points is not None:
        ctx.require(len(m) <= max(points, 2, len(cla.w)) + 1, "more frontier points than asked for", got=len(m), asked=points)
    top = -P.lp(-mu)[0]
    for k, w in enumerate(ws):
        w = np.asarray(w, float).ravel()
        if ties and k + 1 < len(m) and abs(m[k + 1] - m[k]) < (1e-5 if ties == "nearly" else 1e-7):
            continue  # equally high returns: only the last of them can be the least volatile
        ctx.small(P.infeasibility(w), TOL, "frontier: weights outside the bounds or not summing to one", w=w)
        ctx.close([m[k], s[k]], [w @ mu, np.sqrt(w @ S @ w)], 1e-9, "frontier: return and volatility are not those of the weights")
        Q = P.plus(G=-mu, h=-(w @ mu) + 1e-12)
        ctx.small(Model(Q).quadratic(S).bound(w), TOL, "frontier: a less volatile portfolio with the same return exists", w=w)
    ctx.require(all(a >= b - 1e-9 for a, b in zip(m, m[1:])), "frontier: returns do not descend")
    ctx.small(abs(m[0] - top), 1e-6, "frontier does not start at the highest attainable return", got=m[0], want=top)
    best = Model(P).quadratic(S)
    ctx.small(best.bound(np.asarray(ws[-1]).ravel()), TOL, "frontier does not end at the least volatile portfolio")
    ctx.require(all(a >= b - 1e-9 for a, b in zip(s, s[1:])), "frontier: volatilities do not descend")


def run(case, ctx):
    cla, mu, S, P, args = setup(case, ctx)
    keep = [x.copy() if hasattr(x, "copy") else list(x) for x in args]
    check_min(ctx, cla, ctx.step("min_volatility", cla.min_volatility), S, P)
    check_sharpe(ctx, cla, ctx.step("max_sharpe", cla.max_sharpe), mu, S, P)
    pts = case.get("points", 60)
    res = ctx.step("efficient_frontier", cla.efficient_frontier, **({} if pts is None else {"points": pts}))
    check_frontier(ctx, cla, res, mu, S, P, 100 if pts is None else pts, case.get("ties"))
    for x, y in zip(args, keep):
        ctx.require(np.array_equal(np.asarray(x, float), np.asarray(y, float)), "the caller's inputs were changed")
    ctx.outcome("frontier")


def run_hist(case, ctx):
    cla, mu, S, P, _ = setup(case, ctx)
    for op in case["ops"]:
        if op == "min_volatility":
            check_min(ctx, cla, ctx.step(op, cla.min_volatility), S, P)
            last = op
        elif op == "max_sharpe":
            check_sharpe(ctx, cla, ctx.step(op, cla.max_sharpe), mu, S, P)
        elif op == "performance":
            if cla.weights is None:
                continue
            w = np.array(cla.weights, float)
            got = ctx.step(op, cla.portfolio_performance)
            ctx.close(got[:2], [w @ mu, np.sqrt(w @ S @ w)], 1e-9, "performance is not that of the weights")
        else:
            before = None if cla.weights is None else np.array(cla.weights, float).copy()
            res = ctx.step(op, cla.efficient_frontier, points=op)
            check_frontier(ctx, cla, res, mu, S, P, op)
            ctx.require(before is None if cla.weights is None else np.array_equal(before, cla.weights), "tracing the frontier changed the weights")
            fresh = setup(case, ctx)[0].efficient_frontier(points=op)
            ctx.close(np.array(res[0]), np.array(fresh[0]), 1e-12, "an earlier request changed the frontier")
    ctx.outcome(len(case["ops"]))


def families(tier):
    deep = tier == "thorough"
    out = []
    two, three = [], []
    for mu, v, c, b in itertools.product([[.05, .15], [.15, .05], [-.05, .1], [.02, .021]], [[.1, .2], [.3, .1]], [-.6, 0, .5, .95],
                                         [["pair", 0, 1], ["pair", -1, 1], ["pair", .2, .7], ["pair", -.3, 1.5], ["each", [[.1, .6], [0, .95]]]]):
        two.append({"mu": mu, "S": data.cov_from(v, [[1, c], [c, 1]]).tolist(), "bounds": b})
    out.append(Family("two-assets", two, run, "4 returns x 2 volatilities x 4 correlations x 5 bounds", chunk=8))
    for mu in itertools.permutations([.05, .12, .2]):
        for c in itertools.product([-.3, 0, .4] if not deep else [-.4, -.2, 0, .3, .6], repeat=3):
            S = data.cov_from([.1, .2, .3], data.sym_corr(3, c))
            if np.linalg.eigvalsh(S).min() < 1e-4:
                continue
            for b in (["pair", 0, 1], ["pair", -1, 1], ["each", [[0, .5], [.1, .6], [-.2, .95]]], ["pair", .05, .6]):
                three.append({"mu": list(mu), "S": S.tolist(), "bounds": b, "points": 24})
    out.append(Family("three-assets", three, run, "every order of three returns x every correlation pattern over %s x 4 bounds" % ("{-.4,-.2,0,.3,.6}" if deep else "{-.3,0,.4}"), chunk=12))
    forms = []
    S3 = data.cov_from([.1, .2, .3], data.sym_corr(3, [.2, -.3, .1])).tolist()
    for form in ("frame", "array", "list", "column"):
        for nm in ("str", "int"):
            for pts in (None, 0, 1, 2, 3, 4, 5, 7, 10, 33, 200, 1001):
                forms.append({"mu": [.1, .05, .2], "S": S3, "bounds": ["pair", 0, 1], "form": form, "names": nm, "points": pts})
    out.append(Family("forms", forms, run, "input containers, tickers, numbers of points", chunk=2))
    big = []
    for n in (5, 8, 13, 21, 34, 55) if deep else (5, 8, 13, 22):
        for kind in ("factor", "toeplitz"):
            mu, S = data.structured(n, kind)
            mu = mu + .001 * np.arange(n)  # pairwise different
            for b in (["pair", 0, 1], ["pair", -.25, .5], ["each", [[0, .4] if i % 2 else [-.1, .9] for i in range(n)]]):
                big.append({"mu": mu.tolist(), "S": S.tolist(), "bounds": b, "points": 60})
    out.append(Family("larger", big, run, "structured instances with up to %d assets" % (55 if deep else 22), chunk=1))
    few = []
    for n in (3, 6, 11, 60):
        for kind in ("factor", "toeplitz"):
            mu, S = data.structured(n, kind)
            mu = mu + .001 * np.arange(n)
            for b in (["pair", 0, 1], ["pair", 0, 2.5 / n]):
                for pts in (1, 2, n // 2, n, 2 * n, None) if n < 60 else (None,):
                    few.append({"mu": mu.tolist(), "S": S.tolist(), "bounds": b, "points": pts})
    out.append(Family("few-points", few, run, "fewer frontier points asked for than the frontier has turning points (the default number with 60 assets)", chunk=1))
    close = []
    for mu in itertools.permutations([.05, .12, .2]):
        for c in itertools.product([-.3, .2, .5, .8, .95] if not deep else [-.3, .2, .5, .6, .8, .9, .95], repeat=3):
            for v in ([.1, .2, .3], [.13, .21, .22]):
                S = data.cov_from(v, data.sym_corr(3, c))
                if np.linalg.eigvalsh(S).min() < 1e-4:
                    continue
                for b in (["pair", 0, 1], ["pair", 0, .5], ["each", [[0, .25], [.25, .5], [.25, 1]]]):
                    close.append({"mu": list(mu), "S": S.tolist(), "bounds": b, "points": 9})
    out.append(Family("close-assets", close, run, "three assets, strongly correlated and capped, so that several weights reach their bounds together", chunk=20))
    four = []
    for mu in itertools.permutations([.05, .1, .15, .2]):
        for c in itertools.product([.1, .5, .8] if deep else [.1, .8], repeat=6):
            S = data.cov_from([.1, .15, .2, .25], data.sym_corr(4, c))
            if np.linalg.eigvalsh(S).min() < 1e-4:
                continue
            for b in (["pair", 0, 1], ["pair", 0, .5], ["pair", 0, 1 / 3], ["pair", -.5, .5]):
                four.append({"mu": list(mu), "S": S.tolist(), "bounds": b, "points": 8})
    four += [{"mu": list(mu), "S": np.array(S).tolist(), "bounds": ["pair", 0, u], "points": 8} for mu, S, u in (
        ([.05, .1, .15, .2], [[.01, .012, .01, .0125], [.012, .0225, .024, .01875], [.01, .024, .04, .04], [.0125, .01875, .04, .0625]], 1 / 3),
        ([.05, .2, .15, .1], [[.01, .0015, .016, .0025], [.0015, .0225, .015, .01875], [.016, .015, .04, .005], [.0025, .01875, .005, .0625]], .5),
        ([.1, .15, .05, .2], [[.01, .0075, .002, .0125], [.0075, .0225, .003, .03], [.002, .003, .04, .025], [.0125, .03, .025, .0625]], .5))]
    mu, S = data.structured(6)
    four.append({"mu": (mu + .001 * np.arange(6)).tolist(), "S": S.tolist(), "bounds": ["pair", 0, 1], "points": 20})  # three events coincide
    out.append(Family("four-assets", four, run, "every order of four evenly spaced returns x correlation patterns x 4 bounds, incl. inputs in which turning points coincide exactly", chunk=20))
    fixed = []
    for n in (1, 2, 3, 4):
        for mu in itertools.permutations([.05, .12, .2, .1][:n]):
            for c in (0, .5, .9):
                S = data.cov_from([.1, .2, .3, .25][:n], data.sym_corr(n, [c] * 6))
                for lo, hi in (([1 / n] * n, [1] * n), ([1 / n] * n, [1 / n] * n), ([0] * n, [1 / n] * n), ([1] + [0] * (n - 1), [1] * n), ([.3] + [0] * (n - 1), [.3] + [1] * (n - 1))):
                    if sum(hi) > 1 - 1e-9 and sum(lo) < 1 + 1e-9:
                        fixed.append({"mu": list(mu), "S": S.tolist(), "bounds": ["each", [list(x) for x in zip(lo, hi)]], "points": 6})
    out.append(Family("fixed", fixed, run, "bounds that leave a single portfolio, or fix an asset's weight", chunk=20))
    ties = []
    for mu in itertools.product([.05, .12, .2], repeat=3):
        if len(set(mu)) == 3:
            continue
        for c in itertools.product([-.3, 0, .5, .8], repeat=3):
            for v in ([.1, .2, .3], [.2, .2, .2]):
                S = data.cov_from(v, data.sym_corr(3, c))
                if np.linalg.eigvalsh(S).min() < 1e-4:
                    continue
                for b in (["pair", 0, 1], ["pair", 0, .6], ["pair", -1, 1]):
                    ties.append({"mu": list(mu), "S": S.tolist(), "bounds": b, "ties": True, "points": 9})
    for n in (5, 12, 30):
        mu, S = data.structured(n)
        for m in (np.round(mu, 2), np.round(mu, 1), np.full(n, .1), np.zeros(n)):
            for b in (["pair", 0, 1], ["pair", 0, 2.5 / n]):
                ties.append({"mu": m.tolist(), "S": S.tolist(), "bounds": b, "ties": True})
    out.append(Family("tied-returns", ties, run, "two or all assets have the same expected return: minimum volatility, maximum Sharpe ratio and the frontier from its last point with the highest return on", chunk=20))
    near = []
    for d in (1e-12, 1e-10, 1e-9, 3e-9, 1e-8, 1e-7, 1e-6):
        for base, step in itertools.product(itertools.permutations([.1, .1, .05]), (1, -1)):
            mu = [x + step * i * d for i, x in enumerate(base)]
            for c in itertools.product([0, .5] if not deep else [-.3, 0, .5, .8], repeat=3):
                for v in ([.2, .3, .1], [.3, .2, .1], [.2, .2, .2]):
                    S = data.cov_from(v, data.sym_corr(3, c))
                    if np.linalg.eigvalsh(S).min() > 1e-4:
                        near.append({"mu": mu, "S": S.tolist(), "bounds": ["pair", 0, 1 if step > 0 or c[0] else .6], "ties": "nearly", "points": 9})
    out.append(Family("nearly-tied", near, run, "expected returns that differ by a millionth of a millionth to a millionth, in every order", chunk=20))
    hist = []
    ops = ["max_sharpe", "min_volatility", 12, 40, "performance"]
    for b in (["pair", 0, 1], ["each", [[0, .5], [.1, .6], [-.2, .95]]]):
        for k in range(1, (5 if deep else 4)):
            for o in itertools.product(ops, repeat=k):
                hist.append({"mu": [.1, .05, .2], "S": S3, "bounds": b, "ops": list(o)})
    out.append(Family("histories", hist, run_hist, "every sequence of <= %d of 5 requests on one object" % (4 if deep else 3), chunk=12))
    return out
