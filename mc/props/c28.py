"""C28 every user constraint is honoured by every optimiser and request."""
import itertools

import cvxpy as cp
import numpy as np
import pandas as pd
from cvxpy.error import SolverError

import data
import downside
from engine import Family
from optim import Model, add_constraints, bounds_arg, convex_caps, poly_of, weights_of
from oracle import INF
from props import c06, c07
from pypfopt import EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance
from pypfopt.base_optimizer import BaseConvexOptimizer
from pypfopt.exceptions import OptimizationError

MU = [.05, .1, .2, .12]
S4 = data.cov_from([.1, .2, .3, .15], data.sym_corr(4, [.2, -.3, .1, .4, 0, .3]))
PARAM = {"semivariance": {"frequency": 4}, "cvar": {"beta": .6}, "cdar": {"beta": .6}}


def pick(targets):
    return targets[min(1, len(targets) - 1)]


def run(case, ctx):
    cls = case["cls"]
    if cls == "ef":
        c06.run(case, ctx)
    elif cls == "sharpe":
        c07.run(case, ctx)
    else:
        downside.run(case, ctx)


def cases_for(classes, n, bounds, cons, names="str", form="frame", neutral=False, few=True, T=12):
    """One case per optimiser class with its requests around what the constraints allow."""
    out = []
    mu, S = MU[:n], S4[:n, :n]
    if n > 4:
        mu, S = data.structured(n)
        mu = mu.tolist()
    lab = data.names(n, names) if form == "frame" else list(range(n))
    for cls in classes:
        if cls == "ef":
            case = {"cls": cls, "mu": mu, "S": S.tolist(), "bounds": bounds, "cons": cons, "names": names, "form": form}
            feasible = poly_of(n, bounds, cons, tickers=lab).feasible()
            if not feasible:
                case["requests"] = [("min_volatility", None, False), ("max_quadratic_utility", 2, False), ("efficient_risk", .2, False), ("efficient_return", .1, False)]
            else:
                ret, risk = c06.targets(np.array(mu), S, bounds, cons=cons, tickers=lab)
                case["requests"] = [("min_volatility", None, False), ("max_quadratic_utility", 2, False), ("efficient_return", pick(ret), False), ("efficient_risk", pick(risk), False)]
            if neutral and poly_of(n, bounds, cons, tickers=lab, market_neutral=True).feasible():
                ret, risk = c06.targets(np.array(mu), S, bounds, cons=cons, tickers=lab, neutral=True)
                case["requests"] += [("max_quadratic_utility", 2, True), ("efficient_return", pick(ret), True)] + ([("efficient_risk", pick(risk), True)] if pick(risk) > 0 else [])
            out.append(case)
        elif cls == "sharpe":
            out.append({"cls": cls, "mu": mu, "S": S.tolist(), "bounds": bounds, "cons": cons, "names": names, "form": form, "rfs": [0.02]})
        else:
            case = dict(PARAM[cls], cls=cls, kind=cls, R=data.grid_returns(T, n).tolist(), mu=mu, bounds=bounds, cons=cons, names=names, form=form)
            if not poly_of(n, bounds, cons, tickers=lab).feasible():
                case["requests"] = [("min", None, False), ("efficient_return", .1, False), ("efficient_risk", .2, False)]
            else:
                ret, risk = downside.targets(case, cons, tickers=lab)
                case["requests"] = [("min", None, False), ("efficient_return", ret[0], False), ("efficient_risk", risk[0], False)]
                if cls == "semivariance":
                    case["requests"].append(("utility", 5, False))
            if neutral and poly_of(n, bounds, cons, tickers=lab, market_neutral=True).feasible():
                ret, risk = downside.targets(case, cons, neutral=True, tickers=lab)
                case["requests"] += [("min", None, True)] + ([("efficient_return", ret[0], True)] if ret[0] >= 0 else [])
            out.append(case)
    return out


# ----------------------------------------------------------------- curved constraints
def run_caps(case, ctx):
    """Caps on the norm or the variance, optionally with linear constraints."""
    cls, n = case["cls"], len(case["mu"])
    mu, S = np.array(case["mu"]), np.array(case["S"])
    P = poly_of(n, case["bounds"], case["cons"], tickers=data.names(n))
    caps = convex_caps(case["cons"], S)
    w = cp.Variable(n)  # an attainable return, found independently and evaluated below
    lim = [P.Aeq @ w == P.beq, P.G @ w <= P.h] + [cp.quad_form(w, A) <= c * .999 for A, c in caps]
    top = cp.Problem(cp.Maximize(mu @ w), lim)
    top.solve(solver="CLARABEL")
    assert w.value is not None, "the cap leaves no portfolio: choose another"
    best = float(mu @ w.value)
    base = Model(P)
    for A, c in caps:
        base.cap_quadratic(A, c)
    for req in case["requests"]:
        if cls in ("ef", "sharpe"):
            opt, _, _ = c06.build(case, ctx)
            R = None
        else:
            opt, _, R = downside.build(case, ctx)
        add_constraints(ctx, opt, case["cons"])
        m = Model(P)
        for A, c in caps:
            m.cap_quadratic(A, c)
        if req == "max_sharpe":
            x = weights_of(ctx, opt, ctx.step(req, opt.max_sharpe), req)
            ctx.small(m.violation(x), 1e-6, f"{req}: weights violate a bound or constraint", w=x)
            y = x / (mu @ x)
            h = Model(c07.cone_of(P, mu)).quadratic(S)
            for A, c in caps:  # sqrt(y'Ay) <= sqrt(c) 1'y
                h.cons.append((lambda z, A=A, c=c: float(np.sqrt(z @ A @ z) - c ** .5 * z.sum()), lambda z, A=A, c=c: A @ z / np.sqrt(z @ A @ z) - c ** .5))
                h.only_quad = False
            v = h.value(y)
            ctx.small(h.bound(y, enough=1e-6 * v) / v, 5e-4, "another admissible portfolio has a higher Sharpe ratio", w=x)
            ctx.outcome(cls + "/sharpe")
            continue
        if req == "efficient_return":
            # a return between that of the minimum-risk portfolio and the best one
            arg = round(.3 * float(mu.min()) + .7 * best, 6)
            m.P = P.plus(G=-mu, h=-arg)
            res = ctx.step([req, arg], opt.efficient_return, arg)
        elif req == "utility":
            m.linear(-mu)
            res = ctx.step(req, opt.max_quadratic_utility, 3)
        else:
            res = ctx.step(req, {"ef": getattr(opt, "min_volatility", None)}.get(cls) or getattr(opt, "min_" + cls))
        if cls == "ef":
            m.quadratic(S, 1.5 if req == "utility" else 1)
        else:
            downside.add_risk(m, case, R)
        x = weights_of(ctx, opt, res, req)
        ctx.small(m.violation(x), 1e-5, f"{req}: weights violate a bound or constraint", w=x)
        ctx.small(m.bound(x, enough=2e-5), 5e-4, f"{req}: a better admissible portfolio exists", w=x)
        ctx.outcome(cls + "/" + req)


# ----------------------------------------------------------------- what a mapping of sectors may contain
def run_odd(case, ctx):
    """Sectors nobody belongs to, and constraints that are not functions."""
    n = 3
    lab = data.names(n)
    mu, S, R = pd.Series(MU[:n], index=lab), pd.DataFrame(S4[:n, :n], index=lab, columns=lab), pd.DataFrame(data.grid_returns(12, n), columns=lab)
    make = {"ef": lambda: EfficientFrontier(mu, S, solver="CLARABEL"), "base": lambda: BaseConvexOptimizer(n, lab, solver="CLARABEL"),
            "semivariance": lambda: EfficientSemivariance(mu, R, solver="CLARABEL"), "cvar": lambda: EfficientCVaR(mu, R, solver="CLARABEL"), "cdar": lambda: EfficientCDaR(mu, R, solver="CLARABEL")}[case["cls"]]
    solve = {"ef": lambda o: o.min_volatility(), "base": lambda o: o.convex_objective(lambda w: cp.quad_form(w, S.values)), "semivariance": lambda o: o.min_semivariance(),
             "cvar": lambda o: o.min_cvar(), "cdar": lambda o: o.min_cdar()}[case["cls"]]
    plain = np.array(list(ctx.step("plain", solve, make()).values()))
    opt = make()
    if case["what"] == "not callable":
        for bad in (None, 3, "w[0] <= 1", np.ones(n), cp.Variable(n) >= 0.1):
            tag, val = ctx.attempt(["constraint", str(bad)], opt.add_constraint, bad)
            ctx.require(tag == "err" and isinstance(val, TypeError), "a constraint that is not a function was accepted", got=val)
        got = np.array(list(ctx.step("solve", solve, opt).values()))
        ctx.close(got, plain, 1e-9, "a refused constraint changed the answer")
        ctx.outcome("refused")
        return
    kind, limit = case["what"]
    mapper = {lab[0]: "x", lab[1]: "y", "not an asset": "z"}
    lower, upper = ({"z": limit}, {}) if kind == "lower" else ({}, {"z": limit})
    tag, val = ctx.attempt(["sector", kind, limit], opt.add_sector_constraints, mapper, lower, upper)
    if tag == "ok":
        tag, val = ctx.attempt("solve", solve, opt)
    possible = limit <= 0 if kind == "lower" else limit >= 0
    if tag == "ok":
        ctx.require(possible, "weights were returned although no portfolio has a weight in that sector", got=dict(val))
        ctx.close(np.array(list(val.values())), plain, 1e-5, "a limit on a sector no asset belongs to changed the answer")
    else:
        ctx.require(isinstance(val, (OptimizationError, SolverError, ValueError)), f"refused with {type(val).__name__}: {val}")
    ctx.outcome(("ok" if tag == "ok" else "refused") + "/" + kind)


CLASSES = ("ef", "sharpe", "semivariance", "cvar", "cdar")


def families(tier):
    deep = tier == "thorough"
    out = []
    # every map of three (four) tickers to two sectors or none
    sect = []
    n = 3
    lab = data.names(n)
    k = 0
    for amap in itertools.product(("x", "y", None), repeat=n):
        mapper = {t: s for t, s in zip(lab, amap) if s}
        if not mapper:
            continue
        present = sorted(set(mapper.values()))
        for lo, up in (({}, .4), ({"all": .15}, .7), ({"all": .3}, None), ({"all": 0}, .5)):
            lower = {s: lo["all"] for s in present} if lo else {}
            upper = {s: up for s in present} if up is not None else {}
            for b in (["pair", 0, 1], ["pair", -1, 1], ["each", [[-.3, .8], [.1, .6], [-.4, .9]]]):
                k += 1
                classes = CLASSES if deep else ("ef", "sharpe") + (CLASSES[2 + k % 3],)
                sect += cases_for(classes, n, b, [["sector", mapper, lower, upper]], neutral=b[1:] == [-1, 1])
    out.append(Family("sectors", sect, run, "every (also partial) map of three tickers to two sectors x 4 sets of limits (upper, lower, both, lower limit zero) x 3 bounds (two with short positions) x optimisers" + ("" if deep else " (the three tail-risk optimisers in rotation)") + ", all requests", chunk=6))
    over = []
    m1, m2 = {"b": "x", "a": "y", "d": "x", "c": "y"}, {"b": "p", "a": "p", "d": "q"}
    for (l1, u1), (l2, u2) in itertools.product((({"x": .3}, {"y": .6}), ({}, {"x": .5}), ({"y": .4}, {})), (({"q": .2}, {"p": .7}), ({"p": .5}, {}), ({}, {"q": .1}))):
        for b in (["pair", 0, 1], ["pair", -.2, .8]):
            for extra in ([], [["le_i", [1, 0, 0, 0], .25]]):
                over += cases_for(CLASSES, 4, b, [["sector", m1, l1, u1], ["sector", m2, l2, u2]] + extra)
    out.append(Family("overlapping", over, run, "two overlapping sector maps of four tickers x limits x bounds, with and without a further linear constraint, all optimisers", chunk=6))
    many = []
    for k, (n, m, b) in enumerate(itertools.product((6, 11, 18) if not deep else (6, 8, 11, 13, 18, 26), (2, 3, 5), (["pair", 0, 1], ["pair", -.2, .6], ["pair", 0, None]))):
        nm = ("str", "int")[k % 2]
        lab = data.names(n, nm)
        order = [(5 * i + k) % n for i in range(n)]
        if len(set(order)) < n:
            order = list(range(n))[::-1]
        name = [f"s{(i * i + k) % m}" if (i + k) % 7 else None for i in range(n)]  # some assets have no sector
        mapper = {str(lab[i]): name[i] for i in order if name[i] is not None}
        there = sorted(set(mapper.values()))
        lower = {x: (.5 / m, 0, .01)[(i + k) % 3] for i, x in enumerate(there) if (i + k) % 4 != 3}
        upper = {x: (.6, .9, 1.5 / m)[(i + 2 * k) % 3] for i, x in enumerate(reversed(there)) if (i + k) % 4 != 1}
        many += cases_for(CLASSES if deep else ("ef", "sharpe") + (CLASSES[2 + k % 3],), n, b, [["sector", mapper, lower, upper]], names=nm, T=83)
    out.append(Family("many-sectors", many, run, "up to %d assets in up to five sectors (some in none), each with its own limits, maps in any order" % n, chunk=2))
    label = []
    for nm, form in (("str", "frame"), ("int", "frame"), ("str", "array"), ("str", "list")):
        tick = [str(t) for t in (data.names(3, nm) if form == "frame" else range(3))]
        for lower, upper in (({"x": .5}, {}), ({}, {"x": .25}), ({"y": .35}, {"x": .6})):
            mapper = {tick[0]: "y", tick[1]: "x", tick[2]: "y"}
            label += cases_for(CLASSES, 3, ["pair", 0, 1], [["sector", mapper, lower, upper]], names=nm, form=form)
    for kind in ("semivariance", "cvar", "cdar"):  # no expected returns: labels come from the columns of the returns
        for nm, form in (("str", "frame"), ("int", "frame"), ("str", "array")):
            tick = [str(t) for t in (data.names(3, nm) if form == "frame" else range(3))]
            for upper in ({"x": .2}, {"y": .45}):
                label.append(dict(PARAM[kind], cls=kind, kind=kind, R=data.grid_returns(12, 3).tolist(), mu=None, bounds=["pair", 0, 1], form=form, names=nm,
                                  cons=[["sector", {tick[0]: "y", tick[1]: "x", tick[2]: "y"}, {}, upper]], requests=[("min", None, False)]))
    out.append(Family("labels", label, run, "sector limits with string and integer tickers, with labels from the expected returns, from the returns, or positions (arrays, lists)", chunk=3))
    # linear and piecewise linear constraints
    lin = []
    w0 = [.5, .2, .3]
    CONS = [[["turnover", w0, .3]], [["turnover_sum", w0, .5]], [["within", w0, .15]], [["largest", 2, .75]], [["vec_le", [.6, .3, .4]]], [["vec_ge", .1]],
            [["le_rev", [1, 1, 0], .5]], [["ge_off", [-1, 1, 0], .05]], [["eq_two", [1, -1, 0], .05]], [["eq_i", [0, 1, 0], .25]],
            [["turnover", w0, .4], ["vec_le", [.6, .35, .9]]], [["within", w0, .2], ["sector", {"b": "x", "a": "x"}, {"x": .55}, {}]],
            [["turnover", [1, 0, 0], .6], ["ge_i", [0, 0, 1], .2]], [["largest", 1, .3]]]
    for c in CONS:
        for b in (["pair", 0, 1], ["pair", -1, 1], ["each", [[0, None], [-.1, .7], [.05, 1]]]):
            for o in CLASSES:
                lin += cases_for((o,), 3, b, c, neutral=deep and b[1:] == [-1, 1] and c[0][0] in ("vec_le", "le_rev", "largest"))
    for c in ([["gross", 1.4]], [["gross", 1.6], ["turnover", w0, .8]], [["gross", 2], ["le_i", [1, 0, 0], .2]]):
        for o in CLASSES:
            lin += cases_for((o,), 3, ["pair", -1, 1], c, neutral=True)
    out.append(Family("linear", lin, run, "turnover limits, distance from a portfolio, concentration, gross exposure, vector limits, and spellings of linear constraints, alone and combined (some unsatisfiable) x bounds x every optimiser and request", chunk=6))
    caps = []
    for n in (3, 4):
        mu, S = MU[:n], S4[:n, :n].tolist()
        w = [0] * (n - 2)
        for cc in ([["norm", .4, n, "norm"]], [["norm", .36, n, "squares"]], [["norm", .45, n, "reverse"]], [["variance", .013, S, "quad_form"]], [["variance", .018, S, "moved"]],
                   [["norm", .45, n, "squares"], ["le_i", [1, 0] + w, .35]], [["variance", .02, S, "quad_form"], ["ge_off", [0, 1] + w, .3]]):
            for b in (["pair", 0, 1], ["pair", -.3, .8]):
                for cls in ("ef", "semivariance", "cvar", "cdar"):
                    base = {"cls": cls, "mu": mu, "S": S, "bounds": b, "cons": cc}
                    if cls == "ef":
                        caps.append(dict(base, requests=["min", "utility", "efficient_return", "max_sharpe"]))
                    else:
                        caps.append(dict(base, kind=cls, R=data.grid_returns(12, n).tolist(), requests=["min", "efficient_return"], **PARAM[cls]))
    out.append(Family("curved", caps, run_caps, "caps on the squared or Euclidean norm and on the variance, in several spellings, alone and with a linear constraint, for every optimiser; requests minimum risk, utility, target return, maximum Sharpe", chunk=2))
    odd = [{"cls": c, "what": w} for c in ("ef", "base", "semivariance", "cvar", "cdar") for w in ("not callable", ["lower", 0], ["lower", .1], ["upper", 0], ["upper", .3], ["lower", -.2])]
    out.append(Family("odd", odd, run_odd, "limits on sectors no asset belongs to; constraints that are not functions", chunk=2))
    return out
