"""C06 mean-variance optimisation: every answer is admissible and optimal, or the request is refused."""
import itertools

import numpy as np
import pandas as pd

from engine import Family
from optim import (Model, add_constraints, add_objectives, bounds_arg, bounds_of, model_objectives, poly_of, weights_of)
from oracle import INF, qp_min
from cvxpy.error import SolverError
from pypfopt import EfficientFrontier
from pypfopt.exceptions import OptimizationError
import data

TOL = 5e-6       # CLARABEL: admissibility and objective
RISK_TOL = 3e-4
LOOSE = 5e-3     # default first-order solver


def build(case, ctx, solver="CLARABEL"):
    mu, S = np.array(case["mu"], float), np.array(case["S"], float)
    n = len(mu)
    lab = data.names(n, case.get("names", "str"))
    form = case.get("form", "frame")
    a = {"frame": pd.Series(mu, index=lab), "array": mu.copy(), "list": [float(x) for x in mu], "column": mu.reshape(-1, 1)}[form]
    b = pd.DataFrame(S, index=lab, columns=lab) if form == "frame" else S.copy()
    kw = {} if solver is None else {"solver": solver}
    opt = ctx.step("init", EfficientFrontier, a, b, weight_bounds=bounds_arg(case["bounds"]), **kw)
    want = lab if form == "frame" else list(range(n))
    ctx.require(list(opt.tickers) == want, "assets are labelled wrongly", got=opt.tickers)
    return opt, mu, S


def reference(case, method, arg, neutral, mu, S, tickers):
    """The optimisation problem the documentation states for this request."""
    n = len(mu)
    P = poly_of(n, case["bounds"], case.get("cons", ()), market_neutral=neutral, tickers=tickers)
    m = Model(P)
    if method == "min_volatility":
        m.quadratic(S)
    elif method == "max_quadratic_utility":
        m.linear(-mu).quadratic(S, 0.5 * arg)
    elif method == "efficient_return":
        m.quadratic(S)
        m.P = P.plus(G=-mu, h=-arg)
    elif method == "efficient_risk":
        m.linear(-mu).cap_quadratic(S, arg ** 2)
    return model_objectives(m, case.get("objs", ()), S)


def attainable(case, method, arg, neutral, mu, S, tickers):
    """None if a request must be refused, else 'yes' / 'edge' (too close to the boundary to demand either)."""
    n = len(mu)
    if (method == "max_quadratic_utility" and arg <= 0) or (method == "efficient_risk" and arg < 0):
        return None  # invalid parameters
    P = poly_of(n, case["bounds"], case.get("cons", ()), market_neutral=neutral, tickers=tickers)
    hi, w = P.lp(-mu)
    if hi == INF:
        return None
    slackened = P.plus()
    if method == "efficient_return":
        if hi == -INF or -hi > arg + 1e-6:
            return "yes"
        return None if -hi < arg - 1e-6 else "edge"
    if method == "efficient_risk":
        if n <= 4:
            v, _ = qp_min(2 * S, np.zeros(n), slackened)
        else:
            v = min_variance(P, S)
        # v is 1/2 w'(2S)w
        if v < arg ** 2 * (1 - 1e-4) - 1e-9:
            return "yes"
        return None if v > arg ** 2 * (1 + 1e-4) + 1e-9 else "edge"
    return "yes"


def min_variance(P, S):
    import cvxpy as cp  # witness finder only: the witness is evaluated by definition below

    w = cp.Variable(P.n)
    cons = [P.Aeq @ w == P.beq] + ([P.G @ w <= P.h] if len(P.h) else [])
    cp.Problem(cp.Minimize(cp.quad_form(w, cp.psd_wrap(S))), cons).solve(solver="CLARABEL")
    if w.value is None or P.infeasibility(w.value) > 1e-6:
        return INF
    return float(w.value @ S @ w.value)


def request(opt, method, arg, neutral):
    f = getattr(opt, method)
    kw = {"market_neutral": True} if neutral else {}
    return f(**kw) if arg is None else f(arg, **kw)


def judge(ctx, case, opt, method, arg, neutral, mu, S, tag, val, tol=TOL):
    ref = reference(case, method, arg, neutral, mu, S, opt.tickers)
    can = attainable(case, method, arg, neutral, mu, S, opt.tickers)
    if tag == "err":
        ctx.require(isinstance(val, (ValueError, OptimizationError, SolverError)), f"{method}: refused with {type(val).__name__}: {val}")
        ctx.require(can != "yes", f"{method}({arg}) was refused although an admissible portfolio exists: {val}")
        ctx.outcome(method + "/refused")
        return None
    ctx.require(can is not None, f"{method}({arg}) returned weights although no admissible portfolio exists", weights=dict(val))
    w = weights_of(ctx, opt, val, method)
    ctx.small(ref.violation(w), tol, f"{method}({arg}): weights violate a bound, constraint or target", w=w)
    # at a variance cap the solver's own accuracy (1e-8 in variance) is amplified in the return
    opt_tol = max(tol, RISK_TOL) if method == "efficient_risk" else tol
    if can == "edge" and method == "efficient_risk":  # no interior: multipliers need not exist
        ctx.outcome(method + "/edge")
        return w
    ctx.small(ref.bound(w, enough=opt_tol / 10), opt_tol * (1 + abs(ref.value(w))), f"{method}({arg}): a better admissible portfolio exists", w=w, value=ref.value(w))
    lb, ub = bounds_of(case["bounds"], len(mu))
    ctx.outcome(method + ("/neutral" if neutral else "") + ("/corner" if (np.minimum(w - lb, ub - w) < 1e-5).any() else "/interior"))
    return w


def run(case, ctx):
    solver = case.get("solver", "CLARABEL")
    tol = LOOSE if solver is None else TOL
    for method, arg, neutral in case["requests"]:
        opt, mu, S = build(case, ctx, solver)
        add_constraints(ctx, opt, case.get("cons", ()))
        add_objectives(ctx, opt, case.get("objs", ()), S)
        tag, val = ctx.attempt([method, arg, neutral], request, opt, method, arg, neutral)
        judge(ctx, case, opt, method, arg, neutral, mu, S, tag, val, tol)


def targets(mu, S, bounds, n_ret=3, n_risk=3, cons=(), tickers=None, neutral=False):
    """Return and risk targets relative to what the bounds allow: below, inside, near the top, beyond."""
    n = len(mu)
    P = poly_of(n, bounds, cons, tickers=tickers or data.names(n), market_neutral=neutral)
    hi, wmax = P.lp(-mu)
    if not np.isfinite(hi):
        return [0.1], [0.2]
    lo, _ = P.lp(mu)
    hi = -hi
    v = qp_min(2 * S, np.zeros(n), P)[0] if n <= 4 else min_variance(P, S)
    smin = float(np.sqrt(max(v, 0)))
    smax = float(np.sqrt(wmax @ S @ wmax))
    ret = [lo + f * (hi - lo) for f in (0.35, 0.75, 0.97)][:n_ret] + [hi + 0.01]
    risk = [smin + f * (smax - smin) for f in (0.15, 0.6, 1.2)][:n_risk] + [smin * 0.9]
    uniq = lambda v: list(dict.fromkeys(float(round(x, 6)) for x in v))  # noqa: E731
    return uniq(ret), uniq(risk)


def all_requests(mu, S, bounds, cons=(), tickers=None, neutral=True, aversions=(0.5, 3, 20)):
    req = [("min_volatility", None, False)]
    req += [("max_quadratic_utility", a, False) for a in aversions]
    ret, risk = targets(mu, S, bounds, cons=cons, tickers=tickers)
    req += [("efficient_return", r, False) for r in ret] + [("efficient_risk", r, False) for r in risk]
    if neutral:
        ret, risk = targets(mu, S, bounds, cons=cons, tickers=tickers, neutral=True)
        req += [("max_quadratic_utility", 3, True)]
        req += [("efficient_return", r, True) for r in ret[1:]] + [("efficient_risk", r, True) for r in risk[:3] if r > 0]
    return req


def with_requests(case, **kw):
    mu, S = np.array(case["mu"], float), np.array(case["S"], float)
    return dict(case, requests=all_requests(mu, S, case["bounds"], case.get("cons", ()), **kw))


SECT = ["sector", {"b": "x", "a": "y", "d": "x", "c": "y"}, {"x": 0.2, "y": 0.1}, {"x": 0.7, "y": 0.65}]


def families(tier):
    deep = tier == "thorough"
    out = []
    # two assets: everything
    two = []
    mus = [[.05, .15], [.15, .05], [.1, .1], [-.05, .1], [-.1, -.02]]
    vols = [[.1, .2], [.3, .1], [.2, .2]]
    corrs = [-.6, 0, .5, .95] if deep else [-.6, .5]
    bnds = [["pair", 0, 1], ["pair", -1, 1], ["pair", None, None], ["pair", .2, .7], ["pair", -.3, 1.5], ["each", [[.1, .6], [0, None]]], ["each", [[None, .8], [.3, 2]]]]
    for mu, v, c, b in itertools.product(mus, vols, corrs, bnds):
        two.append(with_requests({"mu": mu, "S": data.cov_from(v, [[1, c], [c, 1]]).tolist(), "bounds": b}))
    out.append(Family("two-assets", two, run, "all combinations of 5 returns x 3 volatilities x %d correlations x 7 bounds x every method with 4 targets each, long/short and market neutral" % len(corrs), chunk=6))
    # three assets, constraints and extra objectives
    three = []
    mus = [[.05, .1, .2], [.12, .04, .08], [.1, -.05, .03]]
    Ss = [data.cov_from([.1, .2, .3], data.sym_corr(3, c)) for c in ([0, 0, 0], [.3, -.4, .5], [.8, .7, .6])]
    bnds = [["pair", 0, 1], ["pair", -1, 1], ["each", [[0, .5], [.1, .6], [-.2, 1]]]]
    conss = [[], [["le_i", [1, 0, 0], .3]], [["ge", [0, 1, 1], .6], ["le_rev", [1, 0, 1], .8]], [["eq_off", [1, -1, 0], .1]], [SECT]]
    objss = [[], [["l2", 1]], [["tc", [.3, .3, .4], .02]], [["te", [.2, .3, .5]]], [["l2", .1], ["tc", [1, 0, 0], .001]]]
    for mu, S, b, c, o in itertools.product(mus, Ss, bnds, conss, objss):
        if not deep and c and o and (len(c) + len(o)) % 2 == 0 and mu is not mus[0]:
            continue
        three.append(with_requests({"mu": mu, "S": S.tolist(), "bounds": b, "cons": c, "objs": o}, neutral=not c, aversions=(1, 10)))
    out.append(Family("three-assets", three, run, "returns x covariances x bounds x constraint sets (all spellings, sectors) x additional objectives (L2, transaction cost, tracking error) x every method", chunk=3))
    # input forms, default solver
    forms = []
    for form in ("frame", "array", "list", "column"):
        for nm in ("str", "int"):
            for b in bnds:
                for solver in ("CLARABEL", None):
                    forms.append(with_requests({"mu": mus[0], "S": Ss[1].tolist(), "bounds": b, "form": form, "names": nm, "solver": solver}))
    out.append(Family("forms", forms, run, "expected returns as Series/list/array/column, covariance as DataFrame/array, string/integer tickers, CLARABEL and the default solver", chunk=2))
    # larger
    big = []
    for n in (5, 8, 13, 25, 40, 61) if deep else (5, 8, 20, 33):
        for kind in ("factor", "toeplitz"):
            mu, S = data.structured(n, kind)
            for b in (["pair", 0, 1], ["pair", -.5, .5], ["each", [[0, .3] if i % 2 else [-.1, 1] for i in range(n)]], ["pair", 1 / (4 * n), .5]):
                for o in ([], [["l2", .5]]):
                    big.append(with_requests({"mu": mu.tolist(), "S": S.tolist(), "bounds": b, "objs": o}))
    out.append(Family("larger", big, run, "structured instances with up to %d assets" % (61 if deep else 33), chunk=1))
    # singular covariances
    sing = []
    for S in ([[.04, .04], [.04, .04]], [[.04, 0], [0, 0]], [[0, 0], [0, .09]], [[.04, .06], [.06, .09]]):
        for mu in ([.1, .02], [.05, .2]):
            for b in (["pair", 0, 1], ["pair", -1, 1]):
                sing.append(with_requests({"mu": mu, "S": S, "bounds": b}))
    S3 = np.array([[.04, .02, 0], [.02, .09, 0], [0, 0, 0]])
    for b in (["pair", 0, 1], ["pair", .1, .8]):
        sing.append(with_requests({"mu": [.1, .2, .02], "S": S3.tolist(), "bounds": b}))
    scaled = []
    for km, ks in ((1 / 252, 1 / 252), (100, 1e4)):
        for mu, S, b, c in itertools.product(mus if deep else mus[:2], Ss if deep else Ss[:2], bnds, conss):
            m2, S2 = (km * np.array(mu)).tolist(), (ks * np.array(S)).tolist()
            case = {"mu": m2, "S": S2, "bounds": b, "cons": c}
            ret, risk = targets(np.array(m2), np.array(S2), b, cons=c, tickers=None)
            scaled.append(dict(case, scale=[km, ks], requests=[("min_volatility", None, False)] + [("max_quadratic_utility", a * km / ks, False) for a in (1, 10)] + [("efficient_return", r, False) for r in ret] + [("efficient_risk", r, False) for r in risk]))
    out.append(Family("scales", scaled, run, "the same problems in daily figures (returns and covariances / 252) and in percent (returns x 100, covariances x 10^4)", chunk=4))
    bad = [(m, a, neutral) for neutral in (False, True) for m, args in (("max_quadratic_utility", (0, 0.0, -1e-12, -1, -3.5)), ("efficient_risk", (-1e-12, -.05, -.2, -1, -5.0))) for a in args]
    inv = [{"mu": mu, "S": S.tolist(), "bounds": b, "objs": o, "requests": bad} for mu in mus for S in Ss for b in bnds for o in ([], [["l2", 1]])]
    out.append(Family("invalid", inv, run, "risk aversions and target risks that are not positive, from just below zero on"))
    out.append(Family("singular", sing, run, "singular covariance matrices: duplicated assets and a riskless asset", chunk=2))
    return out
