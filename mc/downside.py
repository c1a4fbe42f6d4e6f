"""Shared drivers of the tail-risk optimisers (C09 semivariance, C10 CVaR, C11 CDaR)."""
import numpy as np
import pandas as pd
from cvxpy.error import SolverError

from optim import Model, add_constraints, add_objectives, bounds_arg, model_objectives, poly_of, weights_of
from oracle import INF, cdar, cdar_lp, cvar, cvar_lp, semivariance
from pypfopt import EfficientCDaR, EfficientCVaR, EfficientSemivariance
from pypfopt.exceptions import OptimizationError
import data

LOOSE = 5e-3
NA = float("nan")


def tolerance(case):
    return LOOSE if case.get("solver", "CLARABEL") is None else case.get("tol", 3e-6)


def clean(case):
    R = np.array([[NA if x is None else x for x in r] for r in case["R"]], float)
    return R, R[~np.isnan(R).any(axis=1)]


def build(case, ctx):
    raw, R = clean(case)
    n = raw.shape[1]
    lab = data.names(n, case.get("names", "str"))
    form = case.get("form", "frame")
    if case.get("mu") is None:
        mu_arg, mu = None, None
    else:
        mu = np.array(case["mu"], float)
        mu_arg = {"frame": pd.Series(mu, index=lab), "array": mu.copy(), "list": [float(x) for x in mu]}[form]
    ret_arg = pd.DataFrame(raw, columns=lab) if form == "frame" else raw.copy()
    kw = {"weight_bounds": bounds_arg(case["bounds"])}
    solver = case.get("solver", "CLARABEL")
    if solver:
        kw["solver"] = solver
    kind = case["kind"]
    if kind == "semivariance":
        for k in ("frequency", "benchmark"):
            if k in case:
                kw[k] = case[k]
        opt = ctx.step("init", EfficientSemivariance, mu_arg, ret_arg, **kw)
    else:
        if "beta" in case:
            kw["beta"] = case["beta"]
        opt = ctx.step("init", {"cvar": EfficientCVaR, "cdar": EfficientCDaR}[kind], mu_arg, ret_arg, **kw)
    labelled = form == "frame"
    ctx.require(list(opt.tickers) == (lab if labelled else list(range(n))), "assets are labelled wrongly", got=opt.tickers)
    return opt, mu, R


def true_risk(case, R, w):
    kind = case["kind"]
    if kind == "semivariance":
        return semivariance(R, w, case.get("benchmark", 0), case.get("frequency", 252)) ** .5
    return cvar(-R @ w, case.get("beta", .95)) if kind == "cvar" else cdar(R @ w, case.get("beta", .95))


def add_risk(m, case, R, cap=None):
    kind = case["kind"]
    if kind == "semivariance":
        if cap is not None:
            return m.cap_semivar(R, case.get("benchmark", 0), case.get("frequency", 252), cap ** 2)
        return m.semivar(R, case.get("benchmark", 0))
    return m.risk(kind, R, case.get("beta", .95), cap=cap)


def reference(case, method, arg, neutral, mu, R, tickers):
    P = poly_of(R.shape[1], case["bounds"], case.get("cons", ()), market_neutral=neutral, tickers=tickers)
    m = Model(P)
    if method == "min":
        add_risk(m, case, R)
    elif method == "efficient_return":
        m.P = P.plus(G=-mu, h=-arg)
        add_risk(m, case, R)
    elif method == "efficient_risk":
        m.linear(-mu)
        add_risk(m, case, R, cap=arg)
    else:  # quadratic utility (semivariance only), per period
        m.linear(-mu / case.get("frequency", 252)).semivar(R, case.get("benchmark", 0), 0.5 * arg)
    return P, model_objectives(m, case.get("objs", ()))


def min_risk(case, R, P):
    kind = case["kind"]
    if kind == "semivariance":
        import cvxpy as cp  # finds a witness, which is then evaluated and certified

        w = cp.Variable(P.n)
        d = cp.neg(R @ w - case.get("benchmark", 0))
        cons = [P.Aeq @ w == P.beq] + ([P.G @ w <= P.h] if len(P.h) else [])
        cp.Problem(cp.Minimize(cp.sum_squares(d)), cons).solve(solver="CLARABEL")
        if w.value is None or P.infeasibility(w.value) > 1e-6:
            return INF
        return true_risk(case, R, w.value)
    f = cvar_lp if kind == "cvar" else cdar_lp
    return f(R, case.get("beta", .95), P)[0]


def attainable(case, method, arg, neutral, mu, R, P):
    if method in ("min", "utility"):
        hi = P.lp(np.zeros(P.n))[0]
        return None if hi == INF else "yes"
    hi, _ = P.lp(-mu)
    if hi == INF:
        return None
    if method == "efficient_return":
        return "yes" if -hi > arg + 1e-6 else (None if -hi < arg - 1e-6 else "edge")
    lo = min_risk(case, R, P)
    if case["kind"] == "semivariance":  # compare squares: the root amplifies solver accuracy near zero
        band = .02 * lo ** 2 + 1e-6 * case.get("frequency", 252)
        return "yes" if lo ** 2 < arg ** 2 - band else (None if lo ** 2 > arg ** 2 + band else "edge")
    return "yes" if lo < arg - 1e-6 - 1e-3 * abs(lo) else (None if lo > arg + 1e-6 + 1e-3 * abs(lo) else "edge")


def request(opt, kind, method, arg, neutral):
    name = {"min": "min_" + kind, "utility": "max_quadratic_utility"}.get(method, method)
    kw = {"market_neutral": True} if neutral else {}
    f = getattr(opt, name)
    return f(**kw) if arg is None else f(arg, **kw)


def refusable(case, method, arg, mu):
    """Requests the documentation rejects outright."""
    if method == "efficient_return" and case["kind"] == "semivariance":
        return arg < 0 or arg > np.abs(mu).max()
    if method == "efficient_return" and case["kind"] == "cdar":
        return arg < 0
    return method == "efficient_risk" and arg < 0


def judge(ctx, case, opt, method, arg, neutral, mu, R, tag, val):
    """The answer of one request; returns the weights or None if it was (rightly) refused."""
    tol = tolerance(case)
    P, ref = reference(case, method, arg, neutral, mu, R, opt.tickers)
    can = attainable(case, method, arg, neutral, mu, R, P)
    what = f"{method}({arg})"
    if tag == "err":
        ctx.require(isinstance(val, (ValueError, OptimizationError, SolverError)), f"{what}: refused with {type(val).__name__}: {val}")
        ctx.require(can != "yes" or refusable(case, method, arg, mu), f"{what} was refused although an admissible portfolio exists: {val}")
        ctx.outcome(method + "/refused")
        return None
    ctx.require(can is not None, f"{what} returned weights although no admissible portfolio exists", weights=dict(val))
    w = weights_of(ctx, opt, val, what)
    ctx.small(ref.violation(w), max(tol, 1e-5), f"{what}: weights violate a bound, constraint or target", w=w)
    if not (can == "edge" and method == "efficient_risk"):
        v = ref.value(w)
        if case["kind"] == "semivariance" and method != "efficient_risk" and not case.get("objs"):
            lim = (5e-6 if abs(v) > 1e-8 else 2e-5) + 2e-3 * abs(v) if tol < 1e-3 else .02 * abs(v) + 1e-5
        elif method == "efficient_risk":
            lim = max(tol, 1e-4) * (1 + abs(v))
        else:
            lim = tol * (1 + abs(v))
        ctx.small(ref.bound(w, enough=lim / 10), lim, f"{what}: a better admissible portfolio exists", w=w, value=v)
    ctx.outcome(method + ("/neutral" if neutral else ""))
    return w


def report(ctx, case, opt, method, arg, mu, R, w):
    """portfolio_performance: the return and risk of the weights."""
    tol = 1e-5 if tolerance(case) < 1e-3 else 2e-2
    risk = true_risk(case, R, w)
    if case["kind"] == "semivariance":
        for rf in (0.0, 0.02):
            got = ctx.step(["performance", rf], opt.portfolio_performance, risk_free_rate=rf)
            if mu is None:
                ctx.require(got[0] is None and got[2] is None, "a return is reported without expected returns", got=got)
                ctx.close(got[1], risk, 1e-9, "reported semideviation")
            else:
                ctx.close(got[:2], [w @ mu, risk], 1e-9, "reported return and semideviation")
                if risk > 1e-6:
                    ctx.close(got[2], (w @ mu - rf) / risk, 1e-9, "reported Sortino ratio")
        return
    got = ctx.step("performance", opt.portfolio_performance)
    if mu is None:
        ctx.require(got[0] is None, "a return is reported without expected returns", got=got)
    else:
        ctx.close(got[0], w @ mu, 1e-9, "reported return")
    if method == "efficient_risk":
        ctx.require(risk - tol <= got[1] <= arg + tol, "the reported risk is not between the portfolio's risk and the target", got=got[1], risk=risk, target=arg)
    else:
        ctx.close(got[1], risk, tol, f"the reported {case['kind']} is not that of the weights")


def run(whole, ctx):
    req = whole["requests"]
    for k, (method, arg, neutral) in enumerate(req):
        case = whole
        for solver in (case.get("solver", "CLARABEL"), "ECOS"):
            if solver == "ECOS" != case.get("solver"):
                case = dict(case, solver=solver, tol=2e-5)
            opt, mu, R = build(case, ctx)
            add_constraints(ctx, opt, case.get("cons", ()))
            add_objectives(ctx, opt, case.get("objs", ()))
            tag, val = ctx.attempt([method, arg, neutral], request, opt, case["kind"], method, arg, neutral)
            if not isinstance(val, SolverError):  # a solver that gives up says nothing about the package: ask another
                break
        w = judge(ctx, case, opt, method, arg, neutral, mu, R, tag, val)
        if w is not None:
            report(ctx, case, opt, method, arg, mu, R, w)
        if w is None or not whole.get("again") or k + 1 >= len(req) or [req[k + 1][0], req[k + 1][2]] != [method, neutral]:
            continue
        arg = req[k + 1][1]  # the same request with another parameter, of the same object
        tag, val = ctx.attempt([method, arg, neutral, "again"], request, opt, case["kind"], method, arg, neutral)
        if isinstance(val, SolverError):
            continue
        w = judge(ctx, case, opt, method, arg, neutral, mu, R, tag, val)
        if w is not None:
            report(ctx, case, opt, method, arg, mu, R, w)


def run_report(case, ctx):
    """The reported risk is the risk of the weights, also below a slack target."""
    opt, mu, R = build(case, ctx)
    w = weights_of(ctx, opt, ctx.step("efficient_risk", opt.efficient_risk, case["target"]), "efficient_risk")
    got = ctx.step("performance", opt.portfolio_performance)
    ctx.close(got[1], true_risk(case, R, w), 1e-3, f"the reported {case['kind']} is not that of the weights")
    ctx.outcome("true")


def targets(case, cons=(), neutral=False, tickers=None):
    _, R = clean(case)
    n = R.shape[1]
    mu = np.array(case["mu"], float)
    P = poly_of(n, case["bounds"], cons, market_neutral=neutral, tickers=tickers or data.names(n))
    hi, wmax = P.lp(-mu)
    if not np.isfinite(hi):
        return [.05], [.05]
    lo = P.lp(mu)[0]
    hi = -hi
    rmin, rmax = min_risk(case, R, P), true_risk(case, R, wmax)
    ret = [lo + f * (hi - lo) for f in (.3, .8)] + [hi + .01]
    risk = [rmin + f * (rmax - rmin) for f in (.2, .6, 1.3)] + [.5 * rmin if rmin > 0 else -.01]
    u = lambda v: list(dict.fromkeys(float(round(x, 6)) for x in v))  # noqa: E731
    return u(ret), u(risk)


def with_requests(case, neutral=True, few=False):
    cons = case.get("cons", ())
    req = [("min", None, False)]
    if case.get("mu") is not None:
        ret, risk = targets(case, cons)
        if few:
            ret, risk = ret[:1], risk[:1]
        req += [("efficient_return", r, False) for r in ret] + [("efficient_risk", r, False) for r in risk]
        if case["kind"] == "semivariance":
            req += [("utility", a, False) for a in ((1, 20) if not few else (5,))]
    if neutral:
        req += [("min", None, True)]
        if case.get("mu") is not None:
            ret, risk = targets(case, cons, neutral=True)
            req += [("efficient_return", r, True) for r in ret[1:2]] + [("efficient_risk", r, True) for r in risk[1:2]]
    return dict(case, requests=req)


SECT = ["sector", {"b": "x", "a": "y", "d": "x"}, {"y": 0.3}, {"x": 0.65}]


def common_families(kind, params, tier):
    """params: list of dicts (beta, or frequency/benchmark) simplest first."""
    from engine import Family
    import itertools

    deep = tier == "thorough"
    out = []
    alpha = [.1, -.05, .02]
    tiny = []
    T = 4 if deep else 3
    for flat in itertools.product(alpha, repeat=2 * T):
        if not deep and flat[0] != .1 and flat[1] != -.05:
            continue
        R = [list(flat[2 * t:2 * t + 2]) for t in range(T)]
        if deep and (sum(1 for x in flat if x == .02) % 2):
            continue
        k = len(tiny)
        p = params[k % len(params)]
        b = (["pair", 0, 1], ["pair", -1, 1], ["pair", .2, .9])[k % 3]
        tiny.append(with_requests(dict(p, kind=kind, R=R, mu=[.1, .05] if k % 2 else [.03, .12], bounds=b), few=True, neutral=(k % 3 == 1)))
    out.append(Family("return-tables", tiny, run, f"every two-asset return table over {alpha} of {T} periods (first entries partly fixed in the quick tier) against rotating parameters and bounds", chunk=12))
    mid = []
    for (T, n), p, b in itertools.product(((5, 2), (12, 3), (25, 4)), params, (["pair", 0, 1], ["pair", -1, 1], None)):
        bb = b or ["each", [[0, .5] if i % 2 else [-.2, .9] for i in range(n)]]
        mu = (.05 + .1 * ((np.arange(n) * 3 + 1) % 5) / 5).tolist()
        base = dict(p, kind=kind, R=data.grid_returns(T, n).tolist(), mu=mu, bounds=bb, again=True)
        mid.append(with_requests(base))
    out.append(Family("structured", mid, run, "structured tables (5x2, 12x3, 25x4) x every parameter set x bounds, all requests incl. market neutral, each parametrised one also repeated on the same object", chunk=1))
    cons = []
    R = data.grid_returns(15, 3).tolist()
    for c in ([["le_i", [0, 0, 1], .3]], [["ge_off", [1, 0, 0], .45]], [["eq_two", [1, -1, 0], .05]], [["le_rev", [1, 1, 0], .5]], [SECT]):
        for o in ([], [["l2", .1]], [["tc", [.3, .3, .4], .02]], [["tc", [.5, .2, .3], .01], ["l2", .15]]):
            for p in params[:2]:
                cons.append(with_requests(dict(p, kind=kind, R=R, mu=[.05, .1, .2], bounds=["pair", 0, 1], cons=c, objs=o, again=True), neutral=False))
    out.append(Family("constraints", cons, run, "constraint spellings and sectors x additional objectives", chunk=1))
    forms = []
    Rn = data.grid_returns(14, 3).tolist()
    Rn[0][1] = None
    Rn[7][2] = None
    for form in ("frame", "array", "list"):
        for nm in ("str", "int"):
            for rows in (R, Rn):
                for mu in ([.05, .1, .2], None):
                    for solver in ("CLARABEL", "ECOS"):
                        forms.append(with_requests(dict(kind=kind, R=rows, mu=mu, bounds=["pair", 0, 1], form=form, names=nm, solver=solver, tol=1e-4), few=True, neutral=True))
    for mu in ([.05, .1, .2], None):
        forms.append(with_requests(dict(params[-1], kind=kind, R=R, mu=mu, bounds=["pair", 0, 1], solver=None), few=True, neutral=False))
    for c in ([], [["ge", [1, 0, 0], .4]]):  # expected returns that are zero are not absent
        forms.append(dict(params[0], kind=kind, R=R, mu=[0.0, 0.0, 0.0], bounds=["pair", 0, 1], cons=c, requests=[("min", None, False), ("min", None, True)]))
    out.append(Family("forms", forms, run, "containers, tickers, missing rows, default parameters, expected returns absent, CLARABEL / ECOS / default solver", chunk=1))
    gaps = []
    R5 = data.grid_returns(6, 2, 3).tolist()
    cells = [(t, j) for t in range(6) for j in range(2)]
    for k, holes in enumerate([(c,) for c in cells] + list(itertools.combinations(cells, 2)) + (list(itertools.combinations(cells, 3)) if deep else [])):
        rows = [list(r) for r in R5]
        for t, j in holes:
            rows[t][j] = None
        p = params[k % len(params)]
        gaps.append(with_requests(dict(p, kind=kind, R=rows, mu=[.1, .05] if k % 2 else [.03, .12], bounds=["pair", -1, 1] if k % 3 else ["pair", 0, 1],
                                       form="frame" if k % 2 else "array"), few=True, neutral=(k % 4 == 1)))
    out.append(Family("missing", gaps, run, "every way of deleting one or two%s entries of a 6x2 table, against rotating parameters and bounds: periods with a missing return are left out" % (" or three" if deep else ""), chunk=6))
    big = []
    for T, n in ((60, 6), (120, 10), (253, 4), (35, 26)) if not deep else ((60, 6), (120, 10), (253, 4), (35, 26), (252, 20), (521, 9), (64, 41), (1009, 3)):
        for b in (["pair", 0, 1], ["pair", -.5, .5]):
            mu = (.05 + .2 * ((np.arange(n) * 3 + 1) % n) / n).tolist()
            big.append(with_requests(dict(params[-1], kind=kind, R=(data.grid_returns(T, n) if T * n < 1500 and n < 20 else data.big_returns(T, n)).tolist(), mu=mu, bounds=b), few=True, neutral=False))
    wide = []
    if kind == "semivariance":
        grid = [{"benchmark": b, "frequency": f} for b in (-.2, -.04, -.001, 0, 1e-6, .001, .03, .2) for f in (1, 4, 12, 52, 252, 365)]
    else:
        grid = [{"beta": b} for b in (0, 1e-6, .01, .1, .25, 1 / 3, .5, .6, 2 / 3, .75, .8, .9, .95, .975, .99, .999)]
    for k, (p, T) in enumerate(itertools.product(grid, (1, 2, 3, 7, 10, 20) if kind != "semivariance" or deep else (1, 6, 20))):
        b = (["pair", 0, 1], ["pair", -1, 1], ["pair", .1, .6])[k % 3]
        wide.append(with_requests(dict(p, kind=kind, R=data.grid_returns(T, 3, k % 4).tolist(), mu=[.05, .12, .2], bounds=b), few=True, neutral=k % 4 == 0))
    out.append(Family("parameters", wide, run, "confidence levels 0 to 0.999 (benchmarks -0.2 to 0.2 and frequencies 1 to 365) x histories of 1 to 20 periods", chunk=4))
    scaled = []
    for k, s in itertools.product((.1, 10, 100), range(3)):
        for p in params:
            p = dict(p, benchmark=p["benchmark"] * k) if "benchmark" in p else p
            scaled.append(with_requests(dict(p, kind=kind, R=(k * data.grid_returns(13, 3, s)).tolist(), mu=[.05 * k, .12 * k, .2 * k], bounds=["pair", -1 if s == 2 else 0, 1], tol=3e-6 * max(1, k)), few=True, neutral=s == 1 and (k < 100 or kind != "semivariance")))
    out.append(Family("scales", scaled, run, "the same histories in small and in percent figures", chunk=2))
    if kind != "semivariance":
        tails = []
        for T, b in itertools.product((255, 1009) if not deep else (255, 521, 1009, 2003), (.97, .98, .99, .995, .998)):
            tails.append(with_requests(dict(beta=b, kind=kind, R=data.big_returns(T, 3, T % 7).tolist(), mu=[.05, .12, .2], bounds=["pair", 0, 1]), few=True, neutral=False))
        out.append(Family("tails", tails, run, "confidence levels from 0.97 to 0.998 with up to %d periods (so that the tail has several of them)" % T, chunk=1))
    out.append(Family("larger", big, run, "tables up to %d rows and up to %d assets" % ((1009, 41) if deep else (253, 26)), chunk=1))
    return out
