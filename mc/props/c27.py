"""C27 custom convex and nonconvex objectives."""
import itertools

import cvxpy as cp
import numpy as np
import pandas as pd
from cvxpy.error import SolverError

import data
from engine import Family
from optim import Model, add_constraints, add_objectives, bounds_arg, model_objectives, poly_of, weights_of
from oracle import INF
from pypfopt import EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance, objective_functions
from pypfopt.base_optimizer import BaseConvexOptimizer
from pypfopt.exceptions import InstantiationError, OptimizationError

TOL = 3e-6
MU = np.array([.05, .1, .2, .08])
S4 = data.cov_from([.1, .2, .3, .15], data.sym_corr(4, [.2, -.3, .1, .4, 0, .3]))
R4 = data.grid_returns(9, 4, 2)
TARGET = np.array([.5, .1, .3, .1])


def make(case, ctx):
    n = case["n"]
    lab = data.names(n, case.get("names", "str"))
    cls = case.get("cls", "ef")
    b = bounds_arg(case["bounds"])
    mu, S, R = pd.Series(MU[:n], index=lab), pd.DataFrame(S4[:n, :n], index=lab, columns=lab), pd.DataFrame(R4[:, :n], columns=lab)
    if cls == "base":
        return ctx.step("init", BaseConvexOptimizer, n, lab, weight_bounds=b, solver="CLARABEL")
    if cls == "ef":
        return ctx.step("init", EfficientFrontier, mu, S, weight_bounds=b, solver="CLARABEL")
    if cls == "ef-none":
        return ctx.step("init", EfficientFrontier, None, S, weight_bounds=b, solver="CLARABEL")
    return ctx.step("init", {"semivariance": EfficientSemivariance, "cvar": EfficientCVaR, "cdar": EfficientCDaR}[cls], mu, R, weight_bounds=b, solver="CLARABEL")


# name -> (cvxpy function, keyword arguments, model builder); k is a parameter passed by name
def q_plain(w, cov):
    return cp.quad_form(w, cov)


def q_utility(w, returns, cov, aversion=1):
    return 0.5 * aversion * cp.quad_form(w, cov) - w @ returns


def q_barrier(w, cov, k=0.1):
    return cp.quad_form(w, cov) - k * cp.sum(cp.log(w))


def q_track(w, target):
    return cp.sum_squares(w - target)


def q_l1(w, target, k=1):
    return k * cp.norm(w - target, 1)


def q_entropic(w, rows, g=1):
    return cp.log_sum_exp(-(rows @ w) * g) / g


def q_linear(w, returns):
    return -w @ returns


def q_mix(w, returns, cov, target, k, aversion):
    return q_utility(w, returns, cov, aversion) + q_l1(w, target, k)


def smooth(m, f, g):
    m.smooth.append((f, g))
    m.only_quad = False
    return m


def entropic(R, g):
    def grad(w):
        e = np.exp(-(R @ w) * g)
        return -(R.T @ e) / e.sum()
    return lambda w: float(np.log(np.exp(-(R @ w) * g).sum()) / g), grad


def objective(name, n):
    """(function, kwargs, add to model)"""
    mu, S, R, t = MU[:n], S4[:n, :n], R4[:, :n], TARGET[:n]
    return {
        "variance": (q_plain, {"cov": S}, lambda m: m.quadratic(S)),
        "utility": (q_utility, {"cov": S, "returns": mu, "aversion": 4}, lambda m: m.linear(-mu).quadratic(S, 2)),
        "utility-default": (q_utility, {"returns": mu, "cov": S}, lambda m: m.linear(-mu).quadratic(S, .5)),
        "barrier": (q_barrier, {"cov": S, "k": .01}, lambda m: smooth(m.quadratic(S), lambda w: -.01 * float(np.log(w).sum()), lambda w: -.01 / w)),
        "barrier-default": (q_barrier, {"cov": S}, lambda m: smooth(m.quadratic(S), lambda w: -.1 * float(np.log(w).sum()), lambda w: -.1 / w)),
        "tracking": (q_track, {"target": t}, lambda m: m.quadratic(np.eye(n), 1.0, centre=t)),
        "l1": (q_l1, {"target": t, "k": .3}, lambda m: m.l1(t, .3)),
        "entropic": (q_entropic, {"rows": R, "g": 20}, lambda m: smooth(m, *entropic(R, 20))),
        "linear": (q_linear, {"returns": mu}, lambda m: m.linear(-mu)),
        "mixture": (q_mix, {"returns": mu, "cov": S, "target": t, "k": .02, "aversion": 3}, lambda m: m.linear(-mu).quadratic(S, 1.5).l1(t, .02)),
        "lambda": (lambda w: cp.sum_squares(w) - w @ mu, {}, lambda m: m.linear(-mu).quadratic(np.eye(n))),
        "package": (objective_functions.quadratic_utility, {"expected_returns": mu, "cov_matrix": S, "risk_aversion": 2}, lambda m: m.linear(-mu).quadratic(S, 1)),
        "package-l2": (objective_functions.L2_reg, {"gamma": 3}, lambda m: m.quadratic(np.eye(n), 3)),
        "package-cost": (objective_functions.transaction_cost, {"w_prev": t, "k": .5}, lambda m: m.l1(t, .5)),
    }[name]


def polytope(case, total, tickers):
    P = poly_of(case["n"], case["bounds"], case.get("cons", ()), tickers=tickers)
    if total is None:
        P.Aeq, P.beq = P.Aeq[1:], P.beq[1:]
    return P


def run_convex(case, ctx):
    n = case["n"]
    for sum_one in (True, False):
        opt = make(case, ctx)
        add_constraints(ctx, opt, case.get("cons", ()))
        add_objectives(ctx, opt, case.get("objs", ()), S4[:n, :n])
        f, kw, build = objective(case["objective"], n)
        kw = dict(kw)
        if not sum_one:
            kw["weights_sum_to_one"] = False
        P = polytope(case, 1.0 if sum_one else None, opt.tickers)
        m = model_objectives(build(Model(P)), case.get("objs", ()), S4[:n, :n])
        tag, val = ctx.attempt(["convex_objective", case["objective"], sum_one], opt.convex_objective, f, **kw)
        positive = case["objective"].startswith("barrier")
        Q = P if not positive else P.plus(G=-np.eye(n), h=np.full(n, -1e-6))
        if not Q.feasible():
            ctx.require(tag == "err" and isinstance(val, (OptimizationError, SolverError)), "weights were returned although no admissible portfolio exists", got=val)
            ctx.outcome("refused")
            continue
        ctx.require(tag == "ok", f"convex_objective was refused although an admissible portfolio exists: {val}")
        w = weights_of(ctx, opt, val, "convex_objective")
        ctx.small(m.violation(w), 1e-6, "weights violate a bound or constraint", w=w)
        if positive:
            ctx.require((w > 0).all(), "weights outside the domain of the objective", w=w)
        v = m.value(w)
        # the certificate is of first order: gradients of the curved objectives turn solver accuracy into a looser bound
        tol = 2e-4 if case["objective"].startswith(("barrier", "entropic")) else TOL
        ctx.small(m.bound(w, enough=tol / 10), tol * (1 + abs(v)), "a better admissible portfolio exists", w=w, value=v)
        ctx.outcome("sum one" if sum_one else "free sum")


def run_refused(case, ctx):
    """Objectives that are not convex are refused and leave no weights behind."""
    n = case["n"]
    opt = make(case, ctx)
    f = {"concave": lambda w: -cp.sum_squares(w), "sqrt": lambda w: cp.sqrt(w[0]) + cp.sqrt(w[1]), "product": lambda w: w[0] * w[1],
         "ratio": lambda w: cp.sum_squares(w) / (w @ MU[:n])}[case["objective"]]
    tag, val = ctx.attempt(["convex_objective", case["objective"]], opt.convex_objective, f)
    ctx.require(tag == "err" and isinstance(val, OptimizationError), "a nonconvex objective was not refused with an OptimizationError", got=val)
    ctx.require(opt.weights is None, "a refused request left weights behind", got=opt.weights)
    ctx.outcome("refused")


def run_history(case, ctx):
    """Repeated custom objectives on one optimiser: answered correctly or refused, never stale."""
    n = case["n"]
    opt = make(case, ctx)
    last = None
    for k, (kind, name) in enumerate(case["ops"]):
        if kind == "convex":
            f, kw, build = objective(name, n)
            tag, val = ctx.attempt([kind, name], opt.convex_objective, f, **kw)
            tol = TOL
        else:
            f, args, build, scale = nonconvex(name, n)
            tag, val = ctx.attempt([kind, name], opt.nonconvex_objective, f, objective_args=args)
            tol = 1e-3
        if tag == "err":
            ctx.require(kind == "convex" and k > 0 and isinstance(val, (InstantiationError, OptimizationError)), f"{kind} {name} was refused: {val}")
            if last is None:
                ctx.require(opt.weights is None, "a refused request left weights behind")
            else:
                ctx.close(opt.weights, last, 1e-12, "a refused request changed the weights")
            ctx.outcome(kind + "/refused")
            continue
        w = weights_of(ctx, opt, val, kind)
        m = build(Model(polytope(case, 1.0, opt.tickers)))
        ctx.small(m.violation(w), 1e-5, f"request {k} ({kind} {name}): weights violate a bound", w=w)
        v = m.value(w)
        ctx.small(m.bound(w, enough=tol / 10), tol * (1 + abs(v)), f"request {k} ({kind} {name}): a better admissible portfolio exists", w=w, value=v)
        last = w
        ctx.outcome(kind)


# ----------------------------------------------------------------- scipy back end
def n_variance(w, cov):
    return 100 * w @ cov @ w


def n_utility(w, returns, cov, aversion):
    return 10 * (0.5 * aversion * w @ cov @ w - w @ returns)


def n_track(w, target):
    return 10 * ((w - target) ** 2).sum()


def n_norm(w, *rest):
    assert rest in ((), (None,)), rest
    return 10 * (w ** 2).sum()


def n_entropic(w, rows, g):
    return 10 * np.log(np.exp(-(rows @ w) * g).sum()) / g


def n_scaled(w, a):
    return float(np.asarray(a)) * ((w - TARGET[:len(w)]) ** 2).sum()


def nonconvex(name, n):
    """(function, objective_args, add to model, scale)"""
    mu, S, R, t = MU[:n], S4[:n, :n], R4[:, :n], TARGET[:n]
    return {
        "variance-tuple": (n_variance, (S,), lambda m: m.quadratic(S, 100), 1),
        "variance-single": (n_variance, S, lambda m: m.quadratic(S, 100), 1),
        "variance-frame": (n_variance, pd.DataFrame(S).values, lambda m: m.quadratic(S, 100), 1),
        "utility": (n_utility, (mu, S, 3), lambda m: m.linear(-10 * mu).quadratic(S, 15), 1),
        "track-single": (n_track, t, lambda m: m.quadratic(np.eye(n), 10, centre=t), 1),
        "norm-none": (n_norm, None, lambda m: m.quadratic(np.eye(n), 10), 1),
        "entropic": (n_entropic, (R, 20), lambda m: smooth(m, *[(lambda h: lambda w: 10 * h(w))(h) for h in entropic(R, 20)]), 1),
        "number-single": (n_scaled, 7.0, lambda m: m.quadratic(np.eye(n), 7, centre=t), 1),
    }[name]


def n_constraints(spec, n):
    """(scipy constraints, polytope rows)"""
    cons, rows = [], []
    for kind, a, b in spec:
        a = np.array(a, float)[:n]
        if kind == "eq":
            cons.append({"type": "eq", "fun": lambda w, a=a, b=b: a @ w - b})
            rows.append(dict(Aeq=a, beq=b))
        elif kind == "eq-args":
            cons.append({"type": "eq", "fun": lambda w, c, d: c @ w - d, "args": (a, b)})
            rows.append(dict(Aeq=a, beq=b))
        else:  # scipy: fun(w) >= 0
            cons.append({"type": "ineq", "fun": lambda w, a=a, b=b: a @ w - b})
            rows.append(dict(G=-a, h=-b))
    return cons, rows


def run_nonconvex(case, ctx):
    n = case["n"]
    opt = make(case, ctx)
    for rnd in range(2):  # the second request must not remember the first
        f, args, build, _ = nonconvex(case["objective"], n)
        cons, rows = n_constraints(case["ncons"], n)
        listed = list(cons)
        kw = {}
        if args is not None or rnd:
            kw["objective_args"] = args
        if case["ncons"] or rnd:
            kw["constraints"] = cons
        P = polytope(case, 1.0 if case["sum_one"] else None, opt.tickers)
        for r in rows:
            P = P.plus(**r)
        if not case["sum_one"]:
            kw["weights_sum_to_one"] = False
        if case["guess"] is not None:
            g = np.array(case["guess"], float)[:n]
            kw["initial_guess"] = g if not rnd else g.reshape(n, 1)
        if case.get("method"):
            kw["solver"] = case["method"]
        w = weights_of(ctx, opt, ctx.step(["nonconvex_objective", rnd], opt.nonconvex_objective, f, **kw), "nonconvex_objective")
        ctx.require(len(cons) == len(listed) and all(a is b for a, b in zip(cons, listed)), "the caller's list of constraints was changed")
        ctx.small(P.infeasibility(w), 1e-5, "weights violate a bound or constraint", w=w)
        m = build(Model(P))
        v = m.value(w)
        ctx.small(m.bound(w, enough=2e-5), (1e-3 if not case.get("method") else 1e-2) * (1 + abs(v)), "a better admissible portfolio exists", w=w, value=v)
    ctx.outcome("sum one" if case["sum_one"] else "free sum")


def attainable(n, bounds, ncons, sum_one):
    P = polytope({"n": n, "bounds": bounds}, 1.0 if sum_one else None, None)
    for r in n_constraints(ncons, n)[1]:
        P = P.plus(**r)
    return P.feasible()


SECT = ["sector", {"b": "x", "a": "y", "d": "x", "c": "y"}, {"x": 0.2}, {"x": 0.5}]
NAMES = ["variance", "utility", "utility-default", "barrier", "barrier-default", "tracking", "l1", "entropic", "linear", "mixture", "lambda", "package", "package-l2", "package-cost"]
NONCONVEX = ["variance-tuple", "variance-single", "utility", "track-single", "norm-none", "entropic", "number-single"]


def families(tier):
    deep = tier == "thorough"
    out = []
    cases = []
    for n, o in itertools.product((2, 3, 4) if deep else (2, 4), NAMES):
        bnds = [["pair", 0, 1], ["pair", -1, 1], ["each", [[.05, .6], [-.2, .7], [0, 1], [.1, .4]][:n]], ["pair", .4 if n > 2 else .6, 1]]
        cons = [[], [["le_i", [1] + [0] * (n - 1), .3]], [["ge_off", [-1, 1] + [0] * (n - 2), .1], ["le_rev", [1] * (n - 1) + [0], .75]], [SECT], [["eq_two", [1, -1] + [0] * (n - 2), .05]]]
        objs = [[], [["l2", .5]], [["tc", [.2, .3, .1, .4][:n], .05], ["l2", 1]], [["te", [.3, .3, .2, .2][:n]]]]
        for b, c, e in itertools.product(bnds, cons, objs):
            if not deep and c and e and (bnds.index(b) + cons.index(c) + objs.index(e) + NAMES.index(o)) % 3:
                continue
            cases.append({"n": n, "objective": o, "bounds": b, "cons": c, "objs": e})
    out.append(Family("convex", cases, run_convex, "14 objectives (quadratic, barrier, absolute, exponential, linear, from the package) with arguments by name and by default x 4 bounds (one infeasible) x 5 constraint sets x 4 sets of additional objectives, with and without the sum-to-one condition" + ("" if deep else "; a third of the combinations that have both constraints and additional objectives"), chunk=6))
    cls = [{"n": 3, "cls": c, "names": nm, "objective": o, "bounds": b, "cons": [], "objs": [["l2", .1]]} for c in ("base", "ef", "ef-none", "semivariance", "cvar", "cdar") for nm in ("str", "int") for o in ("variance", "utility", "l1", "entropic") for b in (["pair", 0, 1], ["pair", -.5, .9])]
    out.append(Family("classes", cls, run_convex, "every optimiser class with custom objectives, string and integer tickers", chunk=6))
    out.append(Family("not-convex", [{"n": n, "cls": c, "objective": o, "bounds": ["pair", 0, 1]} for n in (2, 3) for c in ("base", "ef", "cvar") for o in ("concave", "sqrt", "product", "ratio")], run_refused, "objectives that are not convex"))
    ops = [("convex", "variance"), ("convex", "utility"), ("convex", "l1"), ("nonconvex", "variance-tuple"), ("nonconvex", "track-single"), ("nonconvex", "utility")]
    hist = [{"n": 3, "bounds": ["pair", 0, 1], "cls": c, "ops": [list(o) for o in h]} for c in (("ef", "base", "cvar") if deep else ("ef", "base")) for h in itertools.product(ops, repeat=4 if deep else 3)]
    out.append(Family("histories", hist, run_history, f"every sequence of {4 if deep else 3} custom requests (3 convex, 3 nonconvex) on one optimiser", chunk=12))
    nc = []
    for n, o in itertools.product((2, 3, 4), NONCONVEX):
        z = [0] * (n - 2)
        for b in (["pair", 0, 1], ["pair", -1, 1], ["each", [[.05, .6], [-.2, .7], [0, 1], [.1, .4]][:n]], ["each", [[0, .6], [None, .5], [.1, None], [-.5, 2]][:n]]):
            for c in ([], [["eq", [1, -1] + z, .05]], [["ineq", [0, 1] + z, .4]], [["ineq", [-1, 0] + z, -.2], ["eq-args", [0] * (n - 1) + [1], .35]] if n > 2 else [["ineq", [-1, 0], -.45]]):
                for s in (True, False):
                    if (o == "entropic" or not s and o == "utility") and any(x is None for y in (b[1] if b[0] == "each" else []) for x in y):
                        continue
                    for g in (None, [.1, .2, .3, .4]):
                        if not attainable(n, b, c, s):
                            continue
                        nc.append({"n": n, "objective": o, "bounds": b, "ncons": c, "sum_one": s, "guess": g})
    out.append(Family("nonconvex", nc, run_nonconvex, "7 convex smooth objectives through the scipy back end (arguments as tuple, single value or none) x 4 bounds x 4 constraint sets x sum-to-one switch x initial guess, each asked twice", chunk=12))
    tc = [{"n": 3, "objective": o, "bounds": ["pair", 0, 1], "ncons": c, "sum_one": True, "guess": None, "method": "trust-constr"} for o in ("track-single", "norm-none") for c in ([], [["eq", [1, -1, 0], .05]])]
    out.append(Family("other-method", tc, run_nonconvex, "the trust-region method of scipy", chunk=1))
    return out
