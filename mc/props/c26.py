"""C26 a copy of an optimiser is independent of the original and answers like it.

Histories over three objects: the original, a copy taken at some point, and (in some families) a copy of that
copy.  Reference: an object that was never copied and performed the same lineage of operations alone.
"""
import itertools

import numpy as np

import data
import downside
from engine import Family
from optim import add_constraints, bounds_of
from props import c06
from pypfopt import objective_functions as of

TOL = 2e-5


def l1(w, k):
    import cvxpy as cp

    return k * cp.norm(w - 0.3, 1)


def perform(opt, kind, op, n):
    """One operation of the alphabet; returns what the caller sees."""
    what, arg = op[0], op[1] if len(op) > 1 else None
    neutral = len(op) > 2 and op[2]
    kw = {"market_neutral": True} if neutral else {}
    if what == "cap":  # w[i] <= arg
        return opt.add_constraint(lambda w: w[arg[0]] <= arg[1])
    if what == "sector":
        return opt.add_sector_constraints({opt.tickers[0]: "s", opt.tickers[1]: "s"}, {"s": arg}, {"s": .9})
    if what == "l2":
        return opt.add_objective(of.L2_reg, gamma=arg)
    if what == "l1":
        return opt.add_objective(l1, k=arg)
    if what == "set":
        return opt.set_weights(dict(zip(opt.tickers, arg)))
    if what == "min":
        f = {"ef": "min_volatility", "semivariance": "min_semivariance", "cvar": "min_cvar", "cdar": "min_cdar"}[kind]
        return getattr(opt, f)(**kw)
    if what == "convex":
        import cvxpy as cp

        return opt.convex_objective(lambda w: cp.sum_squares(w - np.arange(n) / n))
    if what == "nonconvex":
        return opt.nonconvex_objective(lambda w: float(np.sum((w - arg) ** 2)), objective_args=())
    if what == "sharpe":
        return opt.max_sharpe(risk_free_rate=arg)
    if what == "utility":
        return opt.max_quadratic_utility(arg, **kw)
    return getattr(opt, what)(arg, **kw)


def build(case, ctx):
    if case["kind"] == "ef":
        opt, _, _ = c06.build(case, ctx)
    else:
        opt, _, _ = downside.build(case, ctx)
    add_constraints(ctx, opt, case.get("cons", ()))
    return opt


def look(ctx, opt):
    """Weights and report: ('none',) | (weights, report)."""
    if opt.weights is None:
        tag, val = ctx.attempt("report", opt.portfolio_performance)
        return ("none", type(val).__name__ if tag == "err" else "a report without weights")
    w = np.array([opt.clean_weights(cutoff=0, rounding=None)[t] for t in opt.tickers])
    rep = [np.nan if x is None else float(x) for x in ctx.step("report", opt.portfolio_performance)]
    return (w, np.array(rep))


def act(ctx, opt, case, op, who):
    tag, val = ctx.attempt([who, op], perform, opt, case["kind"], op, len(case["mu"]))
    if tag == "err":
        return "err", type(val).__name__
    return "ok", None if val is None else np.array([val[t] for t in opt.tickers])


TWINS = {}


def twin(ctx, case, lineage):
    """Result and state after the last operation of `lineage`, performed by one object that was never copied."""
    key = (repr({k: v for k, v in case.items() if k != "ops"}), repr(lineage))
    if key not in TWINS:
        import engine

        sub = engine.Ctx("twin", {})
        opt = build(case, sub)
        res = None
        for op in lineage:
            res = act(sub, opt, case, op, "twin")
        TWINS[key] = (res, look(sub, opt))
    return TWINS[key]


def same(ctx, got, want, what):
    ctx.require(type(got) is type(want) and len(got) == len(want) and isinstance(got[0], str) == isinstance(want[0], str), what, got=got, want=want)
    for g, w in zip(got, want):
        if isinstance(g, str) or g is None or isinstance(w, str) or w is None:
            ctx.require(isinstance(g, str) == isinstance(w, str) and (g is None) == (w is None) and (g is None or g == w), what, got=got, want=want)
        else:
            ctx.close(g, w, TOL, what)


def run(case, ctx):
    TWINS.clear() if len(TWINS) > 20000 else None
    objs = {"o": build(case, ctx)}
    line = {"o": []}
    for op in case["ops"]:
        if op[0] == "copy":
            src, dst = op[1], op[2]
            objs[dst] = ctx.step(op, objs[src].deepcopy)
            line[dst] = list(line[src])
            ctx.require(objs[dst] is not objs[src] and type(objs[dst]) is type(objs[src]), "deepcopy returned no new optimiser of the same kind")
        else:
            who, what = op[0], op[1:]
            res = act(ctx, objs[who], case, what, who)
            line[who] = line[who] + [what]
            want, _ = twin(ctx, case, line[who])
            same(ctx, res, want, f"after {case['ops']}: {who} answered {what} otherwise than an object that was never copied")
            ctx.outcome(f"{what[0]}/{res[0]}")
        for who in objs:  # nobody else was affected
            same(ctx, look(ctx, objs[who]), twin(ctx, case, line[who])[1], f"weights or report of {who} are wrong after {op}")


def families(tier):
    deep = tier == "thorough"
    out = []
    mu, S = [.05, .1, .2], data.cov_from([.1, .2, .3], data.sym_corr(3, [.3, -.4, .5])).tolist()

    def fam(name, cases, bound, chunk):
        out.append(Family(name, cases, run, bound, chunk=chunk))

    def interleaved(base, pre, suf, lens, who=("o", "c"), order=None):
        cases = []
        for k in lens[0]:
            for p in itertools.product(pre, repeat=k):
                for q in itertools.product(itertools.product(who, suf), repeat=lens[1]):
                    cases.append(dict(base, ops=[["o", *x] for x in p] + [["copy", "o", "c"]] + [[w, *x] for w, x in q]))
        return cases

    ef = {"kind": "ef", "mu": mu, "S": S, "bounds": ["pair", -.2, 1]}
    A = [("min",), ("utility", 2), ("utility", 15), ("efficient_return", .12), ("efficient_return", .7), ("efficient_risk", .16), ("sharpe", .02), ("cap", [2, .2]), ("cap", [0, .5]), ("l2", 1.0), ("sector", .3), ("set", [.5, .3, .2])]
    fam("mean-variance", interleaved(ef, A if deep else [A[i] for i in (0, 1, 3, 6, 7, 9)], A, ((0, 1), 2)), "no or one operation, then a copy, then every two operations on copy or original (12 operations)", 40)
    B = [("min",), ("efficient_return", .12), ("efficient_return", .15), ("cap", [2, .2]), ("l1", .02)] + ([("utility", 2), ("efficient_risk", .16)] if deep else [])
    fam("mean-variance-deeper", interleaved(ef, B, B, ((0, 2), 2) if not deep else ((0, 1, 2), 3)), "two operations before and two after (5 operations)" if not deep else "up to two operations before and three after (7 operations)", 40)
    N = [("utility", 2, True), ("utility", 9, True), ("efficient_return", .05, True), ("efficient_risk", .12, True), ("utility", 2, False), ("cap", [2, .2]), ("sharpe", .01)]
    fam("market-neutral", interleaved(dict(ef, bounds=["pair", 0, 1]), N, N, ((0, 1), 2)) + interleaved(ef, N, N, ((0, 1), 2)), "market-neutral requests with and without amended bounds", 40)
    O = [("convex",), ("nonconvex", .4), ("nonconvex", .1), ("cap", [2, .2]), ("min",), ("l2", .5)]
    fam("custom", interleaved(ef, O, O, ((0, 1), 2)), "custom convex and nonconvex objectives", 40)
    R = data.grid_returns(12, 3, 1).tolist()
    for kind, par in (("semivariance", {"frequency": 12}), ("cvar", {"beta": .8}), ("cdar", {"beta": .8})):
        base = dict(par, kind=kind, R=R, mu=mu, bounds=["pair", -.5, 1])
        _, risk = downside.targets(base)
        D = [("min",), ("min", None, True), ("efficient_return", .08), ("efficient_return", .15), ("efficient_return", .95), ("efficient_risk", risk[0]), ("efficient_risk", risk[1]), ("cap", [2, .2]), ("l2", .01)]
        if kind == "semivariance":
            D += [("utility", 2), ("set", [.5, .3, .2])]
        if kind != "semivariance":  # where the target is not binding the report is known to be off (see C10/C11)
            D = [d for d in D if d[0] != "efficient_risk" or d[1] == risk[0]]
        fam(kind, interleaved(base, D if deep else [d for d in D if d[1:] != (.95,) and d[0] != "utility"], D, ((0, 1), 2)), f"no or one operation, then a copy, then every two operations on copy or original ({len(D)} operations)", 30)
    # copies of copies, several copies
    G = [("min",), ("efficient_return", .12), ("cap", [2, .2]), ("l2", 1.0)]
    gen = []
    for a, b, c, d in itertools.product(G, repeat=4):
        gen.append(dict(ef, ops=[["copy", "o", "c"], ["c", *a], ["copy", "c", "d"], ["d", *b], ["c", *c], ["o", *d]]))
        gen.append(dict(ef, ops=[["o", *a], ["copy", "o", "c"], ["copy", "o", "d"], ["d", *b], ["c", *c], ["o", *d]]))
    fam("generations", gen, "a copy of a copy, and two copies of one object, four operations each", 20)
    return out
