"""C31 arguments outside their documented range are refused, those inside accepted, and a refusal changes nothing."""
import itertools
import os
import tempfile

import cvxpy as cp
import numpy as np
import pandas as pd

import data
from cvxpy.error import DCPError, SolverError
from engine import Family
from pypfopt import (CLA, BlackLittermanModel, DiscreteAllocation, EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance, HRPOpt,
                     black_litterman, expected_returns, objective_functions, plotting, risk_models)
from pypfopt.base_optimizer import portfolio_performance
from pypfopt.discrete_allocation import get_latest_prices
from pypfopt.exceptions import InstantiationError, OptimizationError

N = 4
NA = float("nan")
V, T, NI, AT, IN, OP = ValueError, TypeError, NotImplementedError, AttributeError, InstantiationError, OptimizationError
ANY = (V, T, NI, AT, IN, OP, AssertionError, IndexError, KeyError, SolverError, DCPError)
KINDS = {"frontier": EfficientFrontier, "semivariance": EfficientSemivariance, "cvar": EfficientCVaR, "cdar": EfficientCDaR}
LINKAGES = ("single", "complete", "average", "weighted", "centroid", "median", "ward")


def base():
    mu, S = data.structured(N)
    lab = data.names(N)
    R = data.grid_returns(24, N)
    P = pd.DataFrame(np.vstack([np.ones(N), np.cumprod(1 + R, axis=0)]) * [20., 7.5, 64., 3.], columns=lab, index=pd.date_range("2022-01-03", periods=25))
    return {"mu": pd.Series(mu, lab), "S": pd.DataFrame(S, lab, lab), "R": pd.DataFrame(R, columns=lab), "P": P, "lab": lab,
            "latest": pd.Series([20., 7.5, 64., 3.], lab), "w": dict(zip(lab, [.4, .3, .2, .1]))}


def with_nan(values, i):
    return [NA if j == i else v for j, v in enumerate(values)]


# --------------------------------------------------------------------------- constructors
# argument -> ([(name, value, types it is refused with)], [(name, value)] accepted); values are functions of the inputs
def bounds_values():
    bad = [("three numbers", lambda b: (0, 1, 1), T), ("one number", lambda b: (0,), T), ("text", lambda b: "ab", T), ("array of two numbers", lambda b: np.array([0, 1]), T),
           ("pairs for three assets", lambda b: [(0, 1)] * 3, T), ("pairs for five assets", lambda b: [(0, 1)] * 5, T), ("nothing", lambda b: (), T)]
    good = [("pair", lambda b: (0, 1)), ("list", lambda b: [0, 1]), ("none above", lambda b: (0, None)), ("none", lambda b: (None, None)), ("pair per asset", lambda b: [(0, 1)] * N), ("arrays", lambda b: (np.zeros(N), np.ones(N)))]
    return bad, good


def mu_values():
    return ([("dict", lambda b: dict(b["mu"]), T), ("text", lambda b: "abcd", T), ("number", lambda b: .1, T), ("tuple", lambda b: tuple(b["mu"]), T),
             ("one too few", lambda b: b["mu"].iloc[:3], V), ("one too many", lambda b: np.append(b["mu"].values, .1), V)],
            [("list", lambda b: list(b["mu"])), ("array", lambda b: b["mu"].values), ("column", lambda b: b["mu"].values.reshape(-1, 1)), ("absent", lambda b: None)])


CONSTRUCTORS = {
    "frontier": (lambda b, a: EfficientFrontier(a.get("mu", b["mu"]), a.get("S", b["S"]), weight_bounds=a.get("bounds", (0, 1))), {
        "mu": mu_values(), "bounds": bounds_values(),
        "S": ([("absent", lambda b: None, V), ("list", lambda b: b["S"].values.tolist(), T), ("dict", lambda b: b["S"].to_dict(), T), ("too small", lambda b: b["S"].iloc[:3, :3], V),
               ("a column missing", lambda b: b["S"].values[:, :3], V), ("a row missing", lambda b: b["S"].values[:3], V), ("too large", lambda b: np.eye(5), V)], [("array", lambda b: b["S"].values)])}),
    "semivariance": (lambda b, a: EfficientSemivariance(a.get("mu", b["mu"]), a.get("R", b["R"]), weight_bounds=a.get("bounds", (0, 1))), {
        "mu": mu_values(), "bounds": bounds_values(),
        "R": ([("list", lambda b: b["R"].values.tolist(), ANY), ("a column missing", lambda b: b["R"].iloc[:, 1:], V), ("a column too many", lambda b: np.c_[b["R"].values, b["R"].values[:, 0]], V)], [("array", lambda b: b["R"].values)])}),
    "hrp": (lambda b, a: HRPOpt(a.get("R", b["R"]), a.get("S")), {
        "R": ([("array", lambda b: b["R"].values, T), ("list", lambda b: b["R"].values.tolist(), T), ("dict", lambda b: {}, T), ("absent", lambda b: None, V)], [])}),
    "hrp-cov": (lambda b, a: HRPOpt(None, a.get("S", b["S"])), {"S": ([("absent", lambda b: None, V)], [])}),
    "allocation": (lambda b, a: DiscreteAllocation(a.get("w", b["w"]), a.get("latest", b["latest"]), total_portfolio_value=a.get("value", 1000), short_ratio=a.get("ratio")), {
        "w": ([("series", lambda b: pd.Series(b["w"]), T), ("list", lambda b: list(b["w"].values()), T), ("absent", lambda b: None, T)]
              + [(f"gap {i}", lambda b, i=i: dict(zip(b["lab"], with_nan([.4, .3, .2, .1], i))), V) for i in range(N)],
              [("zeros", lambda b: dict(zip(b["lab"], [1., 0, 0, 0]))), ("one asset", lambda b: {b["lab"][2]: 1.0})]),
        "latest": ([("dict", lambda b: dict(b["latest"]), T), ("array", lambda b: b["latest"].values, T), ("frame", lambda b: b["P"], T)]
                   + [(f"gap {i}", lambda b, i=i: pd.Series(with_nan(list(b["latest"]), i), b["lab"]), T) for i in range(N)], [("integers", lambda b: pd.Series([20, 7, 64, 3], b["lab"]))]),
        "value": ([("zero", lambda b: 0, V), ("negative", lambda b: -5.5, V), ("slightly negative", lambda b: -1e-9, V)], [("small", lambda b: .5), ("integer", lambda b: 7)]),
        "ratio": ([("negative", lambda b: -.3, V), ("slightly negative", lambda b: -1e-9, V)], [("zero", lambda b: 0), ("large", lambda b: 2.5)])}),
}
for _k in ("cvar", "cdar"):
    CONSTRUCTORS[_k] = (lambda b, a, c=KINDS[_k]: c(a.get("mu", b["mu"]), a.get("R", b["R"]), beta=a.get("beta", .9), weight_bounds=a.get("bounds", (0, 1))), {
        "mu": mu_values(), "bounds": bounds_values(), "R": CONSTRUCTORS["semivariance"][1]["R"],
        "beta": ([("one", lambda b: 1, V), ("above one", lambda b: 1.5, V), ("percent", lambda b: 95, V), ("negative", lambda b: -.05, V), ("slightly negative", lambda b: -1e-9, V)],
                 [("zero", lambda b: 0), ("low", lambda b: .1), ("half", lambda b: .5), ("high", lambda b: .999)])})


def bl_build(b, a):
    kw = {k: v for k, v in a.items() if k not in ("S", "mode")}
    if a.get("mode") == "PQ":
        kw.setdefault("Q", np.array([.1, .02]))
        kw.setdefault("P", np.array([[1., 0, 0, 0], [0, 1, -1, 0]]))
    else:
        kw.setdefault("absolute_views", {b["lab"][1]: .1, b["lab"][3]: -.02})
    return BlackLittermanModel(a.get("S", b["S"]), **kw)


BL_ARGS = {
    "tau": ([("zero", lambda b: 0, V), ("negative", lambda b: -.05, V), ("above one", lambda b: 1.0001, V), ("large", lambda b: 25, V)], [("one", lambda b: 1), ("tiny", lambda b: 1e-3)]),
    "risk_aversion": ([("zero", lambda b: 0, V), ("negative", lambda b: -1, V)], [("tiny", lambda b: 1e-3), ("large", lambda b: 10)]),
    "pi": ([("list", lambda b: list(b["mu"]), T), ("number", lambda b: .1, T), ("unknown name", lambda b: "median", T), ("market without capitalisations", lambda b: "market", V),
            ("one too few", lambda b: b["mu"].values[:3], ANY), ("one too many", lambda b: np.append(b["mu"].values, .1), ANY)], [("series", lambda b: b["mu"]), ("array", lambda b: b["mu"].values), ("equal", lambda b: "equal"), ("absent", lambda b: None)]),
    "omega": ([("list", lambda b: [[.1, 0], [0, .1]], ANY), ("unknown name", lambda b: "best", T), ("idzorek without confidences", lambda b: "idzorek", V), ("too small", lambda b: np.eye(1), ANY),
               ("too large", lambda b: np.eye(3), ANY), ("one row", lambda b: np.ones((1, 2)), ANY)], [("default", lambda b: "default"), ("absent", lambda b: None), ("array", lambda b: np.eye(2)), ("frame", lambda b: pd.DataFrame(np.eye(2)))]),
}
CONSTRUCTORS["views"] = (bl_build, dict(BL_ARGS, absolute_views=(
    [("list", lambda b: [.1, .2], T), ("array", lambda b: np.array([.1, .2]), T), ("unknown asset first", lambda b: {"zz": .1, b["lab"][0]: .1}, V), ("unknown asset last", lambda b: {b["lab"][0]: .1, "zz": .1}, V),
     ("position instead of ticker", lambda b: {1: .1}, V)], [("series", lambda b: pd.Series([.1, .2], b["lab"][2:])), ("every asset", lambda b: dict(b["mu"]))])))
CONSTRUCTORS["picked"] = (lambda b, a: bl_build(b, dict(a, mode="PQ")), dict(BL_ARGS, Q=(
    [("list", lambda b: [.1, .02], T), ("number", lambda b: .1, T), ("absent", lambda b: None, T), ("one too few", lambda b: np.array([.1]), ANY), ("one too many", lambda b: np.array([.1, .2, .3]), ANY)], [("column", lambda b: np.array([[.1], [.02]])), ("series", lambda b: pd.Series([.1, .02]))]),
    P=([("list", lambda b: [[1, 0, 0, 0], [0, 1, -1, 0]], T), ("absent", lambda b: None, T), ("a column missing", lambda b: np.eye(3)[:2], ANY), ("a row missing", lambda b: np.eye(4)[:1], ANY), ("a row too many", lambda b: np.eye(4)[:3], ANY)], [("frame", lambda b: pd.DataFrame(np.eye(4)[:2]))])))
CONSTRUCTORS["confidences"] = (lambda b, a: bl_build(b, dict(omega="idzorek", view_confidences=a["c"] if "c" in a else [.3, .6], **({"tau": a["tau"]} if "tau" in a else {}))), {
    "tau": BL_ARGS["tau"],
    "c": ([("one too few", lambda b: [.3], V), ("one too many", lambda b: [.3, .3, .3], V), ("text", lambda b: ["a", "b"], V)]
          + [(f"{x} at {i}", lambda b, x=x, i=i: np.array([x if j == i else o for j in range(2)]), V) for x in (-.1, -1e-9, 1.0001, 60) for i in range(2) for o in (.5,)]
          + [("too large after zero", lambda b: [0, 1.5], V), ("negative after one", lambda b: [1, -.5], V)],
          [("limits", lambda b: [0, 1]), ("array", lambda b: np.array([.2, .9])), ("column", lambda b: np.array([[.2], [.9]])), ("series", lambda b: pd.Series([.2, .9]))])})


def values(kind, arg, good):
    return CONSTRUCTORS[kind][1][arg][1 if good else 0]


def run_constructor(case, ctx):
    """One or two arguments replaced: refused exactly if one of them is outside its range."""
    b = base()
    make = CONSTRUCTORS[case["kind"]][0]
    args, types = {}, ()
    for arg, good, k in case["args"]:
        v = values(case["kind"], arg, good)[k]
        args[arg] = v[1](b)
        if not good:
            types += v[2] if isinstance(v[2], tuple) else (v[2],)
    tag, val = ctx.attempt("construct", make, b, args)
    if types:
        if len(case["args"]) > 1:
            types = ANY  # which of the two is noticed first is open
        ctx.require(tag == "err", "an argument outside its documented range was accepted", arguments=args)
        ctx.require(isinstance(val, types), f"refused with {type(val).__name__}: {val}", arguments=args)
    else:
        ctx.require(tag == "ok", f"valid arguments were refused: {type(val).__name__ if tag == 'err' else ''} {val}", arguments=args)
    ctx.outcome(case["kind"] + ("/refused" if types else "/accepted"))


# --------------------------------------------------------------------------- requests
def optimisers(kind):
    b = base()
    if kind in KINDS:
        return b, KINDS[kind](b["mu"], b["S"] if kind == "frontier" else b["R"])
    if kind == "cla":
        return b, CLA(b["mu"], b["S"])
    if kind == "hrp":
        return b, HRPOpt(b["R"])
    return b, BlackLittermanModel(b["S"], pi=b["mu"], absolute_views={b["lab"][1]: .1})


def valid(kind, o, which):
    if kind in KINDS:
        if which == "min":
            return {"frontier": o.min_volatility}.get(kind, getattr(o, "min_" + kind, None))()
        if which == "return":
            return o.efficient_return(.12)
        if which == "return2":
            return o.efficient_return(.15)
        if which == "risk":
            return o.efficient_risk({"frontier": .3, "semivariance": .35, "cvar": .06, "cdar": .3}[kind])
        if which == "sharpe":
            return o.max_sharpe(.01)
        return o.max_quadratic_utility(2)
    if kind == "cla":
        return o.max_sharpe() if which == "sharpe" else o.min_volatility()
    if kind == "hrp":
        return o.optimize(which) if which != "min" else o.optimize()
    return o.bl_weights()


def valids(kind):
    if kind in KINDS:
        return ["min", "return", "risk"] + (["utility"] if kind in ("frontier", "semivariance") else []) + (["sharpe"] if kind == "frontier" else [])
    return {"cla": ["min", "sharpe"], "hrp": ["min", "ward"], "bl": ["min"]}[kind]


def invalids(kind):
    """(name, call, types, when): when is 'fresh', 'solved' or 'any'."""
    out = [("rounding 0", lambda o, b: o.clean_weights(rounding=0), V, "solved"), ("rounding -2", lambda o, b: o.clean_weights(rounding=-2), V, "solved"),
           ("rounding 1.5", lambda o, b: o.clean_weights(rounding=1.5), V, "solved"), ("rounding text", lambda o, b: o.clean_weights(rounding="3"), V, "solved"),
           ("unknown file kind", lambda o, b: save(o, "w.xlsx"), NI, "solved"), ("no file kind", lambda o, b: save(o, "weights"), NI, "solved"), ("backup file kind", lambda o, b: save(o, "w.csv.bak"), NI, "solved"),
           ("clean too early", lambda o, b: o.clean_weights(), AT, "fresh"), ("save too early", lambda o, b: save(o, "w.csv"), AT, "fresh"),
           ("performance too early", lambda o, b: o.portfolio_performance(), V, "fresh")]
    if kind in ("cla", "cvar", "cdar"):
        out.append(("set_weights", lambda o, b: o.set_weights(b["w"]), NI, "any"))
    if kind == "hrp":
        out += [("linkage " + x, lambda o, b, x=x: o.optimize(x), V, "any") for x in ("nope", "Single", "")]
    if kind in KINDS:
        if kind != "frontier":
            out += [("min_volatility", lambda o, b: o.min_volatility(), NI, "any"), ("max_sharpe", lambda o, b: o.max_sharpe(), NI, "any")]
        else:
            out += [("rate text", lambda o, b: o.max_sharpe("x"), V, "any"), ("rate absent", lambda o, b: o.max_sharpe(None), V, "any"), ("rate list", lambda o, b: o.max_sharpe([.02]), V, "any"),
                    ("rate too high", lambda o, b: o.max_sharpe(float(b["mu"].max()) + 1e-6), V, "any"), ("rate at the highest return", lambda o, b: o.max_sharpe(float(b["mu"].max())), V, "any"),
                    ("volatility text", lambda o, b: o.efficient_risk("x"), V, "any"), ("volatility absent", lambda o, b: o.efficient_risk(None), V, "any"),
                    ("volatility negative", lambda o, b: o.efficient_risk(-.2), V, "any"), ("volatility slightly negative", lambda o, b: o.efficient_risk(-1e-9), V, "any"), ("volatility too low", lambda o, b: o.efficient_risk(.01), V, "any"),
                    ("volatility list", lambda o, b: o.efficient_risk([.2]), V, "any"), ("volatility negative neutral", lambda o, b: o.efficient_risk(-.2, market_neutral=False), V, "any"),
                    ("return too high", lambda o, b: o.efficient_return(float(b["mu"].max()) + 1e-3), V, "any")]
        if kind in ("frontier", "semivariance"):
            out += [("aversion zero", lambda o, b: o.max_quadratic_utility(0), V, "any"), ("aversion negative", lambda o, b: o.max_quadratic_utility(-2), V, "any"),
                    ("aversion slightly negative", lambda o, b: o.max_quadratic_utility(-1e-9), V, "any"),
                    ("return text", lambda o, b: o.efficient_return("x"), V, "any"), ("return absent", lambda o, b: o.efficient_return(None), V, "any"), ("return far too high", lambda o, b: o.efficient_return(10.), V, "any")]
        else:
            out += [("utility", lambda o, b: o.max_quadratic_utility(), NI, "any"), ("return far too high", lambda o, b: o.efficient_return(10.), ANY, "solved-return"), ("risk negative", lambda o, b: o.efficient_risk(-.1), ANY, "solved-risk")]
        if kind == "semivariance":
            out += [("return negative", lambda o, b: o.efficient_return(-.1), V, "any"), ("return slightly negative", lambda o, b: o.efficient_return(-1e-9), V, "any")]
        out += [("constraint not a function", lambda o, b: o.add_constraint([0, 1]), T, "any"), ("constraint is text", lambda o, b: o.add_constraint("w[0] >= .1"), T, "any"),
                ("constraint absent", lambda o, b: o.add_constraint(None), T, "any"),
                ("constraint too late", lambda o, b: o.add_constraint(lambda w: w[0] <= .1), IN, "solved"), ("objective too late", lambda o, b: o.add_objective(objective_functions.L2_reg), IN, "solved"),
                ("sectors too late", lambda o, b: o.add_sector_constraints({b["lab"][0]: "s"}, {}, {"s": .1}), IN, "solved"),
                ("unknown parameter", lambda o, b: o.update_parameter_value("nope", 1), ANY, "any")]
    return out


def save(o, name):
    with tempfile.TemporaryDirectory() as d:
        try:
            return o.save_weights_to_file(os.path.join(d, name))
        finally:
            if os.path.exists(os.path.join(d, name)) and not name.endswith(".csv"):
                raise AssertionError("a refused file was written")


def snapshot(kind, o):
    if o.weights is None:
        return None
    return np.array(o.weights, float), tuple(o.portfolio_performance())


def fits(when, state):
    return when == "any" or when == state or (when == "solved" and state != "fresh") or when == "solved-" + state


def run_request(case, ctx):
    kind = case["kind"]
    table = {x[0]: x for x in invalids(kind)}
    b, o = ctx.step("init", optimisers, kind)
    if case["state"] != "fresh":
        ctx.step(case["state"], valid, kind, o, case["state"])
    was = ctx.step("report", snapshot, kind, o)
    for name in case["bad"]:
        _, fn, types, _ = table[name]
        tag, val = ctx.attempt(name, fn, o, b)
        ctx.require(tag == "err", "accepted: " + name, got=val)
        ctx.require(isinstance(val, types if case["state"] == "fresh" and len(case["bad"]) == 1 else ANY), f"{name}: refused with {type(val).__name__}: {val}")
        now = ctx.step("report", snapshot, kind, o)
        ctx.require((was is None) == (now is None), "a refused call created or removed weights", call=name)
        if was is not None:
            ctx.close(now[0], was[0], 0, "a refused call changed the weights", call=name)
            ctx.close([x for x in now[1] if x is not None], [x for x in was[1] if x is not None], 0, "a refused call changed the report", call=name)
    # and the object still answers as one that was never asked
    follow = case["follow"]
    _, twin = ctx.step("twin", optimisers, kind)
    if case["state"] != "fresh":
        ctx.step(["twin", case["state"]], valid, kind, twin, case["state"])
    want = ctx.step(["twin", follow], valid, kind, twin, follow)
    tag, got = ctx.attempt(follow, valid, kind, o, follow)
    ctx.require(tag == "ok", f"after refused calls a valid request fails: {got!r}")
    ctx.require(list(got) == list(want), "labels differ after refused calls")
    ctx.close(list(got.values()), list(want.values()), 1e-7, "after refused calls a valid request has another answer")
    ctx.outcome(kind + "/" + case["state"])


def run_accept(case, ctx):
    """Values inside the range, close to its ends."""
    b = base()
    m = float(b["mu"].max())
    calls = {
        "frontier": [lambda o: o.max_sharpe(m - .05), lambda o: o.max_sharpe(0), lambda o: o.max_sharpe(-.05), lambda o: o.max_quadratic_utility(1e-3), lambda o: o.max_quadratic_utility(500), lambda o: o.efficient_risk(3), lambda o: o.efficient_risk(.5),
                     lambda o: o.efficient_return(0.), lambda o: o.efficient_return(m - 1e-4), lambda o: o.efficient_return(np.float64(.1))],
        "semivariance": [lambda o: o.max_quadratic_utility(1e-3), lambda o: o.efficient_risk(3), lambda o: o.efficient_return(0.), lambda o: o.efficient_return(m - 1e-3)],
        "cvar": [lambda o: o.efficient_risk(3), lambda o: o.efficient_return(0.), lambda o: o.efficient_return(m - 1e-3)],
        "cdar": [lambda o: o.efficient_risk(3), lambda o: o.efficient_return(0.), lambda o: o.efficient_return(m - 1e-3)],
        "hrp": [lambda o, x=x: o.optimize(x) for x in LINKAGES],
        "cla": [lambda o: o.max_sharpe(), lambda o: o.min_volatility()], "bl": [lambda o: o.bl_weights(), lambda o: o.bl_weights(risk_aversion=.01)],
    }[case["kind"]]
    for k, c in enumerate(calls):
        _, o = ctx.step("init", optimisers, case["kind"])
        tag, w = ctx.attempt(k, c, o)
        ctx.require(tag == "ok", f"a value inside its range was refused: {w!r}", call=k)
        ctx.small(abs(sum(w.values()) - 1), 1e-4, "weights do not sum to one", call=k)
        for r in (None, 1, 3, 16):
            ctx.step(["clean", r], o.clean_weights, rounding=r)
        for name in ("w.csv", "w.json", "w.txt", "w.v2.csv", "W.CSV"):
            tag, val = ctx.attempt(["save", name], save, o, name) if name.endswith(".csv") else ctx.attempt(["save", name], save_any, o, name)
            ctx.require(tag == "ok", f"a documented file kind was refused: {val!r}", file=name)
    ctx.outcome(case["kind"])


def save_any(o, name):
    with tempfile.TemporaryDirectory() as d:
        o.save_weights_to_file(os.path.join(d, name))
        assert os.path.exists(os.path.join(d, name))


# --------------------------------------------------------------------------- functions
RM = ("sample_cov", "semicovariance", "semivariance", "exp_cov", "ledoit_wolf", "ledoit_wolf_constant_variance", "ledoit_wolf_single_factor", "ledoit_wolf_constant_correlation", "oracle_approximating")
ERM = ("mean_historical_return", "ema_historical_return", "capm_return")


def functions():
    bad_matrix = np.array([[1., 2.], [2., 1.]])
    out = []
    for s in ("nope", "", "sample", "Sample_Cov", "ledoit", "shrunk"):
        out.append((f"risk_matrix {s!r}", lambda b, s=s: risk_models.risk_matrix(b["P"], method=s), NI))
        out.append((f"return_model {s!r}", lambda b, s=s: expected_returns.return_model(b["P"], method=s), NI))
        out.append((f"fix {s!r}", lambda b, s=s: risk_models.fix_nonpositive_semidefinite(bad_matrix, s), NI))
        out.append((f"target {s!r}", lambda b, s=s: risk_models.CovarianceShrinkage(b["P"]).ledoit_wolf(s), NI))
    out += [("risk_matrix returns name", lambda b: risk_models.risk_matrix(b["P"], method="capm_return"), NI), ("return_model risk name", lambda b: expected_returns.return_model(b["P"], method="sample_cov"), NI),
            ("latest of series", lambda b: get_latest_prices(b["P"].iloc[:, 0]), T), ("latest of array", lambda b: get_latest_prices(b["P"].values), T), ("latest of dict", lambda b: get_latest_prices({}), T),
            ("aversion of list", lambda b: black_litterman.market_implied_risk_aversion(list(b["P"].iloc[:, 0])), T), ("aversion of array", lambda b: black_litterman.market_implied_risk_aversion(b["P"].iloc[:, 0].values), T),
            ("performance of nothing", lambda b: portfolio_performance(None, b["mu"], b["S"]), V), ("performance of foreign tickers", lambda b: portfolio_performance({"zz": 1.0}, b["mu"], b["S"]), V),
            ("performance of zeros", lambda b: portfolio_performance({k: 0.0 for k in b["lab"]}, b["mu"], b["S"]), V),
            ("plot of nothing", lambda b: plotting.plot_efficient_frontier(None, show_assets=False), NI), ("plot of hrp", lambda b: plotting.plot_efficient_frontier(HRPOpt(b["R"]), show_assets=False), NI),
            ("plot parameter", lambda b: plotting.plot_efficient_frontier(EfficientFrontier(b["mu"], b["S"]), ef_param="sharpe", show_assets=False), NI),
            ("plot parameter case", lambda b: plotting.plot_efficient_frontier(EfficientFrontier(b["mu"], b["S"]), ef_param="Risk", ef_param_range=np.array([.3]), show_assets=False), NI)]
    good = [(f"risk_matrix {s}", lambda b, s=s: risk_models.risk_matrix(b["P"], method=s)) for s in RM] + [(f"return_model {s}", lambda b, s=s: expected_returns.return_model(b["P"], method=s)) for s in ERM]
    good += [(f"fix {s}", lambda b, s=s: risk_models.fix_nonpositive_semidefinite(bad_matrix, s)) for s in ("spectral", "diag")]
    good += [(f"target {s}", lambda b, s=s: risk_models.CovarianceShrinkage(b["P"]).ledoit_wolf(s)) for s in ("constant_variance", "single_factor", "constant_correlation")]
    good += [("aversion of one column", lambda b: black_litterman.market_implied_risk_aversion(b["P"].iloc[:, [0]])), ("performance", lambda b: portfolio_performance(b["w"], b["mu"], b["S"]))]
    return out, good


def run_function(case, ctx):
    b = base()
    bad, good = functions()
    if case["good"]:
        name, fn = good[case["k"]]
        tag, val = ctx.attempt(name, fn, b)
        ctx.require(tag == "ok", f"{name}: a documented value was refused: {val!r}")
        ctx.outcome("accepted")
    else:
        name, fn, types = bad[case["k"]]
        tag, val = ctx.attempt(name, fn, b)
        ctx.require(tag == "err", f"{name}: accepted", got=val)
        ctx.require(isinstance(val, types), f"{name}: refused with {type(val).__name__}: {val}")
        ctx.outcome("refused")


def families(tier):
    deep = tier == "thorough"
    out, cases = [], []
    for kind, (_, args) in CONSTRUCTORS.items():
        opts = {a: [(a, False, k) for k in range(len(v[0]))] + [(a, True, k) for k in range(len(v[1]))] for a, v in args.items()}
        for a in opts:
            cases += [{"kind": kind, "args": [list(x)]} for x in opts[a]]
        for a, c in itertools.combinations(opts, 2):
            for x, y in itertools.product(opts[a], opts[c]):
                if {a, c} == {"mu", "R"} or {a, c} == {"mu", "S"} or {a, c} == {"P", "Q"} or {a, c} == {"absolute_views", "omega"} or {a, c} & {"P", "Q"} and "omega" in (a, c):
                    continue  # these have to fit one another
                if kind == "hrp":
                    continue
                cases.append({"kind": kind, "args": [list(x), list(y)]})
    out.append(Family("constructors", cases, run_constructor, "every constructor: each argument, and every pair of arguments, replaced by every listed value outside and inside its documented range", chunk=20))
    cases = []
    for kind in list(KINDS) + ["cla", "hrp", "bl"]:
        bad = invalids(kind)
        for state in ["fresh"] + valids(kind):
            fit = [x[0] for x in bad if fits(x[3], state)]
            if state == "fresh" or kind not in KINDS:
                follows = valids(kind)
            else:
                follows = [state] if state in ("return", "risk", "utility") else []
                follows = follows or [None]
            for follow in follows:
                if follow is None:
                    continue
                cases += [{"kind": kind, "state": state, "bad": [x], "follow": follow} for x in fit]
                if follow == follows[0]:
                    cases += [{"kind": kind, "state": state, "bad": [x, y], "follow": follow} for x, y in itertools.product(fit, fit) if deep or (fit.index(x) + fit.index(y)) % 2 == 0]
    out.append(Family("requests", cases, run_request, "seven kinds of optimiser x fresh or after each request x every refused call and ordered pairs of them, then a valid request, against a twin never asked", chunk=10))
    out.append(Family("accepted", [{"kind": k} for k in list(KINDS) + ["cla", "hrp", "bl"]], run_accept, "values just inside their ranges for every request; documented file kinds", chunk=1))
    bad, good = functions()
    out.append(Family("functions", [{"good": False, "k": k} for k in range(len(bad))] + [{"good": True, "k": k} for k in range(len(good))], run_function, "unknown and known names, containers", chunk=4))
    return out
