"""Every public entry point with every spelling of its arguments: one short call each, on the shared inputs of a World.

CALLS is a list of (name, forms, fn): fn(W) makes the call(s) and returns something comparable."""
import itertools
import os
import tempfile

import matplotlib
import numpy as np
import pandas as pd

from pypfopt import (CLA, BlackLittermanModel, DiscreteAllocation, EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance, HRPOpt,
                     black_litterman, expected_returns, objective_functions as of, plotting, risk_models)
from pypfopt.base_optimizer import portfolio_performance
from pypfopt.discrete_allocation import get_latest_prices

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

CALLS = []
SOLVER = {"solver": "CLARABEL"}


def call(name, fn, forms=("frame", "array")):
    CALLS.append((name, forms, fn))


def flat(x):
    """Numbers of a result, in order."""
    if x is None or isinstance(x, str):
        return [x]
    if isinstance(x, dict):
        return [y for k, v in x.items() for y in [str(k)] + flat(v)]
    if isinstance(x, (list, tuple)):
        return [y for v in x for y in flat(v)]
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return list(map(str, x.index)) + [float(v) for v in x.values.ravel()]
    return [float(v) for v in np.asarray(x, float).ravel()]


def identity(x, W):
    """A result as a dictionary by asset identity instead of position or order."""
    def ids(labels):
        labels = list(labels)
        if set(labels) <= set(W.ids):
            return [W.back[t] for t in labels]
        if set(labels) <= set(range(W.n)):
            return [W.order[t] for t in labels]
        return None

    out = {}

    def walk(x, path):
        if x is None or isinstance(x, (str, bool)):
            out[path] = x if x is None else str(x)
        elif isinstance(x, pd.DataFrame):
            r = ids(x.index) if len(x) == W.n else None
            c = ids(x.columns) if x.shape[1] == W.n else None
            for i in range(x.shape[0]):
                for j in range(x.shape[1]):
                    out[path + (i if r is None else f"asset {r[i]}", j if c is None else f"asset {c[j]}")] = float(x.iloc[i, j])
        elif isinstance(x, (pd.Series, dict)):
            x = dict(x)
            k = ids(x)
            if k is not None and len(x) <= W.n:
                for i in range(W.n):
                    out[path + (f"asset {i}",)] = 0.0
                for i, v in zip(k, x.values()):
                    out[path + (f"asset {i}",)] = float(v)
            else:
                for i, v in enumerate(x.values()):
                    walk(v, path + (i,))
        elif isinstance(x, np.ndarray) and x.size == W.n and x.ndim > 0:
            for i, v in enumerate(x.ravel()):
                out[path + (f"asset {W.order[i]}",)] = float(v)
        elif isinstance(x, np.ndarray) and x.shape == (W.n, W.n):
            for (i, j), v in np.ndenumerate(x):
                out[path + (f"asset {W.order[i]}", f"asset {W.order[j]}")] = float(v)
        elif isinstance(x, (list, tuple)) or isinstance(x, np.ndarray) and x.ndim > 0:
            for i, v in enumerate(x):
                walk(v, path + (i,))
        else:
            out[path] = float(x)

    walk(x, ())
    return out


# estimators: source x settings
for src, rd in (("prices", False), ("holes", False), ("R", True), ("gaps", True)):
    for log in (False, True):
        if rd and log:
            continue
        kw = {"returns_data": rd, "log_returns": log}
        for comp in (True, False):
            call(f"mean {src} {log} {comp}", lambda W, src=src, kw=kw, comp=comp: expected_returns.mean_historical_return(getattr(W, src), compounding=comp, **kw))
            call(f"ema {src} {log} {comp}", lambda W, src=src, kw=kw, comp=comp: expected_returns.ema_historical_return(getattr(W, src), compounding=comp, span=5, **kw))
            call(f"capm {src} {log} {comp}", lambda W, src=src, kw=kw, comp=comp: expected_returns.capm_return(getattr(W, src), compounding=comp, **kw), ("frame",))
            m = "market_returns" if rd else "market"
            call(f"capm {src} {log} {comp} market", lambda W, src=src, kw=kw, comp=comp, m=m: expected_returns.capm_return(getattr(W, src), getattr(W, m), compounding=comp, **kw), ("frame",))
        for method in ("sample_cov", "semicovariance", "exp_cov", "ledoit_wolf", "ledoit_wolf_single_factor", "ledoit_wolf_constant_correlation", "oracle_approximating"):
            call(f"{method} {src} {log}", lambda W, src=src, kw=kw, method=method: risk_models.risk_matrix(getattr(W, src), method, **kw))
        call(f"shrinkage {src} {log}", lambda W, src=src, kw=kw: risk_models.CovarianceShrinkage(getattr(W, src), **kw).shrunk_covariance(.4))
for log in (False, True):
    for src in ("R", "gaps"):
        call(f"prices_from_returns {src} {log}", lambda W, src=src, log=log: expected_returns.prices_from_returns(pd.DataFrame(getattr(W, src)) if W.form == "array" else getattr(W, src), log_returns=log))
        call(f"prices_from_returns column {src} {log}", lambda W, src=src, log=log: expected_returns.prices_from_returns(getattr(W, src)[W.ids[W.at(0)]], log_returns=log), ("frame",))
    for src in ("prices", "holes"):
        call(f"returns_from_prices {src} {log}", lambda W, src=src, log=log: expected_returns.returns_from_prices(getattr(W, src), log_returns=log))
        call(f"returns_from_prices column {src} {log}", lambda W, src=src, log=log: expected_returns.returns_from_prices(getattr(W, src)[W.ids[W.at(1)]], log_returns=log))
for fix in ("spectral", "diag"):
    for src in ("S", "indefinite"):
        call(f"fix {src} {fix}", lambda W, src=src, fix=fix: risk_models.fix_nonpositive_semidefinite(getattr(W, src), fix))
call("cov_to_corr", lambda W: risk_models.cov_to_corr(W.S))
call("corr_to_cov", lambda W: risk_models.corr_to_cov(W.S, W.stdevs))
call("latest prices", lambda W: get_latest_prices(W.holes))
call("market risk aversion", lambda W: black_litterman.market_implied_risk_aversion(W.market, risk_free_rate=.01))
call("market risk aversion series", lambda W: black_litterman.market_implied_risk_aversion(W.market["SPY"]))
call("market prior", lambda W: black_litterman.market_implied_prior_returns(W.caps, 2.5, W.S, .02))
call("market prior dict", lambda W: black_litterman.market_implied_prior_returns(W.caps_dict, 2.5, W.S), ("frame",))

# objective functions on the user's arrays
for f, args in (("portfolio_variance", ("S",)), ("portfolio_return", ("mu",)), ("sharpe_ratio", ("mu", "S")), ("L2_reg", ()), ("transaction_cost", ("bench_n",)),
                ("ex_ante_tracking_error", ("S", "bench_n")), ("ex_post_tracking_error", ("R", "benchmark_returns"))):
    call(f"function {f}", lambda W, f=f, args=args: getattr(of, f)(W.warr, *[np.asarray(getattr(W, a)) if f != "ex_post_tracking_error" else getattr(W, a) for a in args]))
call("function quadratic_utility", lambda W: of.quadratic_utility(W.warr, np.asarray(W.mu), np.asarray(W.S), 2))
for c in ("weights", "warr", "wlist"):
    call(f"performance {c}", lambda W, c=c: portfolio_performance(getattr(W, c), W.mu, W.S, risk_free_rate=.01), ("frame",) if c == "weights" else ("frame", "array"))
    call(f"performance {c} no returns", lambda W, c=c: portfolio_performance(getattr(W, c), None, W.S), ("frame",) if c == "weights" else ("frame", "array"))

# mean-variance: bounds in every spelling x every request
BOUNDS = {"pair": (0, 1), "pairs": "bounds", "arrays": "array_pair", "array": "bounds_array", "long lists": "long"}
REQ = {"min_volatility": (), "max_sharpe": (.01,), "max_quadratic_utility": (2,), "efficient_risk": (.22,), "efficient_return": (.12,)}


def ef(W, b, mu="mu", **kw):
    return EfficientFrontier(getattr(W, mu), W.S, weight_bounds=getattr(W, b) if isinstance(b, str) else b, **SOLVER, **kw)


for (bn, b), (m, a) in itertools.product(BOUNDS.items(), REQ.items()):
    call(f"ef {bn} {m}", lambda W, b=b, m=m, a=a: getattr(ef(W, b), m)(*a))
    if m not in ("min_volatility", "max_sharpe"):
        call(f"ef {bn} {m} neutral", lambda W, b=b, m=m, a=a: getattr(ef(W, b), m)(*(.03,) if m == "efficient_return" else a, market_neutral=True))
for pair in ((.15, .6), (-.3, .7), (None, .6)):
    for m, a in REQ.items():
        if m != "max_sharpe" or None not in pair:
            call(f"ef {pair} {m}", lambda W, pair=pair, m=m, a=a: getattr(ef(W, pair), m)(*a))
call("ef list of returns", lambda W: ef(W, (0, 1), "mu_list").max_sharpe())
call("ef column of returns", lambda W: ef(W, (0, 1), "mu_column").max_sharpe())
call("ef solver options", lambda W: ef(W, (0, 1), solver_options=W.solver_options).min_volatility())


def objectives(W):
    e = ef(W, (0, 1))
    e.add_objective(of.transaction_cost, w_prev=W.bench_n, k=.01)
    e.add_objective(of.ex_ante_tracking_error, cov_matrix=W.S, benchmark_weights=W.bench_n)
    e.add_objective(of.ex_post_tracking_error, historic_returns=W.R, benchmark_returns=W.benchmark_returns)
    return e.efficient_return(.12), e.efficient_return(.14)


call("ef objectives", objectives)


def sectors(W, which="sectors"):
    e = ef(W, (0, 1))
    e.add_sector_constraints(getattr(W, which), W.lower, W.upper)
    return e.min_volatility()


call("ef sectors", sectors, ("frame",))
call("ef some sectors", lambda W: sectors(W, "some_sectors"), ("frame",))
for guess, cons in itertools.product((None, "warr", "wcolumn"), (None, "constraints")):
    call(f"nonconvex {guess} {cons}", lambda W, guess=guess, cons=cons: EfficientFrontier(W.mu, W.S).nonconvex_objective(
        lambda w, cov: w @ cov @ w, objective_args=(np.asarray(W.S),), constraints=cons and getattr(W, cons), initial_guess=None if guess is None else getattr(W, guess)))


def custom_array_args(W):
    e = EfficientFrontier(W.mu, W.S)
    args = np.asarray(W.S)
    return e.nonconvex_objective(lambda w, cov: w @ cov @ w, objective_args=args)


call("nonconvex array argument", custom_array_args)


def weights_in_and_out(W):
    e = EfficientFrontier(W.mu, W.S)
    e.set_weights(W.weights)
    clean = e.clean_weights(cutoff=.3, rounding=2)
    with tempfile.TemporaryDirectory() as d:
        for ext in ("csv", "json", "txt"):
            e.save_weights_to_file(os.path.join(d, "w." + ext))
    return clean, e.portfolio_performance()


call("set weights", weights_in_and_out, ("frame",))

# downside risk
for cls, kw, req in ((EfficientSemivariance, {"benchmark": .002, "frequency": 52}, {"min_semivariance": (), "max_quadratic_utility": (2,), "efficient_risk": (.3,), "efficient_return": (.12,)}),
                     (EfficientCVaR, {"beta": .8}, {"min_cvar": (), "efficient_risk": (.2,), "efficient_return": (.12,)}),
                     (EfficientCDaR, {"beta": .8}, {"min_cdar": (), "efficient_risk": (.4,), "efficient_return": (.12,)})):
    for (m, a), src, b in itertools.product(req.items(), ("R", "gaps"), ("bounds", "array_pair", "long")):
        def one(W, cls=cls, kw=kw, m=m, a=a, src=src, b=b):
            o = cls(W.mu, getattr(W, src), weight_bounds=getattr(W, b), **SOLVER, **kw)
            w = getattr(o, m)(*a)
            return w, o.portfolio_performance()
        call(f"{cls.__name__} {m} {src} {b}", one)

# critical line, hierarchical
for b in ("bounds", "array_pair", "long"):
    for m in ("max_sharpe", "min_volatility", "efficient_frontier"):
        call(f"cla {b} {m}", lambda W, b=b, m=m: getattr(CLA(W.mu, W.S, weight_bounds=getattr(W, b)), m)())
for pair in ((.15, .6), (-.3, .7)):
    for m in ("max_sharpe", "min_volatility", "efficient_frontier"):
        call(f"cla {pair} {m}", lambda W, pair=pair, m=m: getattr(CLA(W.mu, W.S, weight_bounds=pair), m)())
for link in ("single", "complete", "average", "weighted", "ward"):
    call(f"hrp returns {link}", lambda W, link=link: HRPOpt(W.R).optimize(link), ("frame",))
    call(f"hrp gaps {link}", lambda W, link=link: HRPOpt(W.gaps).optimize(link), ("frame",))
    call(f"hrp covariance {link}", lambda W, link=link: HRPOpt(cov_matrix=W.S).optimize(link), ("frame",))


# Black-Litterman: every container
def bl(W, **kw):
    b = BlackLittermanModel(W.S, **kw)
    r = b.bl_returns(), b.bl_cov(), b.bl_weights(), b.portfolio_performance()
    b.set_weights(dict(zip(b.tickers, W.wlist)))
    return r, b.portfolio_performance(), b.bl_weights(3)


for pi, q, p, om in itertools.product(("mu", "pi_column", "pi_frame", "market", "equal", None), ("Q", "Q_series", "Q_frame"), ("P", "P_frame"), ("omega", "omega_frame", "idzorek", "default")):
    def one(W, pi=pi, q=q, p=p, om=om):
        kw = {"Q": getattr(W, q), "P": getattr(W, p), "tau": .1}
        kw["pi"] = getattr(W, pi) if pi not in ("market", "equal", None) else pi
        if pi == "market":
            kw.update(market_caps=W.caps, risk_free_rate=.01, risk_aversion=2)
        kw["omega"] = getattr(W, om) if om.startswith("omega") else om
        if om == "idzorek":
            kw["view_confidences"] = W.conf_array if p == "P" else W.conf
        return bl(W, **kw)
    call(f"bl {pi} {q} {p} {om}", one)
for v in ("views", "views_series"):
    for pi in ("mu", None):
        call(f"bl {v} {pi}", lambda W, v=v, pi=pi: bl(W, absolute_views=getattr(W, v), pi=pi and getattr(W, pi)), ("frame",))

# allocation
for w, m, rein, ratio in itertools.product(("weights", "short"), ("greedy_portfolio", "lp_portfolio"), (False, True), (None, .4)):
    call(f"allocation {w} {m} {rein} {ratio}", lambda W, w=w, m=m, rein=rein, ratio=ratio: getattr(DiscreteAllocation(getattr(W, w), W.latest, total_portfolio_value=2345, short_ratio=ratio), m)(reinvest=rein), ("frame",))


# plots
def drawn(fn):
    def run(W):
        plt.close("all")
        r = fn(W)
        plt.close("all")
        return r
    return run


call("plot covariance", drawn(lambda W: plotting.plot_covariance(W.S) and None))
call("plot correlation", drawn(lambda W: plotting.plot_covariance(W.S, plot_correlation=True) and None), ("frame",))
call("plot weights", drawn(lambda W: plotting.plot_weights(W.weights) and None))


@drawn
def dendrogram(W):
    h = HRPOpt(W.R)
    h.optimize()
    plotting.plot_dendrogram(h)
    return h.weights


call("plot dendrogram", dendrogram, ("frame",))


@drawn
def frontier(W):
    e = ef(W, (0, 1))
    plotting.plot_efficient_frontier(e, ef_param="risk", ef_param_range=W.param_range, show_assets=True)
    return e.weights


call("plot frontier", frontier)


@drawn
def frontier_cla(W):
    c = CLA(W.mu, W.S, weight_bounds=W.bounds)
    plotting.plot_efficient_frontier(c, points=10)
    return c.weights


call("plot CLA", frontier_cla)


def extend(W):
    """Further spellings of the inputs of a world (asset order and form as there)."""
    frame = W.form == "frame"
    n, ids = W.n, W.ids
    S = np.asarray(W.S)
    more = {
        "market_returns": W.market.pct_change().iloc[1:],
        "indefinite": pd.DataFrame(S - .012 * np.eye(n), index=ids, columns=ids) if frame else S - .012 * np.eye(n),
        "stdevs": np.sqrt(np.diag(S)).copy(),
        "caps_dict": dict(zip(ids, np.asarray(W.caps).tolist())),
        "warr": np.array(list(W.weights.values())), "wlist": list(W.weights.values()), "wcolumn": np.array(list(W.weights.values())).reshape(-1, 1),
        "bench_n": W.bench[:n].copy(), "benchmark_returns": pd.Series(np.asarray(W.R)[:, W.at(0)] * .5 + .001) if frame else np.asarray(W.R)[:, W.at(0)] * .5 + .001,
        "array_pair": (W.lb[:n].copy(), W.ub[:n].copy()), "bounds_array": np.array([list(b) for b in W.bounds[:n]], float),
        "mu_column": np.asarray(W.mu, float).reshape(-1, 1).copy(),
        "pi_column": np.asarray(W.mu, float).reshape(-1, 1).copy(), "pi_frame": pd.DataFrame({"pi": np.asarray(W.mu, float)}, index=ids),
        "Q_series": pd.Series(W.Q), "Q_frame": pd.DataFrame({"q": W.Q}), "P_frame": pd.DataFrame(W.P, columns=ids), "omega_frame": pd.DataFrame(W.omega), "conf_array": np.array(W.conf),
        "views_series": pd.Series(W.views), "param_range": np.array([.16, .2, .25]),
    }
    if n != 5:
        more["long"] = W.long[:n]
        more["bounds"] = W.bounds[:n]
    W.inputs.update(more)
    for k, v in more.items():
        setattr(W, k, v)
    return W
