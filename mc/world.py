"""A small universe of shared inputs, and programs - one per way of using the package - that run on it step by step.

Each program is a generator over (world, out): it yields after every call into the package, so that an explorer can
interleave several programs, and it leaves its results in ``out``, attached to asset identities (not positions), so that
worlds which present the same assets in different orders can be compared.
"""
import copy
import hashlib

import cvxpy as cp
import numpy as np
import pandas as pd

import data
from pypfopt import (CLA, BlackLittermanModel, DiscreteAllocation, EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance, HRPOpt,
                     black_litterman, expected_returns, objective_functions, risk_models)
from pypfopt.base_optimizer import portfolio_performance
from pypfopt.discrete_allocation import get_latest_prices

MU = [.05, .12, .2, .08, .16]
VOL = [.1, .2, .3, .15, .25]
CORR = [.3, -.4, .2, .1, .15, -.1, .25, .35, -.2, .15]
_CAPS = [300., 120., 75., 220., 40.]
_LATEST = [7.3, 33.1, 12.7, 55.9, 21.4]
_WANT = [.37, .23, .4, .29, .17]
_SECTOR = ["x", "y", "x", "z", "y"]


def longer(first, n, more):
    """the short lists, continued for worlds with more than five assets"""
    return list(first[:n]) + [more(i) for i in range(len(first), n)]


class World:
    def __init__(self, n=3, order=None, form="frame", names="str"):
        self.n = n
        self.order = list(order) if order is not None else list(range(n))
        self.form = form
        lab = data.names(n, names)
        o = self.order
        self.ids = [lab[i] for i in o]                     # labels in presentation order
        self.back = {t: lab.index(t) for t in self.ids}     # label -> asset identity
        spread = lambda lo, hi: lambda i: lo + (hi - lo) * ((7 * i + 3) % 29) / 29  # noqa: E731
        vol = longer(VOL, n, spread(.1, .35))
        if n <= 5:
            S = data.cov_from(vol, data.sym_corr(n, CORR[:n * (n - 1) // 2]))
            R = data.grid_returns(14, n, 1)
        else:
            S = np.outer(vol, vol) * data.structured(n)[1] / np.sqrt(np.outer(*2 * [np.diag(data.structured(n)[1])]))
            R = data.big_returns(60, n, 1)
        mu = np.array(longer(MU, n, spread(.04, .21)))
        CAPS, LATEST, WANT = (longer(x, n, spread(*y)) for x, y in ((_CAPS, (30., 300.)), (_LATEST, (5., 60.)), (_WANT, (.05, .4))))
        SECTOR = longer(_SECTOR, n, lambda i: "xyz"[i % 3])
        zeros = [0] * (n - 5)
        prices = np.cumprod(np.vstack([np.full((1, n), 20.0), 1 + R]), axis=0)
        pick = lambda x: [x[i] for i in o]  # noqa: E731
        frame = form == "frame"
        dates = pd.date_range("2020-01-01", periods=len(prices))
        self.inputs = {
            "mu": pd.Series(mu[o], index=self.ids) if frame else mu[o].copy(),
            "S": pd.DataFrame(S[np.ix_(o, o)], index=self.ids, columns=self.ids) if frame else S[np.ix_(o, o)].copy(),
            "R": pd.DataFrame(R[:, o], columns=self.ids, index=dates[1:]) if frame else R[:, o].copy(),
            "prices": pd.DataFrame(prices[:, o], columns=self.ids, index=dates),
            "market": pd.DataFrame({"SPY": prices.mean(axis=1)}, index=dates),
            "bounds": longer([(0.0, .7), (-.1, .8), (.05, .9), (-.2, .6), (0.0, .5)], n, lambda i: (0.0, .3 + i / 50)),
            "caps": pd.Series(pick(CAPS), index=self.ids) if frame else np.array(pick(CAPS)),
            "latest": pd.Series(pick(LATEST), index=self.ids),
            "weights": dict(zip(self.ids, pick(WANT))),
            "short": dict(zip(self.ids, pick(longer([.6, -.3, .5, -.2, .4], n, lambda i: (-1) ** i * (.1 + i / 40))))),
            "views": {lab[0]: .1, lab[2]: -.05},
            "w_prev": np.array(pick([.2, .5, .3, 0, 0] + zeros)),
            "bench": np.array(pick([.5, .25, .25, 0, 0] + zeros)),
            "sectors": dict(zip(self.ids, pick(SECTOR))),
            "some_sectors": {t: s for t, s in zip(self.ids, pick(SECTOR)) if t != lab[0]},
            "lower": {"x": .2},
            "upper": {"x": .75, "y": .6},
            "Q": np.array([.02, .15]),
            "conf": [.3, .8],
            "solver_options": {"max_iter": 300},
            "constraints": [{"type": "ineq", "fun": lambda w: .9 - np.sum(w ** 2)}],
        }
        holes = prices.copy()
        holes[0, 0] = holes[4, 1] = holes[5, 1] = holes[9, 2] = np.nan
        gaps = R.copy()
        gaps[3, 0] = gaps[8, n - 1] = np.nan
        self.inputs.update({
            "holes": pd.DataFrame(holes[:, o], columns=self.ids, index=dates),
            "gaps": pd.DataFrame(gaps[:, o], columns=self.ids),
            "lb": np.array(pick(longer([0.0, -.1, .05, -.2, 0.0], n, lambda i: 0.0))), "ub": np.array(pick(longer([.7, .8, .9, .6, .5], n, lambda i: .3 + i / 50))),
            "mu_list": [float(x) for x in mu[o]],
            "long": pick(longer([[0, .7], [0.0, .8], [.05, .9], [0, .6], [0, .5]], n, lambda i: [0, .3 + i / 50])),
            "omega": np.diag([.01, .02]),
            "beta_weights": np.array(pick(WANT)),
        })
        self.inputs["bounds"] = pick(self.inputs["bounds"])
        P = np.zeros((2, n))
        P[0, o.index(0)], P[0, o.index(1)], P[1, o.index(2)] = 1, -1, 1
        self.inputs["P"] = P
        for k, v in self.inputs.items():
            setattr(self, k, v)
        self.keys = self.ids if frame else list(range(n))   # labels the package is expected to use

    # -- results by asset identity
    def at(self, i):
        """position of asset i"""
        return self.order.index(i)

    def key(self, i):
        return self.keys[self.at(i)]

    def vec(self, x):
        if isinstance(x, (dict, pd.Series)):
            items = dict(x)
            return {"#labels": sorted(map(str, items)) == sorted(map(str, self.keys)), **{i: float(items[self.key(i)]) for i in range(self.n)}}
        x = np.asarray(x, float).ravel()
        return {i: float(x[self.at(i)]) for i in range(self.n)}

    def mat(self, x):
        a = np.asarray(x, float)
        out = {}
        if isinstance(x, pd.DataFrame):
            out["#labels"] = list(x.index) == list(x.columns) == list(self.keys)
        for i in range(self.n):
            for j in range(self.n):
                out[(i, j)] = float(a[self.at(i), self.at(j)])
        return out

    def fingerprint(self):
        return {k: digest(v) for k, v in self.inputs.items()}


def digest(v):
    if isinstance(v, (pd.Series, pd.DataFrame)):
        return "|".join([type(v).__name__, repr(list(v.index)), repr(list(getattr(v, "columns", []))), repr(v.values.tolist()), repr(getattr(v, "name", None)), repr(v.index.name)])
    if isinstance(v, np.ndarray):
        return f"array|{v.dtype}|{v.shape}|{hashlib.sha1(np.ascontiguousarray(v).tobytes()).hexdigest()}"
    if isinstance(v, dict):
        return "dict|" + "|".join(f"{k!r}={digest(x)}" for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + "|" + "|".join(digest(x) for x in v)
    if callable(v):
        return "callable"
    return repr(v)


PROGRAMS = {}


def program(f):
    PROGRAMS[f.__name__] = f
    return f


SOLVER = {"solver": "CLARABEL"}


# ------------------------------------------------------------------ estimators
@program
def prices(W, out):
    r = expected_returns.returns_from_prices(W.prices)
    yield
    back = expected_returns.prices_from_returns(r)
    out["last"] = {i: float(back[W.ids[W.at(i)]].iloc[-1]) for i in range(W.n)}
    out["r"] = {i: float(r[W.ids[W.at(i)]].iloc[3]) for i in range(W.n)}
    yield
    lr = expected_returns.returns_from_prices(W.prices, log_returns=True)
    out["log"] = {i: float(lr[W.ids[W.at(i)]].iloc[5]) for i in range(W.n)}
    yield


@program
def means(W, out):
    for name, kw in (("mean_historical_return", {}), ("mean_historical_return", {"compounding": False}), ("ema_historical_return", {"span": 6}),
                     ("capm_return", {}), ("capm_return", {"market_prices": W.market, "risk_free_rate": .01})):
        x = expected_returns.return_model(W.prices, method=name, **kw)
        out[name + str(sorted(kw))] = {i: float(x[W.ids[W.at(i)]]) for i in range(W.n)}
        yield


@program
def risks(W, out):
    for name, kw in (("sample_cov", {"frequency": 12}), ("semicovariance", {"benchmark": .001}), ("exp_cov", {"span": 9}), ("ledoit_wolf", {}),
                     ("ledoit_wolf_single_factor", {}), ("ledoit_wolf_constant_correlation", {}), ("oracle_approximating", {})):
        x = risk_models.risk_matrix(W.R, method=name, returns_data=True, **kw)
        out[name] = W.mat(x)
        yield


@program
def shrinkage(W, out):
    c = risk_models.CovarianceShrinkage(W.prices, frequency=12)
    yield
    for name, f in (("lw", c.ledoit_wolf), ("cc", lambda: c.ledoit_wolf("constant_correlation")), ("shrunk", lambda: c.shrunk_covariance(.3)), ("sf", lambda: c.ledoit_wolf("single_factor")), ("oas", c.oracle_approximating)):
        x = f()
        out[name] = {(i, j): float(x.loc[W.ids[W.at(i)], W.ids[W.at(j)]]) for i in range(W.n) for j in range(W.n)}
        out[name + " delta"] = float(c.delta)
        yield


@program
def matrices(W, out):
    corr = risk_models.cov_to_corr(W.S)
    out["corr"] = W.mat(corr)
    yield
    out["cov"] = W.mat(risk_models.corr_to_cov(corr, np.sqrt(np.diag(np.asarray(W.S)))))
    yield
    bad = np.asarray(W.S) - .012 * np.eye(W.n)
    out["fixed"] = W.mat(risk_models.fix_nonpositive_semidefinite(pd.DataFrame(bad, index=W.ids, columns=W.ids)))
    yield


# ------------------------------------------------------------------ mean-variance
def perf(W, out, opt, name, **kw):
    out[name + " performance"] = [None if x is None else float(x) for x in opt.portfolio_performance(**kw)]


@program
def ef_min_volatility(W, out):
    ef = EfficientFrontier(W.mu, W.S, weight_bounds=W.bounds, **SOLVER)
    yield
    a = W.at(1)
    ef.add_constraint(lambda w: w[a] <= .4)
    if W.form == "frame":
        ef.add_sector_constraints(W.sectors, W.lower, W.upper)
    yield
    out["weights"] = W.vec(ef.min_volatility())
    yield
    perf(W, out, ef, "min", risk_free_rate=.01)
    yield


@program
def ef_max_sharpe(W, out):
    ef = EfficientFrontier(W.mu, W.S, solver_options=W.solver_options, **SOLVER)
    yield
    a, b = W.at(0), W.at(2)
    ef.add_constraint(lambda w: w[a] + w[b] <= .6)
    yield
    out["weights"] = W.vec(ef.max_sharpe(risk_free_rate=.01))
    yield
    perf(W, out, ef, "sharpe")
    out["clean"] = W.vec(ef.clean_weights(cutoff=.2, rounding=3))
    yield


@program
def ef_targets(W, out):
    ef = EfficientFrontier(W.mu, W.S, weight_bounds=(-1, 1), **SOLVER)
    yield
    ef.add_objective(objective_functions.L2_reg, gamma=.1)
    yield
    for t in (.11, .15):
        out[f"return {t}"] = W.vec(ef.efficient_return(t))
        perf(W, out, ef, f"return {t}")
        yield


@program
def ef_risk_neutral(W, out):
    ef = EfficientFrontier(W.mu, W.S, weight_bounds=(-1, 1), **SOLVER)
    yield
    for t in (.1, .2):
        out[f"risk {t}"] = W.vec(ef.efficient_risk(t, market_neutral=True))
        perf(W, out, ef, f"risk {t}")
        yield


@program
def ef_utility(W, out):
    ef = EfficientFrontier(W.mu, W.S, weight_bounds=(None, None), **SOLVER)
    yield
    ef.add_objective(objective_functions.transaction_cost, w_prev=W.w_prev[:W.n], k=.01)
    ef.add_objective(objective_functions.ex_ante_tracking_error, cov_matrix=W.S, benchmark_weights=W.bench[:W.n])
    yield
    for d in (2, 8):
        out[f"utility {d}"] = W.vec(ef.max_quadratic_utility(risk_aversion=d))
        perf(W, out, ef, f"utility {d}")
        yield


@program
def ef_custom(W, out):
    ef = EfficientFrontier(W.mu, W.S, weight_bounds=(.01, .9), **SOLVER)
    yield
    out["barrier"] = W.vec(ef.convex_objective(lambda w, cov_matrix, k=.01: cp.quad_form(w, cov_matrix, assume_PSD=True) - k * cp.sum(cp.log(w)), cov_matrix=np.asarray(W.S), k=.02))
    yield
    other = EfficientFrontier(W.mu, W.S, weight_bounds=(.01, .9))
    S = np.asarray(W.S)
    out["deviation risk parity"] = W.vec(other.nonconvex_objective(lambda w, cov: w @ cov @ w + .1 * np.sum((w - 1 / len(w)) ** 2), objective_args=(S,), constraints=W.constraints))
    yield


# ------------------------------------------------------------------ tail risk
def tail(cls, name, kw, targets):
    def prog(W, out):
        o = cls(W.mu, W.R, weight_bounds=W.bounds, **SOLVER, **kw)
        yield
        a = W.at(0)
        o.add_constraint(lambda w: w[a] >= .1)
        if W.form == "frame":
            o.add_sector_constraints(W.sectors, W.lower, W.upper)
        yield
        out["return"] = W.vec(o.efficient_return(.12))
        perf(W, out, o, "return")
        yield
        p = cls(W.mu, W.R, weight_bounds=(0, 1), **SOLVER, **kw)
        out["risk"] = W.vec(p.efficient_risk(targets))
        yield
        q = cls(None, W.R, weight_bounds=(0, 1), **SOLVER, **kw)
        out["min"] = W.vec(getattr(q, "min_" + name)())
        perf(W, out, q, "min")
        yield

    prog.__name__ = name
    program(prog)


tail(EfficientSemivariance, "semivariance", {"frequency": 12, "benchmark": .001}, .07)
tail(EfficientCVaR, "cvar", {"beta": .8}, .04)
tail(EfficientCDaR, "cdar", {"beta": .8}, .08)


# ------------------------------------------------------------------ other allocators
@program
def cla(W, out):
    c = CLA(W.mu, W.S, weight_bounds=W.bounds)
    yield
    out["sharpe"] = W.vec(c.max_sharpe())
    perf(W, out, c, "sharpe")
    yield
    m, s, w = c.efficient_frontier(points=20)
    ends = W.n > 4  # with five assets a turning point occurs twice up to rounding, and may or may not be listed twice
    out["frontier"] = [float(x) for x in ([m[0], m[-1], s[0], s[-1]] if ends else list(m) + list(s))]
    out["point"] = W.vec(w[-1 if ends else len(w) // 2])
    yield
    out["min"] = W.vec(c.min_volatility())
    perf(W, out, c, "min", risk_free_rate=.02)
    yield


@program
def hrp(W, out):
    R = W.R if W.form == "frame" else pd.DataFrame(W.R, columns=W.keys)
    h = HRPOpt(R)
    yield
    out["returns"] = W.vec(h.optimize())
    perf(W, out, h, "hrp", frequency=12)
    yield
    g = HRPOpt(cov_matrix=pd.DataFrame(np.asarray(W.S), index=W.keys, columns=W.keys))
    out["cov"] = W.vec(g.optimize(linkage_method="ward"))
    yield


@program
def bl_views(W, out):
    b = BlackLittermanModel(W.S, pi="market", market_caps=W.caps, risk_aversion=2.5, Q=W.Q, P=W.P, omega="idzorek", view_confidences=W.conf, tau=.1)
    yield
    out["returns"] = W.vec(b.bl_returns())
    yield
    out["weights"] = W.vec(b.bl_weights())
    yield
    out["cov"] = W.mat(b.bl_cov())
    perf(W, out, b, "bl")
    yield


@program
def bl_absolute(W, out):
    if W.form != "frame":
        return
    b = BlackLittermanModel(W.S, pi=W.mu, absolute_views=W.views)
    yield
    out["weights"] = W.vec(b.optimize(risk_aversion=3))
    yield
    b.set_weights(W.weights)
    perf(W, out, b, "set")
    out["returns"] = W.vec(b.bl_returns())
    yield
    out["prior"] = W.vec(black_litterman.market_implied_prior_returns(W.caps, 2, W.S, .01))
    yield


@program
def holes(W, out):
    for name in ("sample_cov", "semicovariance", "exp_cov", "ledoit_wolf"):
        x = risk_models.risk_matrix(W.holes, method=name)
        out[name] = {(i, j): float(x.loc[W.ids[W.at(i)], W.ids[W.at(j)]]) for i in range(W.n) for j in range(W.n)}
        yield
    for name in ("mean_historical_return", "ema_historical_return", "capm_return"):
        x = expected_returns.return_model(W.holes, method=name)
        out[name] = {i: float(x[W.ids[W.at(i)]]) for i in range(W.n)}
        yield
    x = get_latest_prices(W.holes)
    out["latest"] = {i: float(x[W.ids[W.at(i)]]) for i in range(W.n)}
    h = HRPOpt(W.gaps)
    r = h.optimize()
    out["hrp sum"] = float(sum(r.values()))
    yield
    c = EfficientCVaR(None, W.gaps, beta=.7, **SOLVER)
    r = c.min_cvar()
    out["cvar"] = {i: float(r[W.ids[W.at(i)]]) for i in range(W.n)}
    yield
    v = EfficientSemivariance(None, W.gaps, **SOLVER)
    r = v.min_semivariance()
    out["semivariance"] = {i: float(r[W.ids[W.at(i)]]) for i in range(W.n)}
    yield


@program
def spellings(W, out):
    ef = EfficientFrontier(W.mu_list, np.asarray(W.S), weight_bounds=(W.lb[:W.n], W.ub[:W.n]), **SOLVER)
    out["arrays"] = {i: float(list(ef.efficient_risk(.2).values())[W.at(i)]) for i in range(W.n)}
    yield
    en = EfficientFrontier(W.mu, W.S, weight_bounds=W.long, **SOLVER)
    out["neutral"] = W.vec(en.efficient_return(.03, market_neutral=True))
    yield
    c = CLA(W.mu_list, np.asarray(W.S), weight_bounds=(W.lb[:W.n], W.ub[:W.n]))
    out["cla"] = {i: float(list(c.max_sharpe().values())[W.at(i)]) for i in range(W.n)}
    yield
    b = BlackLittermanModel(W.S, pi=W.mu, Q=W.Q, P=W.P, omega=W.omega)
    out["bl"] = W.vec(b.bl_returns())
    yield
    s = EfficientFrontier(None, W.S, weight_bounds=W.bounds, **SOLVER)
    out["no returns"] = W.vec(s.min_volatility())
    s.set_weights(dict(zip(W.keys, W.beta_weights)))
    out["set"] = [None if x is None else float(x) for x in s.portfolio_performance()]
    yield


def shares(W, alloc):
    return {i: int(alloc.get(W.ids[W.at(i)], 0)) for i in range(W.n)}


@program
def allocation(W, out):
    d = DiscreteAllocation(W.weights, W.latest, total_portfolio_value=1234)
    yield
    a, left = d.greedy_portfolio()
    out["greedy"], out["greedy left"] = shares(W, a), float(left)
    yield
    a, left = d.lp_portfolio()
    out["lp"], out["lp left"] = shares(W, a), float(left)
    yield
    a, left = DiscreteAllocation(W.short, get_latest_prices(W.prices), total_portfolio_value=3210, short_ratio=.4).lp_portfolio(reinvest=True)
    out["short"], out["short left"] = shares(W, a), float(left)
    yield
    a, left = DiscreteAllocation(W.short, W.latest, total_portfolio_value=3210).greedy_portfolio()
    out["short greedy"], out["short greedy left"] = shares(W, a), float(left)
    yield


@program
def functions(W, out):
    w = np.array(list(W.weights.values()))
    out["values"] = [float(objective_functions.portfolio_variance(w, np.asarray(W.S))), float(objective_functions.portfolio_return(w, np.asarray(W.mu))), float(objective_functions.L2_reg(w, 2)),
                     float(objective_functions.sharpe_ratio(w, np.asarray(W.mu), np.asarray(W.S), .02)), float(objective_functions.transaction_cost(w, W.w_prev[:W.n]))]
    yield
    if W.form == "frame":
        out["performance"] = [float(x) for x in portfolio_performance(W.weights, W.mu, W.S, risk_free_rate=.01)]
    yield


def start(name, W):
    out = {}
    return PROGRAMS[name](W, out), out


def run(name, W):
    gen, out = start(name, W)
    for _ in gen:
        pass
    return out


def steps(name):
    W = World()
    return sum(1 for _ in PROGRAMS[name](W, {}))


def difference(a, b, tol):
    """None or a description of the first difference of two result dictionaries."""
    if set(a) != set(b):
        return f"results {sorted(map(str, set(a) ^ set(b)))} are missing"
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, dict):
            if set(x) != set(y):
                return f"{k}: {x} / {y}"
            for i in x:
                if not near(x[i], y[i], tol):
                    return f"{k}[{i}]: {x[i]} / {y[i]}"
        elif isinstance(x, list):
            if len(x) != len(y):
                return f"{k}: {x} / {y}"
            for p, q in zip(x, y):
                if not near(p, q, tol):
                    return f"{k}: {x} / {y}"
        elif not near(x, y, tol):
            return f"{k}: {x} / {y}"
    return None


def near(x, y, tol):
    if x is None or y is None or isinstance(x, (bool, int)):
        return x == y
    return abs(x - y) <= tol * (1 + abs(y)) or (x != x and y != y)


__all__ = ["World", "PROGRAMS", "run", "start", "steps", "difference", "copy"]
