"""C32 the same data in another representation gives the same results."""
import calls
import numpy as np
import pandas as pd
import world
from engine import Family
from world import World

ROWS = ("prices", "holes", "R", "gaps", "market", "market_returns", "benchmark_returns")


def each(W, fn, only=None):
    """Apply fn to every input (also inside lists, tuples and dictionaries)."""
    def go(v):
        if isinstance(v, dict):
            return {k: go(x) for k, x in v.items()}
        if isinstance(v, list):
            return [go(x) for x in v]
        if isinstance(v, tuple):
            return tuple(go(x) for x in v)
        return fn(v)
    for k in list(W.inputs):
        if only is None or k in only:
            W.inputs[k] = go(W.inputs[k])
            setattr(W, k, W.inputs[k])
    return W


def table(v, values):
    if isinstance(v, pd.Series):
        return pd.Series(values, index=v.index, name=v.name)
    return pd.DataFrame(values, index=v.index, columns=v.columns)


def arrays(fn):
    """A representation of every array, and of the values of every table."""
    def go(v):
        if isinstance(v, np.ndarray) and v.dtype.kind in "fi":
            return fn(v)
        if isinstance(v, (pd.Series, pd.DataFrame)):
            return table(v, fn(v.values))
        return v
    return lambda W: each(W, go)


def strided(a):
    big = np.full([2 * k + 1 for k in a.shape], 7.5)
    view = big[tuple(slice(1, None, 2) for _ in a.shape)]
    view[...] = a
    return view


def backwards(a):
    return a[tuple(slice(None, None, -1) for _ in a.shape)].copy()[tuple(slice(None, None, -1) for _ in a.shape)]


def readonly(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def names(W):
    def go(v):
        if isinstance(v, pd.DataFrame):
            v = v.copy()
            v.index.name, v.columns.name = "date" if len(v) != len(v.columns) else "asset", "ticker"
        elif isinstance(v, pd.Series):
            v = v.copy()
            v.name, v.index.name = "values", "ticker"
        return v
    return each(W, go)


def rows(make):
    def go(W):
        base = W.prices.index
        new = make(len(base))

        def one(v):
            if isinstance(v, (pd.DataFrame, pd.Series)):
                v = v.copy()
                v.index = new[-len(v):] if len(v) < len(new) else new
            return v
        return each(W, one, ROWS)
    return go


def scalars(kind):
    def go(v):
        return kind(v) if isinstance(v, float) else v
    return lambda W: each(W, go)


def kinds(W):
    """Lists for tuples and tuples for lists, other dictionary types."""
    import collections
    for k in ("weights", "short", "views", "sectors", "some_sectors", "lower", "upper", "caps_dict"):
        W.inputs[k] = collections.OrderedDict(W.inputs[k])
    for k in ("bounds", "long"):
        W.inputs[k] = tuple(list(b) if isinstance(b, tuple) else tuple(b) for b in W.inputs[k])
    W.inputs["array_pair"] = [W.inputs["array_pair"][0], W.inputs["array_pair"][1]]
    W.inputs["wlist"] = tuple(W.inputs["wlist"])
    W.inputs["conf"] = tuple(W.inputs["conf"])
    for k, v in W.inputs.items():
        setattr(W, k, v)
    return W


def columnwise(W):
    """Tables assembled column by column, in several blocks."""
    def go(v):
        if isinstance(v, pd.DataFrame):
            out = pd.DataFrame(index=v.index)
            for c in v.columns:
                out[c] = v[c].copy()
            out.columns = v.columns
            return out
        return v
    return each(W, go)


def categories(W):
    def go(v):
        if isinstance(v, (pd.DataFrame, pd.Series)):
            v = v.copy()
            if list(v.index) == W.ids:
                v.index = pd.CategoricalIndex(v.index)
            if isinstance(v, pd.DataFrame) and list(v.columns) == W.ids:
                v.columns = pd.CategoricalIndex(v.columns)
        return v
    return each(W, go)


REPS = {
    "categorical labels": categories,
    "fortran order": arrays(np.asfortranarray),
    "strided": arrays(strided),
    "backwards": arrays(backwards),
    "read-only": arrays(readonly),
    "named axes": names,
    "columnwise": columnwise,
    "range rows": rows(lambda n: pd.RangeIndex(n)),
    "integer rows": rows(lambda n: pd.Index([3 * i + 5 for i in range(n)])),
    "descending dates": rows(lambda n: pd.date_range("2021-05-01", periods=n)[::-1]),
    "time zone": rows(lambda n: pd.date_range("2021-03-25 16:00", periods=n, tz="Europe/London")),
    "periods": rows(lambda n: pd.period_range("2021-03", periods=n, freq="M")),
    "month ends": rows(lambda n: pd.date_range("2021-01-31", periods=n, freq="ME")),
    "intraday": rows(lambda n: pd.date_range("2021-01-31 09:30", periods=n, freq="7min")),
    "text rows": rows(lambda n: pd.Index([f"day {i}" for i in range(n)])),
    "date objects": rows(lambda n: pd.Index([d.date() for d in pd.date_range("2021-01-31", periods=n)])),
    "numpy scalars": scalars(np.float64),
    "containers": kinds,
}
LABELS = ["int", "date", "mixed", "float", "long", "odd"]
SPELL_TOL = (("nonconvex", 2e-2), ("EfficientSemivariance", 3e-4), ("EfficientC", 5e-5))
TRUTH = {}
FN = {c: f for c, _, f in calls.CALLS}


def near_all(ctx, name, got, want, what, tol):
    ctx.require(set(got) == set(want), f"{name}: {what} gives other labels", got=sorted(map(str, set(got) ^ set(want)))[:10])
    for k in want:
        ctx.require(world.near(got[k], want[k], tol), f"{name}: {what} gives another result", at=str(k), got=got[k], want=want[k])


def world_of(n, form, labels="str"):
    W = calls.extend(World(n, None, form, labels))
    if form == "frame":  # the market series must be aligned with the returns it is compared with
        W.gaps.index = W.R.index
    return W


def unfit(call, rep, labels):
    """Combinations the underlying libraries rule out."""
    return (rep == "categorical labels" and call.startswith("capm") and call.endswith("market")   # no column can be appended to a categorical
            or labels == "mixed" and call.startswith(("hrp", "plot dendrogram"))                   # documented to be sorted by label
            or labels == "date" and call == "set weights")                                         # json cannot hold such keys


def compare(ctx, key, fn, base, other, what, tol):
    """fn on two worlds gives the same, by asset identity; the base is computed once."""
    name = key[-3]
    if key not in TRUTH:
        tag, val = ctx.attempt(["base", name], fn, base())
        TRUTH[key] = (tag, repr(val) if tag == "err" else calls.identity(val, base()))
    tag0, want = TRUTH[key]
    W = other()
    tag, val = ctx.attempt([what, name], fn, W)
    ctx.require(tag == tag0, f"{name}: {'refused' if tag == 'err' else 'answered'} with {what}", got=repr(val)[:300], base=str(want)[:200])
    if tag == "err":
        return ctx.outcome("refused")
    near_all(ctx, name, calls.identity(val, W), want, what, tol)
    ctx.outcome(what)


def tolerance(name):
    return next((t for prefix, t in SPELL_TOL if name.startswith(prefix)), 5e-5 if name.startswith(("ef ", "plot")) else 1e-6 if name.startswith("cla") else 1e-9)


def run(case, ctx):
    name, form, n = case["call"], case["form"], case["n"]
    rep = REPS[case["rep"]] if case.get("rep") else lambda W: W
    compare(ctx, (name, form, n), FN[name], lambda: world_of(n, form), lambda: rep(world_of(n, form, case.get("labels", "str"))), case.get("rep") or "labels " + case["labels"], tolerance(name))


# ------------------------------------------------------- whole numbers and single precision
SCALE = {"prices": 100, "market": 100, "latest": 1, "caps": 1, "S": 1e4, "mu": 100, "Q": 100, "P": 1, "omega": 1e4, "indefinite": 1e4, "stdevs": 10}


def whole(W, kind):
    """The numbers rounded to whole ones of smaller units, as float or integer."""
    W.inputs["mu_list"] = [float(x) for x in np.asarray(W.mu)]
    for k, s in {**SCALE, "mu_list": 100, "mu_column": 100, "pi_column": 100, "pi_frame": 100, "Q_series": 100, "Q_frame": 100, "P_frame": 1, "omega_frame": 1e4}.items():
        v = W.inputs[k]
        if isinstance(v, list):
            W.inputs[k] = [kind(round(x * s)) for x in v]
        elif isinstance(v, np.ndarray):
            W.inputs[k] = np.rint(v * s).astype(kind)
        else:
            W.inputs[k] = (v * s).round().astype(kind)
    W.inputs["views"] = {t: kind(round(100 * x)) for t, x in W.views.items()}
    W.inputs["views_series"] = pd.Series(W.inputs["views"])
    W.inputs["caps_dict"] = {t: kind(round(x)) for t, x in W.caps_dict.items()}
    W.inputs["bounds"] = [(kind(0), kind(1))] * W.n
    W.inputs["short"] = {t: kind(x) for t, x in zip(W.ids, (2, -1, 1, 0, 3))}
    W.inputs["wint"] = np.array([2, -1, 0, 1, -1][:W.n]).astype(kind)
    W.inputs["array_pair"] = (np.array([0, -1, 0, 0, -2][:W.n]).astype(kind), np.array([1, 1, 2, 1, 1][:W.n]).astype(kind))
    for k, v in W.inputs.items():
        setattr(W, k, v)
    return W


def single(W, kind):
    def go(v):
        if isinstance(v, np.ndarray) and v.dtype.kind == "f":
            return v.astype(np.float32).astype(kind)
        if isinstance(v, (pd.Series, pd.DataFrame)):
            return v.astype(np.float32).astype(kind)
        return v
    return each(W, go, [k for k in W.inputs if k != "param_range"])  # a request's parameter has to be a Python number


def whole_calls():
    """Calls whose settings fit the units used by ``whole``."""
    from pypfopt import (
        CLA,
        BlackLittermanModel,
        DiscreteAllocation,
        EfficientFrontier,
        HRPOpt,
    )
    from pypfopt import objective_functions as of
    from pypfopt.base_optimizer import portfolio_performance
    out = {}
    for m, a in (("min_volatility", ()), ("max_sharpe", (1,)), ("max_quadratic_utility", (2,)), ("efficient_risk", (22,)), ("efficient_return", (12.0,))):
        for b in ("bounds", "array_pair", (0, 1), (-1, 1)):
            for neutral in (False, True):
                if neutral and m in ("min_volatility", "max_sharpe"):
                    continue

                def ef(W, m=m, a=a, b=b, neutral=neutral):
                    e = EfficientFrontier(W.mu, W.S, weight_bounds=getattr(W, b) if isinstance(b, str) else b, solver="CLARABEL")
                    w = getattr(e, m)(*a, **({"market_neutral": True} if neutral else {}))
                    return w, e.portfolio_performance()
                out[f"ef {m} {b} {neutral}"] = ef

    def objectives(W):
        e = EfficientFrontier(W.mu, W.S, solver="CLARABEL")
        e.add_objective(of.transaction_cost, w_prev=W.wint, k=1)
        e.add_objective(of.L2_reg, gamma=3)
        e.add_constraint(lambda w: w @ W.P[0] <= W.wint[0])
        return e.efficient_return(12.0), e.efficient_return(13.0)
    out["ef objectives"] = objectives
    for b in ("bounds", "array_pair"):
        for m in ("max_sharpe", "min_volatility", "efficient_frontier"):
            out[f"cla {m} {b}"] = lambda W, m=m, b=b: getattr(CLA(W.mu, W.S, weight_bounds=getattr(W, b)), m)()
    for link in ("single", "average"):
        out[f"hrp {link}"] = lambda W, link=link: HRPOpt(cov_matrix=pd.DataFrame(W.S)).optimize(link)
    for pi in ("mu", "pi_column", "pi_frame", "market", "equal", None):
        for q in ("Q", "Q_series", "Q_frame", "views", "views_series"):
            for om in ("default", "omega", "idzorek"):
                if "views" in q and om == "omega":
                    continue

                def bl(W, pi=pi, q=q, om=om):
                    kw = {"tau": 1, "pi": getattr(W, pi) if pi in ("mu", "pi_column", "pi_frame") else pi}
                    if "views" in q:
                        kw["absolute_views"] = getattr(W, q)
                    else:
                        kw.update(Q=getattr(W, q), P=W.P)
                    if pi == "market":
                        kw.update(market_caps=W.caps, risk_aversion=2)
                    kw["omega"] = W.omega if om == "omega" else om
                    if om == "idzorek":
                        kw["view_confidences"] = [1, .5]
                    m = BlackLittermanModel(W.S, **kw)
                    r = m.bl_returns(), m.bl_cov(), m.bl_weights(), m.portfolio_performance()
                    return r, m.bl_weights(3)
                out[f"bl {pi} {q} {om}"] = bl
    out["performance"] = lambda W: portfolio_performance(W.wint, W.mu, W.S, risk_free_rate=1)
    out["performance dict"] = lambda W: portfolio_performance(W.short, W.mu, W.S)

    def stored(W):
        e = EfficientFrontier(W.mu, W.S, weight_bounds=(-5, 5))
        e.set_weights(dict(zip(W.keys, W.wint)))
        return e.portfolio_performance(), e.clean_weights(rounding=1), e.weights
    out["set weights"] = stored
    for f, args in (("portfolio_variance", ("S",)), ("portfolio_return", ("mu",)), ("sharpe_ratio", ("mu", "S")), ("L2_reg", ()), ("ex_ante_tracking_error", ("S", "wbench"))):
        out[f"function {f}"] = lambda W, f=f, args=args: getattr(of, f)(W.wint, *[W.wint[::-1] if a == "wbench" else np.asarray(getattr(W, a)) for a in args])
    for m in ("greedy_portfolio", "lp_portfolio"):
        for rein in (False, True):
            for value in (137, 1234):
                def allocate(W, m=m, rein=rein, value=value):
                    return getattr(DiscreteAllocation(W.short, W.latest, total_portfolio_value=value), m)(reinvest=rein)
                out[f"allocation {m} {rein} {value}"] = allocate
    for name, _, fn in calls.CALLS:
        if name.startswith(("mean prices", "ema prices", "capm prices", "returns_from_prices prices", "returns_from_prices column prices", "shrinkage prices", "fix ", "cov_to_corr", "corr_to_cov", "market ", "plot cov", "plot corr")) \
                or "prices" in name and name.split()[0] in ("sample_cov", "semicovariance", "exp_cov", "ledoit_wolf", "ledoit_wolf_single_factor", "ledoit_wolf_constant_correlation", "oracle_approximating"):
            out[name] = fn
    return out


WHOLE = whole_calls()


def run_whole(case, ctx):
    name, form, n = case["call"], case["form"], case["n"]
    compare(ctx, ("whole", name, form, n), WHOLE[name], lambda: whole(world_of(n, form), float), lambda: whole(world_of(n, form), np.dtype(case["kind"]).type), case["kind"], tolerance(name))


# one input at a time as whole numbers, the others fractional
ALONE = {**SCALE, "R": 100, "gaps": 100, "market_returns": 100, "benchmark_returns": 100, "mu_list": 100, "mu_column": 100, "pi_column": 100, "pi_frame": 100, "Q_series": 100, "Q_frame": 100, "P_frame": 1,
         "omega_frame": 1e4, "bounds": 1, "array_pair": 1, "bounds_array": 1, "long": 1, "short": 4, "weights": 4, "warr": 4, "wlist": 4, "wcolumn": 4, "bench_n": 4, "views": 100, "views_series": 100,
         "caps_dict": 1, "sectors": None, "some_sectors": None, "lower": 1, "upper": 1, "param_range": None, "conf": 1, "conf_array": 1, "holes": None}


def rounded(v, scale, kind):
    if isinstance(v, dict):
        return {k: rounded(x, scale, kind) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(rounded(x, scale, kind) for x in v)
    if isinstance(v, (pd.DataFrame, pd.Series)):
        return None if v.isna().values.any() else (v * scale).round().astype(kind)
    if isinstance(v, np.ndarray):
        return None if np.isnan(v).any() else np.rint(v * scale).astype(kind)
    return kind(round(v * scale)) if isinstance(v, (int, float)) else v


class Reads:
    """A world which notes the inputs a call asks for."""

    def __init__(self, W):
        self.W, self.seen = W, set()

    def __getattr__(self, k):
        self.seen.add(k)
        return getattr(self.W, k)


def run_alone(case, ctx):
    name, form, n = case["call"], case["form"], case["n"]
    seen = Reads(world_of(n, form))
    ctx.attempt(["reads", name], FN[name], seen)

    def world(key, kind):
        W = world_of(n, form)
        v = rounded(W.inputs[key], ALONE[key], kind)
        if v is not None:
            W.inputs[key] = v
            setattr(W, key, v)
        return v is not None and W
    for key in sorted(k for k in seen.seen if ALONE.get(k)):
        if world(key, float):
            compare(ctx, (key, name, form, n), FN[name], lambda: world(key, float), lambda: world(key, int), f"whole {key}", tolerance(name))


def run_single(case, ctx):
    name, form, n = case["call"], case["form"], case["n"]
    compare(ctx, ("single", name, form, n), FN[name], lambda: single(world_of(n, form), np.float64), lambda: single(world_of(n, form), np.float32), "single precision", max(2e-3, tolerance(name)))


# ------------------------------------------------------------------ settings
SETTINGS = {}


def setting(name, values, fn, kinds=("int", "float", "float64", "int64", "float32")):
    for v in values:
        SETTINGS[f"{name} {v}"] = (v, fn, [k for k in kinds if v == int(v) or "int" not in k])


def settings():
    from pypfopt import (
        CLA,
        BlackLittermanModel,
        DiscreteAllocation,
        EfficientCDaR,
        EfficientCVaR,
        EfficientFrontier,
        EfficientSemivariance,
        HRPOpt,
        black_litterman,
        plotting,
    )
    from pypfopt import expected_returns as er
    from pypfopt import objective_functions as of
    from pypfopt import risk_models as rm
    from pypfopt.base_optimizer import portfolio_performance
    ef = lambda W, **kw: EfficientFrontier(W.mu, W.S, solver="CLARABEL", **kw)
    for comp in (True, False):
        setting(f"mean frequency {comp}", (12, .5), lambda W, x, comp=comp: er.mean_historical_return(W.prices, frequency=x, compounding=comp))
        setting(f"ema frequency {comp}", (12, .5), lambda W, x, comp=comp: er.ema_historical_return(W.prices, frequency=x, compounding=comp, span=4))
        setting(f"ema span {comp}", (4, 2.5), lambda W, x, comp=comp: er.ema_historical_return(W.prices, span=x, compounding=comp))
        setting(f"capm frequency {comp}", (12,), lambda W, x, comp=comp: er.capm_return(pd.DataFrame(W.prices), frequency=x, compounding=comp))
        setting(f"capm rate {comp}", (0, .25), lambda W, x, comp=comp: er.capm_return(pd.DataFrame(W.prices), risk_free_rate=x, compounding=comp))
    for m in ("sample_cov", "semicovariance", "exp_cov", "ledoit_wolf", "ledoit_wolf_single_factor", "ledoit_wolf_constant_correlation", "oracle_approximating"):
        setting(f"{m} frequency", (12, .5), lambda W, x, m=m: rm.risk_matrix(W.prices, m, frequency=x))
    setting("exp_cov span", (4, 12, 2.5), lambda W, x: rm.exp_cov(W.prices, span=x))
    setting("semicovariance benchmark", (0, .0625, -.0625), lambda W, x: rm.semicovariance(W.prices, benchmark=x))
    setting("shrinkage delta", (0, 1, .5), lambda W, x: rm.CovarianceShrinkage(W.prices).shrunk_covariance(x))
    setting("performance rate", (0, .25), lambda W, x: portfolio_performance(W.warr, W.mu, W.S, risk_free_rate=x))
    setting("max_sharpe rate", (0, .0625), lambda W, x: ef(W).max_sharpe(x), ("int", "float", "float64"))
    setting("utility", (2, .5), lambda W, x: [ef(W).max_quadratic_utility(x), ef(W, weight_bounds=(-1, 1)).max_quadratic_utility(x, market_neutral=True)])
    setting("efficient_risk", (1, .25), lambda W, x: ef(W).efficient_risk(x), ("int", "float", "float64"))
    setting("efficient_return", (.125,), lambda W, x: ef(W).efficient_return(x), ("float", "float64"))
    setting("bounds", (1, .5), lambda W, x: [ef(W, weight_bounds=b).min_volatility() for b in ((-x, x), (None, x), (-x, None), [(-x, x)] * W.n)])
    setting("bounds cla", (1, .5), lambda W, x: [CLA(W.mu, W.S, weight_bounds=b).min_volatility() for b in ((-x, x), [(-x, x)] * W.n)], ("int", "float", "float64"))

    def gammas(W, x):
        e = ef(W)
        e.add_objective(of.L2_reg, gamma=x)
        e.add_objective(of.transaction_cost, w_prev=W.bench_n, k=x)
        return e.efficient_return(.125), e.efficient_return(.15)
    setting("objective parameters", (1, .25), gammas)

    def sector(W, x):
        e = ef(W)
        e.add_sector_constraints({k: "s" for k in W.keys[:2]}, {"s": x}, {"s": x})
        return e.min_volatility()
    setting("sector limits", (0, .5), sector)
    for cls, m in ((EfficientCVaR, "cvar"), (EfficientCDaR, "cdar")):
        def tail(W, x, cls=cls, m=m):
            o = cls(W.mu, W.R, beta=x, solver="CLARABEL")
            return getattr(o, "min_" + m)(), o.portfolio_performance()
        setting(f"{m} beta", (0, .75), tail)
        setting(f"{m} target risk", (1, .25), lambda W, x, cls=cls: cls(W.mu, W.R, beta=.75, solver="CLARABEL").efficient_risk(x))
        setting(f"{m} target return", (.125,), lambda W, x, cls=cls: cls(W.mu, W.R, beta=.75, solver="CLARABEL").efficient_return(x), ("float", "float64"))

    def semi(W, **kw):
        return EfficientSemivariance(W.mu, W.R, solver="CLARABEL", **kw)

    def downside(W, **kw):
        o = semi(W, **kw)
        return o.min_semivariance(), o.portfolio_performance()
    setting("semivariance frequency", (12, .5), lambda W, x: downside(W, frequency=x))
    setting("semivariance benchmark", (0, .0625), lambda W, x: downside(W, benchmark=x))
    setting("semivariance utility", (2, .5), lambda W, x: semi(W).max_quadratic_utility(x))
    setting("semivariance target risk", (1, .25), lambda W, x: semi(W).efficient_risk(x))
    setting("semivariance target return", (.125,), lambda W, x: semi(W).efficient_return(x), ("float", "float64"))
    for key in ("frequency", "risk_free_rate"):
        def hrp(W, x, key=key):
            h = HRPOpt(pd.DataFrame(W.R))
            h.optimize()
            return h.portfolio_performance(**{key: x})
        setting(f"hrp {key}", (1, 12, .5), hrp)
        setting(f"market risk aversion {key}", (1, .5), lambda W, x, key=key: black_litterman.market_implied_risk_aversion(W.market, **{key: x}))

    def bl(W, x=None, **kw):
        m = BlackLittermanModel(W.S, pi=W.mu, Q=W.Q, P=W.P, **kw)
        return m.bl_returns(), m.bl_cov(), m.bl_weights(x)
    setting("bl tau", (1, .5), lambda W, x: bl(W, tau=x))
    setting("bl weights", (2, .5), bl)
    for key in ("risk_aversion", "risk_free_rate"):
        def prior(W, x, key=key):
            m = BlackLittermanModel(W.S, pi="market", market_caps=W.caps, Q=W.Q, P=W.P, **{key: x})
            return m.bl_returns(), m.bl_weights()
        setting(f"bl {key}", (1, .5), prior)
        setting(f"market prior {key}", (1, .5), lambda W, x, key=key: black_litterman.market_implied_prior_returns(W.caps, **{"risk_aversion": 2.5, "cov_matrix": W.S, key: x}))
    setting("idzorek confidence", (0, 1, .5), lambda W, x: bl(W, omega="idzorek", view_confidences=[x, .25]))
    for m in ("greedy_portfolio", "lp_portfolio"):
        setting(f"{m} value", (500, 777.5), lambda W, x, m=m: getattr(DiscreteAllocation(W.short, W.latest, total_portfolio_value=x), m)())
        setting(f"{m} short ratio", (0, 1, .5), lambda W, x, m=m: getattr(DiscreteAllocation(W.short, W.latest, total_portfolio_value=500, short_ratio=x), m)())
    setting("frontier points", (7, 40), lambda W, x: CLA(W.mu, W.S).efficient_frontier(points=x), ("int", "int64"))

    def plotted(W, x):
        plotting.plt.close("all")
        ax = plotting.plot_efficient_frontier(ef(W), points=x, show_assets=False)
        out = np.array(ax.lines[0].get_xydata())
        plotting.plt.close("all")
        return out.tolist()
    setting("plot points", (6,), plotted, ("int", "int64"))

    def cleaned(W, **kw):
        e = ef(W)
        e.min_volatility()
        return e.clean_weights(**kw)
    setting("cutoff", (0, .25), lambda W, x: cleaned(W, cutoff=x))
    setting("rounding", (1, 3), lambda W, x: cleaned(W, rounding=x), ("int",))


settings()
KIND = {"int": int, "float": float, "float64": np.float64, "int64": np.int64, "float32": np.float32}


def run_setting(case, ctx):
    name, form, n = case["call"], case["form"], case["n"]
    v, fn, _ = SETTINGS[name]
    first = SETTINGS[name][2][0]
    base = KIND[first](v)
    compare(ctx, ("setting", name, form, n), lambda W: fn(W, base), lambda: world_of(n, form), lambda: world_of(n, form), "base", 1)
    want = TRUTH["setting", name, form, n]
    ctx.require(want[0] == "ok", f"{name}: refused", got=want[1])
    tag, val = ctx.attempt([name, case["kind"]], fn, world_of(n, form), KIND[case["kind"]](v))
    ctx.require(tag == "ok", f"{name}: refused as {case['kind']}", got=repr(val)[:300])
    exact = not name.startswith(("cvar", "cdar", "semivariance", "utility", "efficient", "max_sharpe", "bounds", "objective", "sector", "plot"))
    near_all(ctx, name, calls.identity(val, world_of(n, form)), want[1], case["kind"], 1e-4 if case["kind"] == "float32" else 1e-9 if exact else 1e-7)
    ctx.outcome(case["kind"])


def families(tier):
    every = [(c, f) for c, forms, _ in calls.CALLS for f in forms]
    reps = [{"call": c, "form": f, "n": 3, "rep": r} for c, f in every for r in REPS if not unfit(c, r, None)]
    labels = [{"call": c, "form": f, "n": 3, "labels": k} for c, f in every if f == "frame" for k in LABELS if not unfit(c, None, k)]
    ints = [{"call": c, "form": f, "n": n, "kind": k} for c in WHOLE for f in ("frame", "array") for n in (3, 4, 5) for k in ("int64", "int32")]
    # the critical-line algorithm computes in the precision of its inputs: the flat top of the Sharpe ratio is not resolved by single precision
    singles = [{"call": c, "form": f, "n": 3} for c, f in every if not c.startswith(("cla", "plot CLA"))]
    return [Family("representations", reps, run, f"{len(every)} spellings of entry point and arguments x {len(REPS)} representations", chunk=60),
            Family("labels", labels, run, f"{len(every)} spellings x {len(LABELS)} kinds of asset labels", chunk=60),
            Family("whole-numbers", ints, run_whole, f"{len(WHOLE)} calls on whole numbers as floats and as 64- and 32-bit integers", chunk=40),
            Family("whole-alone", [{"call": c, "form": f, "n": 3} for c, f in every if not c.startswith("plot dendro")], run_alone, f"{len(every)} spellings with each of their inputs alone as whole numbers", chunk=40),
            Family("single-precision", singles, run_single, f"{len(every)} spellings on single-precision data", chunk=40),
            Family("settings", [{"call": c, "form": f, "n": n, "kind": k} for c, (_, _, kinds) in SETTINGS.items() for k in kinds for f in ("frame", "array") for n in (3, 4)], run_setting,
                   f"{len(SETTINGS)} settings of entry points as int, float and numpy scalars", chunk=20)]
