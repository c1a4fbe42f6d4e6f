"""C30 the documented pipeline: prices -> estimates -> optimiser -> clean weights -> whole shares, in every combination."""
import itertools

import cvxpy  # noqa: F401
import numpy as np
import pandas as pd

import bl as blref
import data
from allocation import account, greedy_outcomes
from downside import add_risk, true_risk
from engine import Family
from optim import Model, poly_of, weights_of
from oracle import Poly, alloc_best, alloc_objective
from props import c02, c03, c04, c15, c16
from props.c01 import ref_returns
from props.c07 import judge_sharpe
from pypfopt import (CLA, BlackLittermanModel, DiscreteAllocation, EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance, HRPOpt,
                     black_litterman, expected_returns, risk_models)
from pypfopt.discrete_allocation import get_latest_prices

NA = float("nan")
RF = .02
MUS = {
    "mean": ("mean_historical_return", {}),
    "arithmetic": ("mean_historical_return", {"compounding": False, "frequency": 52}),
    "ema": ("ema_historical_return", {"span": 8, "compounding": False}),
    "capm": ("capm_return", {"compounding": False, "risk_free_rate": .01}),
}
RISKS = {
    "sample": ("sample_cov", {}), "log": ("sample_cov", {"log_returns": True}), "semi": ("semicovariance", {"frequency": 52}), "exp": ("exp_cov", {"span": 12}),
    "lw": ("ledoit_wolf", {}), "factor": ("ledoit_wolf_single_factor", {}), "constcorr": ("ledoit_wolf_constant_correlation", {}), "oas": ("oracle_approximating", {}),
}


def prices(case):
    """Four price histories that trade up and down; optionally one late listing and one hole."""
    T, n = case.get("T", 24), case["n"]
    R = data.grid_returns(T, n, case.get("salt", 0)) + np.array([.004, .001, .006, -.001])[:n]
    if "T" in case:  # calmer, so that returns compounded over a year stay moderate
        R = R * .2
    P = np.vstack([np.ones(n), np.cumprod(1 + R, axis=0)]) * np.array([20., 7.5, 64., 3.])[:n]
    if case["gaps"]:
        P[:3, 1] = NA
        P[min(11, T // 2), 2] = NA
        P[-1, 0] = NA
    return pd.DataFrame(P, columns=data.names(n, case["names"]), index=pd.date_range("2022-01-03", periods=T + 1))


def references(case, frame):
    rows = [[float(x) for x in r] for r in frame.values]
    _, ref = ref_returns(rows, False)
    n = case["n"]
    cols = [c02.col(ref, j) for j in range(n)]
    name, kw = MUS[case["mu"]]
    comp, freq = kw.get("compounding", True), kw.get("frequency", 252)
    if name == "mean_historical_return":
        mu = [c02.ref_mean(c, comp, freq) for c in cols]
    elif name == "ema_historical_return":
        mu = [c02.ref_ema(c, comp, freq, kw["span"]) for c in cols]
    else:
        mkt = [np.mean([x for x in r if x == x]) for r in ref]
        mu = c02.ref_capm(cols, mkt, kw["risk_free_rate"], comp, freq)
    name, kw = RISKS[case["risk"]]
    freq = kw.get("frequency", 252)
    src = ref_returns(rows, True)[1] if kw.get("log_returns") else ref
    if name == "sample_cov":
        S = c03.ref_sample(src, freq)
    elif name == "semicovariance":
        S = c03.ref_semi(src, .000079, freq)
    elif name == "exp_cov":
        S = c03.ref_exp(src, kw["span"], freq)
    else:
        A, F, d = c04.expected(case, src, {"ledoit_wolf": "lw", "ledoit_wolf_single_factor": "factor", "ledoit_wolf_constant_correlation": "cc", "oracle_approximating": "oas"}[name])
        S = (d * F + (1 - d) * A) * freq
    return np.array(mu, float), c03.psd_repair(S), ref


def estimate(case, frame, ctx):
    name, kw = MUS[case["mu"]]
    mu = ctx.step(["mu", case["mu"]], expected_returns.return_model, frame, method=name, **kw)
    name, kw = RISKS[case["risk"]]
    S = ctx.step(["S", case["risk"]], risk_models.risk_matrix, frame, method=name, **kw)
    return mu, S


def mid(mu, f=.6):
    return float(min(mu) + f * (max(mu) - min(mu)))


def run(case, ctx):
    frame = prices(case)
    keep = frame.copy(deep=True)
    n, lab = case["n"], list(frame.columns)
    mu, S, ref = references(case, frame)
    gmu, gS = estimate(case, frame, ctx)
    for part, want, got in (("expected returns", mu, gmu.values), ("covariance", S, gS.values)):
        ctx.close(got / np.abs(want).max(), want / np.abs(want).max(), 1e-8, f"{part} differ from their definition")
    ctx.require(list(gmu.index) == lab and list(gS.columns) == lab and list(gS.index) == lab, "an estimate is not labelled by the assets")
    for what in case["consumers"]:
        w, obj = consume(case, ctx, what, frame, gmu, gS, mu, S, ref)
        cleaned = ctx.step([what, "clean"], obj.clean_weights)
        want = {t: (0.0 if abs(x) < 1e-4 else round(x, 5)) for t, x in zip(obj.tickers, w)}
        ctx.require(list(cleaned) == list(obj.tickers), f"{what}: cleaned weights lost their labels", got=list(cleaned))
        for t in want:
            ctx.small(abs(cleaned[t] - want[t]), 1.01e-5, f"{what}: cleaned weights differ from the weights", asset=t)
        last = ctx.step([what, "latest"], get_latest_prices, frame)
        ref_last = [[x for x in frame[t].values if x == x][-1] for t in lab]
        ctx.close([last[t] for t in lab], ref_last, 1e-12, "latest prices")
        if all(x <= 0 for x in cleaned.values()):
            continue
        for method in ("greedy", "lp"):
            V = 3000 if method == "greedy" else 260
            da = ctx.step([what, "allocate"], DiscreteAllocation, cleaned, last, total_portfolio_value=V)
            alloc, left = ctx.step([what, method], getattr(da, method + "_portfolio"))
            sub = {"w": [cleaned[t] for t in lab], "p": ref_last, "V": V, "names": case["names"], "ratio": None}
            P, X = account(ctx, sub, alloc, left, False, f"{what}/{method}")
            for (tick, ww, p, val, sign), x in zip(P, X):
                if method == "greedy":
                    ok = greedy_outcomes(ww, p, val)
                    ctx.require(ok is None or tuple(x) in ok, f"{what}: not the allocation of the greedy rule", got=x, weights=ww)
                else:
                    ctx.small(alloc_objective(x, ww, p, val) - alloc_best(ww, p, val), 1e-5 * val, f"{what}: another allocation is closer to the target", got=x, weights=ww)
    ctx.require(frame.equals(keep), "the caller's prices were changed")
    ctx.outcome(f"{case['mu']}/{case['risk']}")


def verdict(ctx, what, m, w, scale):
    ctx.small(m.violation(w), 2e-5, f"{what}: weights violate a bound, constraint or target", w=w)
    lim = 2e-5 * scale + 2e-5
    ctx.small(m.bound(w, enough=lim / 10), lim, f"{what}: a better admissible portfolio exists", w=w)


def consume(case, ctx, what, frame, gmu, gS, mu, S, ref):
    """One optimiser on the estimates; returns (weights, optimiser), judged against the reference estimates."""
    n = case["n"]
    lab = list(frame.columns)
    name, _, side = what.partition("/")
    bounds = ["pair", -1, 1] if side == "short" else ["pair", 0, 1]
    kw = {"weight_bounds": tuple(bounds[1:])}
    P = poly_of(n, bounds, tickers=lab)
    m = Model(P)
    scale = 1 + np.abs(S).max()
    if name in ("min_volatility", "max_sharpe", "efficient_return", "efficient_risk", "max_quadratic_utility"):
        o = ctx.step([what, "init"], EfficientFrontier, gmu, gS, solver="CLARABEL", **kw)
        if name == "min_volatility":
            res = ctx.step(what, o.min_volatility)
            m.quadratic(S)
        elif name == "efficient_return":
            res = ctx.step(what, o.efficient_return, mid(mu))
            m.quadratic(S)
            m.P = P.plus(G=-mu, h=-mid(mu))
        elif name == "efficient_risk":
            vol = float(np.sqrt(max(np.diag(S)))) * .9
            res = ctx.step(what, o.efficient_risk, vol)
            m.linear(-mu).cap_quadratic(S, vol ** 2)
            scale += 10 * np.abs(mu).max()
        elif name == "max_quadratic_utility":
            res = ctx.step(what, o.max_quadratic_utility, 3)
            m.linear(-mu).quadratic(S, 1.5)
        else:
            if max(mu) <= RF + 1e-3:
                return np.full(n, 1 / n), ctx.step("equal", lambda: _equal(o, lab))
            res = ctx.step(what, o.max_sharpe, RF)
        w = weights_of(ctx, o, res, what)
        if name == "max_sharpe":
            high = max(1, float((mu - RF) @ w) / np.sqrt(w @ S @ w) / 30)  # the solver minimises the inverse square of the ratio
            judge_sharpe(ctx, P, mu, S, RF, w, min(2e-5 * high ** 2, 1e-2), what)
            rf = RF
        else:
            verdict(ctx, what, m, w, scale)
            rf = 0.0
        got = ctx.step([what, "performance"], o.portfolio_performance, risk_free_rate=rf)
        ctx.close(got[:2], [w @ mu, np.sqrt(w @ S @ w)], 1e-7, f"{what}: reported performance")
        return w, o
    if name == "cla":
        o = ctx.step([what, "init"], CLA, gmu, gS, **kw)
        res = ctx.step(what, o.min_volatility if side != "sharpe" else o.max_sharpe)
        PP = Poly(n, np.full(n, kw["weight_bounds"][0]), np.full(n, kw["weight_bounds"][1]), Aeq=[np.ones(n)], beq=[1.0])
        (c15.check_min(ctx, o, res, S, PP) if side != "sharpe" else c15.check_sharpe(ctx, o, res, mu, S, PP))
        return np.array(o.weights, float), o
    if name == "hrp":
        d = np.sqrt(np.diag(S))
        corr = S / np.outer(d, d)
        for method in ("single", "average", "ward"):
            o = ctx.step([what, method, "init"], HRPOpt, cov_matrix=gS)
            res = ctx.step([what, method], o.optimize, method)
            if c16.stable(corr, S, method):
                c16.check(ctx, o, res, lab, corr, S, method)
        return np.array([res[t] for t in o.tickers], float), o
    if name == "bl":
        caps = {t: 5.0 + 3 * k for k, t in enumerate(lab)}
        views = {lab[1]: .15, lab[-1]: -.02}
        kw2 = {"pi": "market", "market_caps": caps, "risk_aversion": 2.5, "risk_free_rate": .01} if side == "market" else {"pi": gmu}
        o = ctx.step([what, "init"], BlackLittermanModel, gS, absolute_views=views, tau=.1, **kw2)
        tot = sum(caps.values())
        pi = 2.5 * S @ np.array([caps[t] / tot for t in lab]) + .01 if side == "market" else mu
        Pm = np.zeros((2, n))
        Pm[0, 1] = Pm[1, n - 1] = 1
        Q = np.array([.15, -.02])
        rets, cov = blref.posterior(S, pi, Q, Pm, blref.omega_of("default", S, Pm, .1), .1)
        gr, gc = ctx.step([what, "returns"], o.bl_returns), ctx.step([what, "cov"], o.bl_cov)
        ctx.close(gr.values, rets, 1e-7, f"{what}: posterior returns")
        ctx.close(gc.values, cov, 1e-7, f"{what}: posterior covariance")
        e = ctx.step([what, "init frontier"], EfficientFrontier, gr, gc, solver="CLARABEL")
        w = weights_of(ctx, e, ctx.step([what, "utility"], e.max_quadratic_utility, 2), what)
        verdict(ctx, what, Model(poly_of(n, ["pair", 0, 1], tickers=lab)).linear(-rets).quadratic(cov, 1.0), w, scale)
        return w, e
    # tail risk: expected returns with the history itself
    R = np.array([r for r in ref if all(x == x for x in r)], float)
    hist = ctx.step([what, "history"], expected_returns.returns_from_prices, frame)
    cls = {"semivariance": EfficientSemivariance, "cvar": EfficientCVaR, "cdar": EfficientCDaR}[name]
    sub = {"kind": name, "beta": .8}
    extra = {} if name == "semivariance" else {"beta": .8}
    o = ctx.step([what, "init"], cls, gmu, hist, solver="CLARABEL", **kw, **extra)
    if side == "return":
        t = max(mid(mu), 0.0)
        if t > max(mu):
            t = max(mu)
        res = ctx.step(what, o.efficient_return, float(t))
        m.P = P.plus(G=-mu, h=-t)
    else:
        res = ctx.step(what, getattr(o, "min_" + name))
    add_risk(m, sub, R)
    w = weights_of(ctx, o, res, what)
    verdict(ctx, what, m, w, 1)
    got = ctx.step([what, "performance"], o.portfolio_performance)
    ctx.close(got[:2], [w @ mu, true_risk(sub, R, w)], 1e-5, f"{what}: reported performance")
    return w, o


def _equal(o, lab):
    o.set_weights({t: 1 / len(lab) for t in lab})
    return o


GROUPS = [
    ["min_volatility", "max_sharpe", "efficient_return", "efficient_risk", "max_quadratic_utility"],
    ["min_volatility/short", "max_sharpe/short", "efficient_return/short", "cla", "cla/sharpe"],
    ["hrp", "bl/market", "bl/mu"],
    ["semivariance", "semivariance/return", "cvar", "cvar/return", "cdar", "cdar/return"],
]


def families(tier):
    deep = tier == "thorough"
    out = []
    for n, gaps, names in ((3, False, "str"), (4, True, "str"), (4, False, "int")) + (((3, True, "int"), (4, True, "int"), (3, False, "int")) if deep else ()):
        cases = []
        for mu, risk, g in itertools.product(MUS, RISKS, GROUPS):
            for salt in ((0, 1, 2) if deep else (0,)):
                cases.append({"n": n, "gaps": gaps, "names": names, "mu": mu, "risk": risk, "consumers": g, "salt": salt})
        out.append(Family(f"n{n}-{'gaps' if gaps else 'full'}-{names}", cases, run,
                          f"4 return models x 8 risk models x 19 optimisation requests x cleaning x 2 allocations, {n} assets, {'late listing and holes' if gaps else 'complete prices'}", chunk=2))
    cases = []
    for k, (T, mu, risk, g) in enumerate(itertools.product((9, 60, 253) if not deep else (9, 60, 120, 253, 521), MUS, RISKS, GROUPS)):
        if deep or k % 3 == (T + len(mu)) % 3:
            cases.append({"n": 3 + k % 2, "gaps": k % 4 > 1, "names": ("str", "int")[k % 2], "mu": mu, "risk": risk, "consumers": g, "T": T, "salt": k % 5})
    out.append(Family("lengths", cases, run, "histories of 9 to %d periods x return models x risk models x requests%s" % (T, "" if deep else " (every third)"), chunk=2))
    return out
