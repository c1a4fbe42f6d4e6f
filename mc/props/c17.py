"""C17 Black-Litterman posterior, implied weights and performance."""
import itertools
import warnings

import numpy as np
import pandas as pd

import bl
import data
from engine import Family
from pypfopt import BlackLittermanModel

S2 = data.cov_from([.2, .35], [[1, .3], [.3, 1]]).tolist()
S3 = data.cov_from([.1, .2, .3], data.sym_corr(3, [.3, -.4, .5])).tolist()


def build(case, ctx):
    """(model, labels, S, pi, Q, P, omega, tau)"""
    S = np.array(case["S"], float)
    n = len(S)
    lab = data.names(n, case.get("names", "str"))
    form = case.get("form", "frame")
    tau = case.get("tau", .05)
    P, Q = np.array(case["P"], float), np.array(case["Q"], float)
    k = len(Q)
    pi = np.zeros(n) if case.get("pi") is None else np.array(case["pi"], float)
    spec = case.get("omega", "default")
    omega = bl.omega_of(spec, S, P, tau)
    kw = {}
    if case.get("pi") is not None:
        kw["pi"] = {"frame": pd.Series(pi, index=lab), "array": pi.copy(), "column": pi.reshape(-1, 1), "wide": pd.DataFrame({"pi": pi}, index=lab)}[form]
    kw["Q"] = {"frame": pd.Series(Q), "array": Q.copy(), "column": Q.reshape(-1, 1), "wide": pd.DataFrame({"Q": Q})}[form]
    if not (case.get("no_P") and k == n):
        kw["P"] = pd.DataFrame(P, columns=lab) if form in ("frame", "wide") else P.copy()
    if spec == "default":
        if case.get("spell"):
            kw["omega"] = "default"
    elif spec[0] == "conf":
        c = spec[1]
        kw["omega"] = "idzorek"
        kw["view_confidences"] = {"frame": list(c), "array": np.array(c, float), "column": np.array(c, float).reshape(-1, 1), "wide": pd.Series(c, dtype=float)}[form]
    else:
        kw["omega"] = pd.DataFrame(omega) if form in ("frame", "wide") else omega.copy()
    if "tau" in case:
        kw["tau"] = tau
    if "delta" in case:
        kw["risk_aversion"] = case["delta"]
    cov = pd.DataFrame(S, index=lab, columns=lab) if form in ("frame", "wide") else S.copy()
    if form not in ("frame", "wide"):
        lab = list(range(n))
    return ctx.step("init", BlackLittermanModel, cov, **kw), lab, S, pi, Q, P, omega, tau


def check_returns(ctx, m, lab, want):
    got = ctx.step("bl_returns", m.bl_returns)
    ctx.require(isinstance(got, pd.Series) and list(got.index) == lab, "posterior returns are not labelled by asset", got=got)
    ctx.close(got.values, want, 1e-8, "posterior returns differ from the formula")
    return got


def check_cov(ctx, m, lab, want):
    got = ctx.step("bl_cov", m.bl_cov)
    ctx.require(isinstance(got, pd.DataFrame) and list(got.index) == lab and list(got.columns) == lab, "posterior covariance is not labelled by asset")
    ctx.close(got.values, want, 1e-8, "posterior covariance differs from the formula")
    ctx.small(np.abs(got.values - got.values.T).max(), 1e-10, "posterior covariance is not symmetric")


def check_weights(ctx, m, lab, S, rets, delta=None, name="bl_weights"):
    want, scale = bl.weights(S, rets)
    if scale < 1e-3:
        return None
    got = ctx.step([name, delta], getattr(m, name), **({} if delta is None else {"risk_aversion": delta}))
    ctx.require(list(got) == lab, "weights are not labelled by asset", got=got)
    ctx.close(list(got.values()), want, 1e-7, "implied weights are not proportional to the inverse covariance times the posterior returns")
    ctx.close(np.asarray(m.weights, float), want, 1e-7, "stored weights differ from the returned ones")
    return want


def check_perf(ctx, m, w, rets, cov, rf):
    got = ctx.step("performance", m.portfolio_performance, risk_free_rate=rf)
    vol = np.sqrt(w @ cov @ w)
    ctx.close(got, [w @ rets, vol, (w @ rets - rf) / vol], 1e-7, "reported performance is not that of the weights under the posterior")


def run(case, ctx):
    m, lab, S, pi, Q, P, omega, tau = build(case, ctx)
    rets, cov = bl.posterior(S, pi, Q, P, omega, tau)
    check_returns(ctx, m, lab, rets)
    check_cov(ctx, m, lab, cov)
    w = check_weights(ctx, m, lab, S, rets)
    if w is not None:
        check_perf(ctx, m, w, rets, cov, .02)
        fresh = build(case, ctx)[0]
        check_weights(ctx, fresh, lab, S, rets, 3.5, "optimize")
        check_perf(ctx, fresh, w, rets, cov, 0)
    ctx.outcome((len(Q), w is not None))


def run_scaled(case, ctx):
    """As ``run``, every comparison relative to the size of the figures."""
    m, lab, S, pi, Q, P, omega, tau = build(case, ctx)
    rets, cov = bl.posterior(S, pi, Q, P, omega, tau)
    unit = np.abs(np.concatenate([rets, Q, pi])).max() or 1
    ctx.close(ctx.step("bl_returns", m.bl_returns).values / unit, rets / unit, 1e-7, "posterior returns differ from the formula")
    got = ctx.step("bl_cov", m.bl_cov).values
    unit = np.abs(S).max()
    ctx.close(got / unit, cov / unit, 1e-8, "posterior covariance differs from the formula")
    added = np.abs(cov - S).max()
    if added > 1e-6 * unit:
        ctx.close((got - S) / added, (cov - S) / added, 1e-5, "posterior covariance: the uncertainty about the returns differs from the formula")
    want, scale = bl.weights(S, rets)
    if scale > 1e-3 and np.linalg.norm(rets) > 1e-6 * np.linalg.norm(np.concatenate([Q, pi])):
        got = ctx.step("bl_weights", m.bl_weights, case.get("ask"))
        ctx.close([got[t] for t in lab], want, 1e-5, "implied weights are not proportional to the inverse covariance times the posterior returns")
        w = np.array([got[t] for t in lab], float)
        perf = ctx.step("performance", m.portfolio_performance, risk_free_rate=case.get("rf", 0))
        vol = np.sqrt(w @ cov @ w)
        ctx.close([perf[0] / np.abs(w * rets).sum(), perf[1] / vol, perf[2]], [w @ rets / np.abs(w * rets).sum(), 1, (w @ rets - case.get("rf", 0)) / vol], 1e-5, "reported performance is not that of the weights under the posterior")
    ctx.outcome((len(Q), scale > 1e-3))


def run_hist(case, ctx):
    m, lab, S, pi, Q, P, omega, tau = build(case, ctx)
    rets, cov = bl.posterior(S, pi, Q, P, omega, tau)
    now = None
    for op in case["ops"]:
        if op == "returns":
            got = check_returns(ctx, m, lab, rets)
            got += 1  # the caller owns the result
        elif op == "cov":
            check_cov(ctx, m, lab, cov)
        elif op in ("weights", "optimize"):
            now = check_weights(ctx, m, lab, S, rets, None, "bl_weights" if op == "weights" else "optimize")
        elif op == "weights(4)":
            now = check_weights(ctx, m, lab, S, rets, 4)
        elif op == "set":
            now = np.arange(1, len(S) + 1) / 10
            ctx.step(op, m.set_weights, dict(reversed(list(zip(lab, now)))))
        elif op == "clean":
            tag, val = ctx.attempt(op, m.clean_weights)
            ctx.require((tag == "ok") == (now is not None), "clean_weights answered without weights or refused with weights", got=val)
        elif now is None:
            tag, val = ctx.attempt(op, m.portfolio_performance)
            ctx.require(tag == "err" and isinstance(val, ValueError), "a performance was reported without weights", got=val)
        else:
            check_perf(ctx, m, now, rets, cov, .01)
        if now is None:
            ctx.require(m.weights is None, "weights appeared from nowhere")
        else:
            ctx.close(np.asarray(m.weights, float), now, 1e-7, f"stored weights after {op}")
    ctx.outcome(len(case["ops"]))


def families(tier):
    deep = tier == "thorough"
    out, two, three, forms, sing, big, hist = [], [], [], [], [], [], []
    omegas = lambda k: ["default", ["diag", [.01 * (i + 1) for i in range(k)]], ["conf", [.25 + .3 * i for i in range(k)]], ["conf", [1] + [.5] * (k - 1)], ["conf", [.4] * (k - 1) + [0]]]  # noqa: E731
    rows2 = [[1, 0], [0, 1], [1, -1], [.4, .6]]
    for pi, tau, S in itertools.product([None, [.05, .1], [-.02, .3]], [.01, .05, 1], [S2, data.cov_from([.2, .35], np.eye(2)).tolist()]):
        for k in (1, 2):
            for P in itertools.combinations(rows2, k):
                for Q in itertools.product([-.1, .04, .3], repeat=k):
                    for om in omegas(k):
                        if k == 2 and om[0] == "conf" and om[1][0] == 1 and tau != .05:
                            continue
                        two.append({"S": S, "pi": pi, "tau": tau, "P": [list(r) for r in P], "Q": list(Q), "omega": om})
    out.append(Family("two-assets", two, run, "3 priors x 3 tau x 2 covariances x every 1-2 of 4 views x 3 view returns x 5 uncertainties", chunk=100))
    rows3 = [r for r in itertools.product([-1, 0, 1], repeat=3) if any(r)] if deep else [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, -1, 0], [-.5, -.5, 1], [0, 1, -1], [1, 1, 1]]
    for k in (1, 2, 3):
        for P in itertools.combinations(rows3, k):
            if deep and k == 3 and np.linalg.matrix_rank(np.array(P)) < 3:
                continue
            for om in omegas(k)[: 3 if k == 3 else 5]:
                three.append({"S": S3, "pi": [.05, .1, .2], "P": [list(r) for r in P], "Q": [.02, .15, -.05][:k], "omega": om, "delta": 2.5})
    full = [[.02, .004, 0], [.004, .03, -.001], [0, -.001, .01]]
    three.append({"S": S3, "pi": [.05, .1, .2], "P": [[1, 0, 0], [0, 1, -1], [0, 0, 1]], "Q": [.02, .15, -.05], "omega": ["full", full]})
    out.append(Family("three-assets", three, run, f"every 1-3 of {len(rows3)} views x uncertainties", chunk=60))
    for form, nm, pi, om, k in itertools.product(["frame", "array", "column", "wide"], ["str", "int"], [None, [.05, .1, .2]], ["default", ["diag", [.01, .02, .03]], ["conf", [.3, .6, .9]]], [1, 2, 3]):
        spec = om if om == "default" else [om[0], om[1][:k]]
        for extra in ({}, {"no_P": True, "tau": .2, "spell": True}):
            forms.append(dict({"S": S3, "pi": pi, "omega": spec, "P": [[1, 0, 0], [0, 1, 0], [0, 0, 1]][:k], "Q": [.02, .15, -.05][:k], "form": form, "names": nm}, **extra))
    out.append(Family("forms", forms, run, "containers of covariance, prior, views, picking matrix, uncertainty and confidences x tickers x defaults", chunk=16))
    levels = [0, 1e-7, 1e-5, 1e-4, .001, .004, .0099, .02, .3, .97, .991, .996, .999, .9999, 1 - 1e-6, 1]
    confs = [{"S": S3, "pi": [.05, .1, .2], "P": P[:k], "Q": [.3, -.2][:k], "omega": ["conf", list(c)], "tau": tau} for P in ([[1, 0, 0], [0, 1, -1]], [[0, .4, .6], [1, 0, 0]]) for tau in (.01, .05, 1) for k in (1, 2) for c in itertools.product(levels, repeat=k)]
    out.append(Family("confidences", confs, run, "one and two views with every pair of %d confidences from none over 1e-7 to 1-1e-6 and certainty" % len(levels), chunk=60))
    sing.append({"S": [[.04, .04, .01], [.04, .04, .01], [.01, .01, .09]], "pi": [.05, .05, .1], "P": [[0, 0, 1]], "Q": [.2]})
    sing.append({"S": [[.04, .04, .01], [.04, .04, .01], [.01, .01, .09]], "pi": [.05, .05, .1], "P": [[1, 0, 0], [0, 0, 1]], "Q": [.2, .1], "omega": ["diag", [.01, .02]]})
    sing.append({"S": [[.04, 0, .01], [0, 0, 0], [.01, 0, .09]], "pi": [.05, 0, .1], "P": [[1, 0, 0]], "Q": [.2]})
    for P in ([[1, 0, 0], [1, 0, 0]], [[1, 0, 0], [-1, 0, 0]], [[1, 0, 0], [0, 1, 0], [1, -1, 0]], [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]], [[0, 1, -1], [0, 2, -2]], [[.1, .2, .7], [.3, .3, .4], [.4, .5, 1.1]], [[1 / 3, 1 / 7, 0], [1 / 7, 0, 1], [10 / 21, 1 / 7, 1]]):
        Q = (np.array(P) @ np.array([.02, .15, -.05])).tolist()
        sing.append({"S": S3, "pi": [.05, .1, .2], "P": P, "Q": Q, "omega": ["conf", [1] * len(P)]})
        sing.append({"S": S3, "pi": [.05, .1, .2], "P": P, "Q": Q, "omega": ["conf", [.5] * len(P)]})
    out.append(Family("singular", sing, run, "singular covariances; certain views that repeat or imply each other", chunk=1))
    for n in (6, 12, 25, 40) if deep else (6, 12, 25):
        for kind in ("factor", "toeplitz"):
            mu, S = data.structured(n, kind)
            for k in (1, n // 2, n):
                P = np.zeros((k, n))
                for i in range(k):
                    P[i, (i * 5 + 1) % n] = 1
                    if i % 3 == 1:
                        P[i, (i * 5 + 3) % n] -= 1
                for om in ("default", ["conf", [.2 + .7 * i / k for i in range(k)]]):
                    big.append({"S": S.tolist(), "pi": mu.tolist(), "P": P.tolist(), "Q": [.03 + .01 * (i % 5) for i in range(k)], "omega": om, "form": "array" if kind == "factor" else "frame"})
    out.append(Family("larger", big, run, f"structured models with up to {40 if deep else 25} assets", chunk=2))
    wide = []
    for i, (v, r, tau) in enumerate(itertools.product((1e-8, 1e-4, 1, 1e4), (1e-6, 1e-3, 1, 100), (1e-6, .001, .05, .5, 1))):
        P = ([[1, 0, 0]], [[1, 0, 0], [0, 1, -1]], [[.001, 0, 0], [0, 500, -500], [0, 0, 3]], [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, -1, 0]])[i % 4]
        k = len(P)
        row = [sum(map(abs, x)) for x in P]
        o = (1e-4, 1, 1e4)[i % 3] * v * tau * .04
        for om in ("default", ["diag", [o * (1 + j) * row[j] ** 2 for j in range(k)]], ["conf", [(.001, .5, .99, .25)[(i + j) % 4] for j in range(k)]]):
            wide.append({"S": (v * np.array(S3)).tolist(), "pi": [r * x for x in (.05, .1, -.2)] if i % 5 else None, "P": P, "Q": [r * x * y for x, y in zip((.02, .15, -.05, .3), row)], "omega": om, "tau": tau,
                         "form": ("frame", "array", "column", "wide")[i // 4 % 4], "delta": (.01, 1, 40)[i % 3], "ask": (None, 1e-3, 200)[i % 3], "rf": r * .01 * (i % 3 - 1)})
    out.append(Family("scales", wide, run_scaled, "covariances and returns over eight magnitudes x tau from 1e-6 to 1 x views of any size x uncertainties", chunk=20))
    ops = ["returns", "cov", "weights", "weights(4)", "set", "performance", "clean"] + (["optimize"] if deep else [])
    for b in ({"S": S3, "pi": [.05, .1, .2], "P": [[1, 0, 0], [0, 1, -1]], "Q": [.2, .1]}, {"S": S3, "pi": [.05, .1, .2], "P": [[1, 0, 0]], "Q": [.2], "omega": ["conf", [.7]], "form": "array"}):
        for k in range(1, (6 if deep else 5)):
            for o in itertools.product(ops, repeat=k):
                if k < 5 or b.get("form"):
                    hist.append(dict(b, ops=list(o)))
    out.append(Family("histories", hist, run_hist, f"every sequence of <= {5 if deep else 4} of {len(ops)} requests on one model", chunk=200))
    return out
