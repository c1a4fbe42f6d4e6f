"""C13 reported performance = return, volatility and Sharpe ratio of the weights."""
import contextlib
import io
import itertools
import math
import re

import numpy as np
import pandas as pd

import data
from engine import Family
from pypfopt import (CLA, BlackLittermanModel, EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance, HRPOpt)
from pypfopt.base_optimizer import portfolio_performance
from oracle import cdar, cvar, semivariance


def printed(fn, *a, **k):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        val = fn(*a, **k)
    return val, [float(x) for x in re.findall(r"-?\d+\.\d+|-?nan|-?inf", buf.getvalue())]


def truth(w, mu, S, rf):
    n = len(w)
    vol = math.sqrt(max(sum(w[i] * S[i][j] * w[j] for i in range(n) for j in range(n)), 0.0))
    if mu is None:
        return (None, vol, None)
    ret = sum(a * b for a, b in zip(w, mu))
    return ret, vol, (ret - rf) / vol if vol > 0 else None


def compare(ctx, got, want, what, tol=1e-9):
    ctx.require(len(got) == len(want), f"{what}: wrong number of figures", got=got)
    for g, x, name in zip(got, want, ("expected return", "risk", "ratio")):
        if x is None:
            ctx.require(g is None or name == "ratio" and want[0] is not None, f"{what}: a {name} was reported without the data for it", got=got)
        else:
            ctx.require(g is not None, f"{what}: no {name} was reported")
            ctx.close(g, x, tol, f"{what}: reported {name}")


def check(ctx, label, fn, want, rf=None, **kw):
    """The figures, with and without the risk-free rate spelled out, silent and printed."""
    if rf is not None:
        kw["risk_free_rate"] = rf
    compare(ctx, ctx.step(label, fn, **kw), want, label)
    got, text = ctx.step([label, "verbose"], printed, fn, verbose=True, **kw)
    compare(ctx, got, want, label + " (printed)")
    figures = [x for x in (None if want[0] is None else 100 * want[0], 100 * want[1], want[2] if len(want) > 2 else None) if x is not None]
    ctx.require(len(text) == len(figures), f"{label}: prints {len(text)} figures instead of {len(figures)}", got=text)
    for a, b in zip(text, figures):
        ctx.require(abs(a - b) <= .0501 + 1e-9 * abs(b), f"{label}: printed figure", got=text, want=figures)


def run_base(case, ctx):
    n = len(case["w"])
    lab = data.names(n, case["names"])
    mu, S = case["mu"], np.array(case["S"], float)
    w = list(case["w"])
    full = w
    if case["weights"] == "dict":
        arg = dict(zip(lab, w)) if case["labels"] != "none" else dict(enumerate(w))
        keys = list(arg)
        if case["order"] == "reversed":
            arg = {k: arg[k] for k in reversed(keys)}
        elif case["order"] == "missing":
            arg.pop(keys[0])
            full = [0.0] + w[1:]
        elif case["order"] == "extra":
            arg = dict([("zz", .7)] + list(arg.items()))
    else:
        arg = {"array": np.array(w, float), "list": list(w), "series": pd.Series(w, index=lab, dtype=float)}[case["weights"]]
    a = None if mu is None else (pd.Series(mu, index=lab, dtype=float) if case["labels"] in ("both", "mu") else np.array(mu, float))
    if case["labels"] == "none" and case["weights"] == "list" and mu is not None:
        a = list(mu)
    b = pd.DataFrame(S, index=lab, columns=lab) if case["labels"] in ("both", "cov") else S.copy()
    if case["weights"] == "dict" and abs(sum(full)) <= 1e-12 * max(1e-300 if case.get("size") else 1, *map(abs, full)):
        tag, val = ctx.attempt("performance", portfolio_performance, arg, a, b)
        if tag == "err":  # documented: weights that add to zero are taken for a mismatch of tickers
            ctx.require(isinstance(val, ValueError), f"failed with {type(val).__name__}: {val}")
            return ctx.outcome("refused")
        ctx.require(any(full), "weights that match no asset were accepted")
    want = truth(full, mu, S, case["rf"])
    kw = {} if case["rf"] == 0 else {"risk_free_rate": case["rf"]}
    f = lambda **k: portfolio_performance(arg, a, b, **dict(kw, **k))  # noqa: E731
    keep = repr(arg)
    check(ctx, f"{case['weights']}", f, want)
    if case.get("size"):
        unit = [abs(x) or 1 for x in want]
        got = ctx.step("relative", f)
        ctx.close([g / u for g, u in zip(got, unit)], [x / u for x, u in zip(want, unit)], 1e-8, "the figures, relative to their size")
    ctx.require(repr(arg) == keep, "the weights were changed")
    ctx.outcome(f"{case['weights']}/{case['labels']}")


def run_opt(case, ctx):
    kind, w = case["opt"], np.array(case["w"], float)
    n = len(w)
    lab = data.names(n, case["names"])
    mu = None if case["mu"] is None else np.array(case["mu"], float)
    S = np.array(case["S"], float)
    R = pd.DataFrame(data.grid_returns(9, n, 2), columns=lab)
    frame = pd.DataFrame(S, index=lab, columns=lab)
    series = None if mu is None else pd.Series(mu, index=lab)
    weights = dict(zip(reversed(lab), reversed(w.tolist())))
    rf = case["rf"]
    if kind in ("ef", "ef-array"):
        opt = EfficientFrontier(series, frame, weight_bounds=(-1, 2)) if kind == "ef" else EfficientFrontier(mu, S.copy(), weight_bounds=(-1, 2))
        if kind == "ef-array":
            weights = dict(enumerate(w.tolist()))
        ctx.step("set_weights", opt.set_weights, weights)
        check(ctx, "performance", opt.portfolio_performance, truth(w, mu, S, rf), rf)
    elif kind == "hrp":
        opt = HRPOpt(R)
        ctx.step("set_weights", opt.set_weights, weights)
        m, C = R.values.mean(0), np.cov(R.values.T, ddof=1).reshape(n, n)
        for f in (None, 12, 1):
            k = 252 if f is None else f
            check(ctx, "performance", opt.portfolio_performance, truth(w, m * k, C * k, rf), rf, **({} if f is None else {"frequency": f}))
    elif kind == "hrp-cov":
        opt = HRPOpt(cov_matrix=frame)
        ctx.step("set_weights", opt.set_weights, weights)
        check(ctx, "performance", opt.portfolio_performance, truth(w, None, S, rf), rf)
    elif kind == "bl":
        tau = case["tau"]
        opt = BlackLittermanModel(frame, pi=pd.Series(case["pi"], index=lab), absolute_views={lab[0]: .2, lab[-1]: -.05}, tau=tau)
        ctx.step("set_weights", opt.set_weights, weights)
        P = np.zeros((2, n))
        P[0, 0] = P[1, -1] = 1
        q, pi = np.array([.2, -.05]), np.array(case["pi"], float)
        om = np.diag(np.diag(tau * P @ S @ P.T))
        A = tau * S @ P.T @ np.linalg.inv(P @ (tau * S) @ P.T + om)
        check(ctx, "performance", opt.portfolio_performance, truth(w, pi + A @ (q - P @ pi), S + tau * S - A @ P @ (tau * S), rf), rf)
    elif kind == "semivariance":
        for bench, freq in ((0, 252), (.01, 12), (-.02, 1)):
            opt = EfficientSemivariance(series, R, frequency=freq, benchmark=bench)
            ctx.step("set_weights", opt.set_weights, weights)
            dev = math.sqrt(semivariance(R.values, w, bench, freq))
            ret = None if mu is None else float(w @ mu)
            if dev > 0:
                check(ctx, "performance", opt.portfolio_performance, (ret, dev, None if mu is None else (ret - rf) / dev), rf)
    ctx.outcome(kind)


def run_solved(case, ctx):
    """After an optimisation the figures are those of the weights it returned."""
    n = len(case["mu"])
    lab = data.names(n)
    mu, S = np.array(case["mu"], float), np.array(case["S"], float)
    R = pd.DataFrame(data.grid_returns(9, n, 2), columns=lab)
    ser, frame = pd.Series(mu, index=lab), pd.DataFrame(S, index=lab, columns=lab)
    k = case["opt"]
    if k == "cla":
        for m in ("max_sharpe", "min_volatility"):
            o = CLA(ser, frame)
            ctx.require(ctx.attempt("early", o.portfolio_performance)[0] == "err", "a performance was reported before there were weights")
            w = np.array(list(ctx.step(m, getattr(o, m)).values()))
            check(ctx, m, o.portfolio_performance, truth(w, mu, S, case["rf"]), case["rf"])
    elif k == "ef":
        for m, a in (("min_volatility", ()), ("max_sharpe", ()), ("max_sharpe", (.03,)), ("efficient_risk", (.2,)), ("efficient_return", (.1,)), ("max_quadratic_utility", (2,))):
            o = EfficientFrontier(ser, frame, solver="CLARABEL")
            ctx.require(ctx.attempt("early", o.portfolio_performance)[0] == "err", "a performance was reported before there were weights")
            w = np.array(list(ctx.step([m, a], getattr(o, m), *a).values()))
            rf = case["rf"]
            if m == "max_sharpe":  # documented: the rate max_sharpe used wins
                rf = a[0] if a else 0.0
            check(ctx, m, lambda rf=case["rf"], **kw: o.portfolio_performance(risk_free_rate=rf, **kw), truth(w, mu, S, rf))
    elif k == "hrp":
        o = HRPOpt(R)
        ctx.require(ctx.attempt("early", o.portfolio_performance)[0] == "err", "a performance was reported before there were weights")
        res = ctx.step("optimize", o.optimize)
        w = np.array([res[t] for t in lab])
        check(ctx, "hrp", o.portfolio_performance, truth(w, R.values.mean(0) * 252, np.cov(R.values.T, ddof=1) * 252, case["rf"]), case["rf"])
    elif k == "bl":
        o = BlackLittermanModel(frame, pi=ser, absolute_views={lab[0]: .2})
        res = ctx.step("bl_weights", o.bl_weights)
        w = np.array([res[t] for t in lab])
        check(ctx, "bl", o.portfolio_performance, truth(w, np.asarray(o.bl_returns(), float), np.asarray(o.bl_cov(), float), case["rf"]), case["rf"])
    else:
        cls = {"cvar": EfficientCVaR, "cdar": EfficientCDaR, "semivariance": EfficientSemivariance}[k]
        kw = {"beta": .7} if k != "semivariance" else {"frequency": 12, "benchmark": .02}
        for m in ("min_" + k, "efficient_return"):
            for muarg in (ser, None):
                if m == "efficient_return" and muarg is None:
                    continue
                o = cls(muarg, R, solver="CLARABEL", **kw)
                ctx.require(ctx.attempt("early", o.portfolio_performance)[0] == "err", "a performance was reported before there were weights")
                w = np.array(list(ctx.step(m, getattr(o, m), *((.1,) if m == "efficient_return" else ())).values()))
                ret = None if muarg is None else float(w @ mu)
                if k == "semivariance":
                    dev = math.sqrt(semivariance(R.values, w, .02, 12))
                    want = (ret, dev, None if ret is None else ret / dev)
                    check(ctx, m, o.portfolio_performance, want)
                else:
                    risk = cvar(-R.values @ w, .7) if k == "cvar" else cdar(R.values @ w, .7)
                    got, text = ctx.step([m, "verbose"], printed, o.portfolio_performance, verbose=True)
                    plain = ctx.step([m, "performance"], o.portfolio_performance)
                    for g in (got, plain):
                        ctx.require((g[0] is None) == (ret is None) and len(g) == 2, f"{m}: wrong figures", got=g)
                        ctx.close(g[1], risk, 1e-5, f"{m}: reported {k}")
                        if ret is not None:
                            ctx.close(g[0], ret, 1e-9, f"{m}: reported return")
                    fig = ([] if ret is None else [100 * ret]) + [100 * risk]
                    ctx.require(len(text) == len(fig), f"{m}: prints {len(text)} figures instead of {len(fig)}")
                    for a, b in zip(text, fig):
                        ctx.require(abs(a - b) <= .0501, f"{m}: printed figure", got=text, want=fig)
    ctx.outcome(k)


def families(tier):
    deep = tier == "thorough"
    base, opts, solved = [], [], []
    grid = {1: [[1], [-.5]], 2: [list(x) for x in itertools.product([-.5, 0, .5, 1], repeat=2) if any(x)],
            3: [[.2, .3, .5], [-.3, .6, .7], [1, 0, 0], [0, .5, .5], [.1, .2, -.3], [.5, .2, .1]]}
    for n, ws in grid.items():
        for i, w in enumerate(ws):
            mu = [(.05, .2, -.1)[(j + i) % 3] + .01 * j for j in range(n)]
            C = np.full((n, n), .3)
            np.fill_diagonal(C, 1)
            S = data.cov_from([.1 + .1 * ((j + i) % 4) for j in range(n)], C).tolist()
            for weights, labels, m, rf in itertools.product(("dict", "array", "list", "series"), ("both", "mu", "cov", "none"), (mu, None), (0, .02) if n < 3 or deep else (.03,)):
                for order in (("same", "reversed", "missing", "extra") if weights == "dict" else ("same",)):
                    if m is None and labels == "mu" and weights == "dict":
                        continue
                    base.append({"w": w, "mu": m, "S": S, "weights": weights, "labels": labels, "rf": rf, "order": order, "names": ("str", "int")[(n + i) % 2]})
            for opt in ("ef", "ef-array", "hrp", "hrp-cov", "bl", "semivariance"):
                for m in (mu, None, [0.0] * n) if opt in ("ef", "ef-array", "semivariance") else (mu,):
                    for rf in (0, .02, -.01):
                        for tau in (.05, .4) if opt == "bl" else (None,):
                            if n == 1 and opt != "ef" or opt == "bl" and n == 1:
                                continue
                            opts.append({"opt": opt, "w": w, "mu": m, "S": S, "rf": rf, "tau": tau, "pi": mu, "names": ("str", "int")[i % 2]})
    for mu in ([.05, .1, .2], [.12, .04, .18], [.02, .3, .11, .07]):
        n = len(mu)
        for c in (0, .4, -.2):
            S = data.cov_from([.1, .2, .3, .25][:n], data.sym_corr(n, [c] * 6)).tolist()
            for k in ("ef", "cla", "hrp", "bl", "cvar", "cdar", "semivariance"):
                for rf in (0, .02) if k in ("ef", "cla", "hrp", "bl") else (0,):
                    solved.append({"opt": k, "mu": mu, "S": S, "rf": rf})
    sizes = []
    for n in (1, 2, 6, 17, 40) if not deep else (1, 2, 3, 6, 11, 17, 40, 120):
        for i, (k, m, v) in enumerate(itertools.product((1e-6, 1, 2.5e3), (1e-4, 1, 60), (1e-5, 1, 400))):
            w = [k * ((7 * j + 4 + i) % 11 - 3.25) / 9 for j in range(n)]
            mu = [m * ((3 * j + i) % 8 - 2.5) / 20 for j in range(n)]
            S = (v * data.cov_from([.1 + .1 * ((j + i) % 4) for j in range(n)], .3 + .7 * np.eye(n))).tolist()
            form = ("dict", "array", "list", "series")[(i + n) % 4]
            for order in ("same", "reversed", "missing", "extra") if form == "dict" else ("same",):
                sizes.append({"w": w, "mu": mu, "S": S, "weights": form, "labels": ("both", "mu", "cov", "none")[i // 4 % 4], "rf": (0, .02 * m, -.5, 3 * m * k)[i // 2 % 4], "order": order, "names": ("str", "int")[i % 2], "size": True})
    return [
        Family("sizes", sizes, run_base, "up to %d assets; weights, returns and covariances over nine magnitudes" % n, chunk=40),
        Family("function", base, run_base, "weights as dict (same, reversed, missing, extra tickers) / array / list / Series x labels on returns and/or covariance x returns absent x risk-free rates x weight grids of 1-3 assets, silent and printed", chunk=60),
        Family("set-weights", opts, run_opt, "every optimiser class's report for user-set weights", chunk=30),
        Family("solved", solved, run_solved, "every optimiser class's report after each of its optimisations, incl. max_sharpe with another rate", chunk=4),
    ]
