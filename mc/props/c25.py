"""C25 plots show the true values."""
import itertools
import os
import re
import shutil
import tempfile

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
import scipy.cluster.hierarchy as sch

import data
from engine import Family
from optim import Model, add_constraints, poly_of
from oracle import qp_min
from props import c06, c15, c16
from props.c06 import targets
from pypfopt import HRPOpt, plotting


def texts(labels):
    return [t.get_text() for t in labels]


def draw(case, ctx, label, fn, *args, **kw):
    """Call a plot function as the case says: on the current axes, on given axes, saving to a file."""
    plt.close("all")
    where = None
    if case.get("ax"):
        fig, axes = plt.subplots(1, 2)
        kw["ax"] = axes[0]
        plt.sca(axes[1])
    if case.get("file"):
        where = tempfile.mkdtemp(prefix="c25-")
        kw["filename"] = os.path.join(where, "plot." + case["file"])
        if case.get("dpi"):
            kw["dpi"] = case["dpi"]
    try:
        out = ctx.step([label], fn, *args, **kw)
        if case.get("ax"):
            ctx.require(out is axes[0], f"{label}: did not draw on the axes given")
            ctx.require(not (axes[1].lines or axes[1].patches or axes[1].collections), f"{label}: drew on other axes")
        if where:
            path = kw["filename"]
            ctx.require(os.path.exists(path) and os.path.getsize(path) > 0 and os.listdir(where) == [os.path.basename(path)], f"{label}: the file asked for was not saved")
            if case["file"] == "png":
                want = np.round(out.figure.get_size_inches() * case.get("dpi", 300))
                got = plt.imread(path).shape[1::-1]
                ctx.require(np.abs(want - got).max() <= 1, f"{label}: saved at another resolution", got=got, want=want)
        return out
    finally:
        if where:
            shutil.rmtree(where, ignore_errors=True)


# ---------------------------------------------------------------- covariance
def run_cov(case, ctx):
    S = np.array(case["S"], float)
    n = len(S)
    lab = data.names(n, case.get("names", "str"))
    obj = pd.DataFrame(S, index=lab, columns=lab) if case["form"] == "frame" else S.copy()
    before = obj.copy()
    kw = {}
    if case["corr"] is not None:
        kw["plot_correlation"] = case["corr"]
    if case["tick"] is not None:
        kw["show_tickers"] = case["tick"]
    plt.close("all")
    ax = draw(case, ctx, "plot_covariance", plotting.plot_covariance, obj, **kw)
    d = np.sqrt(np.diag(S))
    want = S / np.outer(d, d) if case["corr"] else S
    ctx.require(len(ax.images) == 1, "the covariance plot has no (or several) images")
    ctx.close(np.ma.getdata(ax.images[0].get_array()), want, 1e-9, "the covariance plot shows another matrix")
    if case["tick"] is not False:
        names = [str(t) for t in (lab if case["form"] == "frame" else range(n))]
        for axis, lim in ((ax.xaxis, ax.get_xlim()), (ax.yaxis, ax.get_ylim())):
            got = {round(float(p), 6): t for p, t in zip(axis.get_majorticklocs(), texts(axis.get_ticklabels()))}
            ctx.require(got == {float(i): t for i, t in enumerate(names)}, "the covariance plot is labelled wrongly", got=got, want=names)
    same = obj.equals(before) if case["form"] == "frame" else (obj == before).all()
    ctx.require(same, "plot_covariance changed its input")
    ctx.outcome("corr" if case["corr"] else "cov")
    plt.close("all")


# ------------------------------------------------------------------- weights
def run_weights(case, ctx):
    w = {(t if case.get("kind") != "int" else int(t)): v for t, v in case["w"]}
    before = list(w.items())
    ax = draw(case, ctx, "plot_weights", plotting.plot_weights, w)
    bars = sorted(((b.get_y() + b.get_height() / 2, b.get_x(), b.get_width()) for b in ax.patches), key=lambda b: b[0])
    lo, hi = ax.get_ylim()
    if hi > lo:
        ctx.fail("the largest weight is not on top")
    ticks = dict(zip((round(float(p), 6) for p in ax.get_yticks()), texts(ax.get_yticklabels())))
    shown = []
    for y, x, width in bars:
        ctx.require(x == 0 or x + width == 0, "a bar does not start at zero")
        shown.append((ticks.get(round(y, 6)), width if x == 0 else x))
    ctx.require(sorted((a, round(b, 12)) for a, b in shown) == sorted((str(k), round(float(v), 12)) for k, v in before), "bars do not show the weights under their tickers", got=shown, want=before)
    vals = [v for _, v in shown]
    ctx.require(all(a >= b for a, b in zip(vals, vals[1:])), "bars are not in descending order", got=shown)
    ctx.require(list(w.items()) == before, "plot_weights changed the weights")
    ctx.outcome(len(before))
    plt.close("all")


# ---------------------------------------------------------------- dendrogram
def run_tree(case, ctx):
    opt, frame = c16.build(case, ctx)
    corr, cov = c16.moments(case)
    method = case.get("method", "single")
    w0 = None
    for op in case["ops"]:
        if op == "optimize":
            res = ctx.step(op, opt.optimize) if method == "single" else ctx.step(op, opt.optimize, method)
            w0 = dict(res)
        else:
            kw = {} if case["tick"] is None else {"show_tickers": case["tick"]}
            ax = draw(case, ctx, "plot_dendrogram", plotting.plot_dendrogram, opt, **kw)
            n = len(cov)
            d = np.sqrt(np.clip((1 - corr) / 2, 0, 1))
            link = sch.linkage(d[np.triu_indices(n, 1)], method if "optimize" in case["ops"][:case["ops"].index(op)] else "single")
            lab = list(frame.columns)
            want = sch.dendrogram(link, no_plot=True, labels=[str(t) for t in lab])
            segs = [s for c in ax.collections for s in c.get_segments()]
            ctx.require(len(segs) == n - 1, "the dendrogram has another number of clusters", got=len(segs))
            got = sorted((tuple(s[:, 0]), tuple(s[:, 1])) for s in np.array(segs))
            ref = sorted((tuple(map(float, a)), tuple(map(float, b))) for a, b in zip(want["icoord"], want["dcoord"]))
            ctx.close(sorted(g[1][1] for g in got), sorted(r[1][1] for r in ref), 1e-5, "the dendrogram joins clusters at other distances")
            ctx.close(np.array([g[0] for g in got]), np.array([r[0] for r in ref]), 1e-9, "the dendrogram joins other clusters")
            if case["tick"] is not False:
                ctx.require(texts(ax.get_xticklabels()) == want["ivl"], "the dendrogram's leaves are labelled wrongly", got=texts(ax.get_xticklabels()), want=want["ivl"])
                ctx.close(ax.get_xticks(), 5 + 10 * np.arange(n), 1e-9, "the dendrogram's labels are not below their leaves")
            else:
                ctx.require(not any(texts(ax.get_xticklabels())), "tickers are shown although switched off")
            wref = dict(zip(lab, c16.reference(corr, cov, "single" if w0 is None else method)[0]))
            now = dict(opt.clean_weights(cutoff=0, rounding=None))
            ctx.close([now[t] for t in lab], [wref[t] for t in lab], 1e-5, "plotting changed the optimised weights")
            ctx.outcome("tree")
    plt.close("all")


# ---------------------------------------------------------- efficient frontier
def curve(ctx, out, interactive, n, cla=False):
    """(line xy, scatter point sets, axis titles) of what was drawn."""
    if interactive:
        lines = [t for t in out.data if "lines" in (t.mode or "")]
        marks = [np.column_stack([np.array(t.x, float), np.array(t.y, float)]) for t in out.data if t.mode == "markers"]
        titles = (out.layout.xaxis.title.text, out.layout.yaxis.title.text)
        ctx.require(len(lines) == 1, "not exactly one frontier line was drawn", got=len(lines))
        xy = np.column_stack([np.array(lines[0].x or (), float), np.array(lines[0].y or (), float)])
    else:
        ctx.require(len(out.lines) == 1, "not exactly one frontier line was drawn", got=len(out.lines))
        xy = np.asarray(out.lines[0].get_xydata(), float).reshape(-1, 2)
        marks = [np.ma.getdata(c.get_offsets()).reshape(-1, 2) for c in out.collections]
        titles = (out.get_xlabel(), out.get_ylabel())
    ctx.require(titles == ("Volatility", "Return"), "axes are titled wrongly", got=titles)
    return xy, marks


def assets(ctx, case, out, marks, mu, S, lab, others=()):
    """The asset markers (and their names) are there if and only if asked for."""
    want = np.column_stack([np.sqrt(np.diag(S)), mu])
    marks = [m for m in marks]
    for o in others:
        k = [i for i, m in enumerate(marks) if m.shape == (1, 2) and np.abs(m[0] - o).max() < 1e-6]
        ctx.require(k, "the marked portfolio has another risk or return than the optimiser's", marks=marks, want=o)
        del marks[k[0]]
    if not case.get("assets", True):
        ctx.require(not marks, "assets are shown although switched off")
        return
    ctx.require(len(marks) == 1, "the assets are not shown", got=len(marks))
    ctx.close(marks[0], want, 1e-9, "assets are shown at other risks or returns")
    if not case.get("interactive"):
        tags = {t.get_text(): np.array(t.xy, float) for t in out.texts}
        if case.get("tick"):
            ctx.require(set(tags) == {str(t) for t in lab}, "assets are named wrongly", got=sorted(tags))
            for i, t in enumerate(lab):
                ctx.close(tags[str(t)], want[i], 1e-9, "an asset's name stands at another asset")
        else:
            ctx.require(not tags, "assets are named although switched off")


def judge_point(ctx, kind, param, P, mu, S, sigma, ret, tol):
    """(sigma, ret) is what the optimal portfolio for this parameter has."""
    n = len(mu)
    hi = -P.lp(-mu)[0]
    if kind == "return":
        v, w = qp_min(2 * S, np.zeros(n), P.plus(G=-mu, h=-param))
        ctx.small(abs(sigma - np.sqrt(v)), tol, "a frontier point has another volatility than the least volatile portfolio with the target return", param=param)
        ctx.small(abs(ret - w @ mu), tol * 10, "a frontier point has another return than the optimal portfolio", param=param)
    elif kind == "utility":
        v, w = qp_min(param * S, -mu, P)
        ctx.small(abs(v - (0.5 * param * sigma ** 2 - ret)), tol, "a frontier point is not the portfolio of maximum utility", param=param)
        ctx.small(max(abs(ret - w @ mu), abs(sigma - np.sqrt(w @ S @ w))), tol * 30, "a frontier point is not the portfolio of maximum utility", param=param)
    else:
        ctx.small(sigma - param, tol, "a frontier point has a higher risk than its target", param=param)
        v, w = qp_min(2 * S, np.zeros(n), P.plus(G=-mu, h=-min(ret, hi)))
        ctx.small(np.sqrt(v) - sigma, tol * 10, "a frontier point has a return which no portfolio with its risk has", param=param)
        if hi > ret + tol * 30:  # more return must cost more risk than allowed
            v, w = qp_min(2 * S, np.zeros(n), P.plus(G=-mu, h=-(ret + tol * 30)))
            ctx.require(v > param ** 2, "a portfolio within the target risk has a higher return than the frontier point", param=param, ret=ret, possible=w @ mu)


def run_ef(case, ctx):
    solver = case.get("solver", "CLARABEL")
    opt, mu, S = c06.build(case, ctx, solver)
    add_constraints(ctx, opt, case.get("cons", ()))
    lab = list(opt.tickers)
    P = poly_of(len(mu), case["bounds"], case.get("cons", ()), tickers=lab)
    tol = 2e-5 if solver else 3e-3
    kind, rng = case["param"], case["range"]
    kw = {}
    if kind != "return" or case.get("explicit"):
        kw["ef_param"] = kind
    if rng is None:
        if case.get("points"):
            kw["points"] = case["points"]
    else:
        kw["ef_param_range"] = list(rng) if case.get("list") else np.array(rng, float)
    if not case.get("assets", True):
        kw["show_assets"] = False
    if case.get("tick"):
        kw["show_tickers"] = True
    if case.get("interactive"):
        kw["interactive"] = True
    out = draw(case, ctx, ["plot", kind, case.get("points")], plotting.plot_efficient_frontier, opt, **kw)
    xy, marks = curve(ctx, out, case.get("interactive"), len(mu))
    assets(ctx, case, out, marks, mu, S, lab)
    hi = -P.lp(-mu)[0]
    if rng is None:
        N = case.get("points", 100)
        _, w = qp_min(2 * S, np.zeros(len(mu)), P)
        params, sure = np.linspace(w @ mu, hi - 1e-4, N), [True] * N
        if not solver:  # the range's own end is only as accurate as the solver
            params, sure = params[:-1], sure[:-1]
            xy = xy[:N - 1]
    else:
        status = [c06.attainable(dict(case), {"return": "efficient_return", "risk": "efficient_risk", "utility": "max_quadratic_utility"}[kind], p, False, mu, S, lab) if p > 0 or kind == "return" else None for p in rng]
        ctx.require("edge" not in status, "the case itself is borderline")
        params = [p for p, s in zip(rng, status) if s]
    ctx.require(len(xy) == len(params), "the frontier does not have one point for each attainable parameter value", got=len(xy), want=len(params))
    every = 1 if len(params) <= 12 else 9
    for k, ((sigma, ret), p) in enumerate(zip(xy, params)):
        if k % every == 0 or k >= len(params) - 2:
            judge_point(ctx, kind, p, P, mu, S, sigma, ret, tol)
    # the optimiser now holds the portfolio of the last point, and answers requests of this kind
    if len(params):
        rep = ctx.step("report", opt.portfolio_performance)
        if rng is None or status[-1]:
            ctx.close(rep[:2], xy[-1][::-1] if len(xy) == len(params) and solver else rep[:2], 1e-9, "the optimiser's report is not that of the last frontier point")
        p = float(params[len(params) // 2])
        call = {"return": opt.efficient_return, "risk": opt.efficient_risk, "utility": opt.max_quadratic_utility}[kind]
        ctx.step(["again", p], call, p)
        rep = ctx.step("report", opt.portfolio_performance)
        judge_point(ctx, kind, p, P, mu, S, rep[1], rep[0], tol)
    ctx.outcome([kind, len(params) > 0, bool(case.get("interactive"))])
    plt.close("all")


def run_cla(case, ctx):
    cla, mu, S, P, _ = c15.setup(case, ctx)
    lab = list(cla.tickers)
    asked = None
    for op in case["ops"]:
        if op == "plot":
            kw = {}
            if case.get("points"):
                kw["points"] = case["points"]
            if not case.get("assets", True):
                kw["show_assets"] = False
            if case.get("tick"):
                kw["show_tickers"] = True
            if case.get("interactive"):
                kw["interactive"] = True
            out = draw(case, ctx, "plot", plotting.plot_efficient_frontier, cla, **kw)
            xy, marks = curve(ctx, out, case.get("interactive"), len(mu))
            w = np.array([cla.clean_weights(cutoff=0, rounding=None)[t] for t in lab])
            if asked is None:
                ctx.small(P.infeasibility(w), 1e-7, "the marked portfolio is not admissible")
                c15.judge_sharpe(ctx, P, mu, S, 0.0, w, 2e-6, "plot")
            elif asked[0] is not None:
                ctx.close(w, asked[0], 1e-12, "plotting changed the optimiser's weights")
            assets(ctx, case, out, marks, mu, S, lab, others=[[np.sqrt(w @ S @ w), w @ mu]])
            ctx.require(len(xy) >= 2, "the frontier has no points", got=len(xy))
            ctx.small(abs(xy[0][1] + P.lp(-mu)[0]), 1e-6, "the frontier does not start at the highest attainable return")
            v, lo = qp_min(2 * S, np.zeros(len(mu)), P)
            ctx.small(abs(xy[-1][0] - np.sqrt(v)), 1e-6, "the frontier does not end at the least volatile portfolio")
            for s, r in xy:
                v, _ = qp_min(2 * S, np.zeros(len(mu)), P.plus(G=-mu, h=-r + 1e-9))
                ctx.small(abs(s - np.sqrt(v)), 1e-5, "a frontier point is not the least volatile portfolio with its return", ret=r)
            ctx.require(all(a >= b - 1e-9 for a, b in zip(xy[:, 1], xy[1:, 1])), "the frontier is not drawn in order")
            if case.get("interactive"):
                rows = [t for t in out.data if "lines" in (t.mode or "")][0].customdata
                if rows is not None:
                    W = np.array([np.ravel(r) for r in rows], float)
                    text = [t for t in out.data if "lines" in (t.mode or "")][0].hovertemplate or ""
                    shown = {name: int(i) for name, i in re.findall(r"(?:<br>|<extra>|^)([^<>]+?): %\{customdata\[(\d+)\]", text)}
                    ctx.require(not shown or shown == {str(t): i for i, t in enumerate(lab)}, "the weights shown when hovering over the frontier stand at other assets", got=shown)
                    ctx.close(W @ mu, xy[:, 1], 1e-9, "the weights shown when hovering over the frontier are not those of its points")
            asked = asked or (w, None)
        elif op == "frontier":
            res = ctx.step(op, cla.efficient_frontier, 60)
            c15.check_frontier(ctx, cla, res, mu, S, P, 60)
        else:
            res = ctx.step(op, getattr(cla, op))
            (c15.check_min(ctx, cla, res, S, P) if op == "min_volatility" else c15.check_sharpe(ctx, cla, res, mu, S, P))
            asked = (np.array([res[t] for t in lab]), None)
    ctx.outcome(["cla", bool(case.get("interactive"))])
    plt.close("all")


def run_bad(case, ctx):
    opt, mu, S = c06.build({"mu": [.1, .2], "S": [[.04, 0], [0, .09]], "bounds": ["pair", 0, 1]}, ctx)
    if case["what"] == "param":
        tag, val = ctx.attempt("plot", plotting.plot_efficient_frontier, opt, ef_param=case["v"], ef_param_range=[.1, .2], interactive=case["interactive"])
    else:
        h = HRPOpt(cov_matrix=pd.DataFrame(S))
        tag, val = ctx.attempt("plot", plotting.plot_efficient_frontier, {"hrp": h, "none": None, "dict": {}}[case["v"]], interactive=case["interactive"])
    ctx.require(tag == "err" and isinstance(val, NotImplementedError), "an unknown parameter kind or optimiser was not refused", got=val)
    ctx.outcome("refused")
    plt.close("all")


def families(tier):
    deep = tier == "thorough"
    out = []
    cov = []
    Ss = [data.cov_from([.1, .2], [[1, .5], [.5, 1]]), data.cov_from([.1, .3, .2], data.sym_corr(3, [.3, -.4, .5])), data.structured(6)[1], data.structured(4, "toeplitz")[1]]
    for S, form, corr, tick, nm in itertools.product(Ss, ("frame", "array"), (None, True, False), (None, True, False), ("str", "int")):
        if form == "array" and nm == "int":
            continue
        cov.append({"S": S.tolist(), "form": form, "corr": corr, "tick": tick, "names": nm})
    cov.append({"S": Ss[0].tolist(), "form": "frame", "corr": None, "tick": None, "file": "png", "dpi": 60})
    for n, v, corr, nm in itertools.product((11, 30, 60), (1e-8, 1, 1e4), (None, True), ("str", "int")):
        cov.append({"S": (v * data.structured(n)[1]).tolist(), "form": "frame", "corr": corr, "tick": (None, True)[n % 2], "names": nm})
    out.append(Family("covariance", cov, run_cov, "4 matrices x frame/array x correlations x tickers shown x string/integer names; file saved"))
    wts = []
    vals = [-.3, 0.0, .2, .7]
    for n in (1, 2, 3):
        for v in itertools.product(vals, repeat=n):
            wts.append({"w": [[t, x] for t, x in zip(data.names(n), v)]})
    for v in itertools.product(vals, repeat=2):
        wts.append({"w": [[t, x] for t, x in zip(data.names(2, "int"), v)], "kind": "int", "ax": True})
    for n in (5, 12, 21, 45, 110):
        wts.append({"w": [[t, ((i * 7) % n - n // 3) / n * (1e-6, 1, 50)[n % 3]] for i, t in enumerate(data.names(n, "int"))], "kind": "int"})
        wts.append({"w": [[t, ((i * i) % 7 - 2) / 9] for i, t in enumerate(data.names(n))], "ax": True})
        wts.append({"w": [[t, ((i * 7) % n - 2) / n] for i, t in enumerate(data.names(n))], "file": "png", "dpi": 50})
        wts.append({"w": [[t, ((i * 5) % n) / n] for i, t in enumerate(data.names(n))], "file": "pdf", "ax": True})
    wts.append({"w": [["x", .5], ["y", .5]], "file": "png"})
    out.append(Family("weights", wts, run_weights, "every weight vector over 4 values for 1-3 assets, integer tickers, given axes, longer ones saved to files"))
    trees = []
    mats = [{"S": data.cov_from([.1, .3, .2], data.sym_corr(3, [.3, -.4, .6])).tolist()}, {"S": data.cov_from([.2, .1, .3, .15], data.sym_corr(4, [.1, .7, .2, -.3, .5, .25])).tolist()},
            {"R": data.grid_returns(20, 4).tolist()}, {"R": data.grid_returns(25, 6, 3).tolist()}, {"R": data.grid_returns(25, 3, 1).tolist(), "names": "int"}]
    mats += [{"R": data.grid_returns(90, 15, 2).tolist()}, {"R": data.big_returns(200, 40).tolist(), "names": "int"}]
    for m in mats:
        for tick in (None, True, False):
            for ops in (["plot"], ["optimize", "plot"]):
                for method in ("single", "complete", "average", "ward") if len(ops) == 2 else ("single",):
                    for ax in (False, True):
                        trees.append(dict(m, tick=tick, ops=ops, method=method, ax=ax))
    trees.append(dict(mats[1], tick=None, ops=["optimize", "plot"], file="png", dpi=60))
    trees = [t for t in trees if c16.stable(*c16.moments(t), t.get("method", "single"))]
    out.append(Family("dendrogram", trees, run_tree, "matrices and return tables x linkage x before/after optimising x tickers shown x axes given"))
    efs = []
    inst = [([.05, .1, .2], data.cov_from([.1, .2, .3], data.sym_corr(3, [.3, -.4, .5]))), ([.12, -.04, .08], data.cov_from([.3, .1, .2], data.sym_corr(3, [0, 0, .2]))), ([.1, .04], data.cov_from([.25, .15], [[1, .2], [.2, 1]])),
            ([.1, .06, .15, .02], data.cov_from([.2, .1, .3, .15], data.sym_corr(4, [.1, .4, .2, -.3, .2, .25])))]
    for (mu, S), b in itertools.product(inst, (["pair", 0, 1], ["pair", -.5, 1], ["pair", .1, .8])):
        n = len(mu)
        for cons in ([], [["le_i", [0] * (n - 1) + [1], .3]], [["ge", [1, 1] + [0] * (n - 2), .4], ["sector", {"b": "x", "a": "y", "d": "x", "c": "y"}, {"x": .15}, {"y": .8}]]):
            if n == 2 and cons:
                continue
            base = {"mu": mu, "S": S.tolist(), "bounds": b, "cons": cons}
            rets, risks = targets(np.array(mu), S, b, cons=cons)
            sets = {"return": [rets[:3], [rets[2], -.5, rets[3], rets[0]], [rets[3]]],
                    "risk": [risks[:3], [risks[2], risks[3], risks[0], -.1], [risks[3]]],
                    "utility": [[1, 5, 30], [20, 0, -1, .5], [-1]]}
            for kind, ranges in sets.items():
                for k, r in enumerate(ranges):
                    for inter in (False, True):
                        c = dict(base, param=kind, range=r, interactive=inter)
                        c.update([{"explicit": True}, {"list": True, "tick": True}, {"assets": False, "ax": not inter}][k])
                        efs.append(c)
            efs.append(dict(base, param="return", range=None, points=7))
            efs.append(dict(base, param="return", range=None, points=5, interactive=True, form="frame" if cons else "array"))
    efs.append(dict(base, param="return", range=None))
    efs.append(dict(base, param="return", range=None, points=4, cons=[], file="png", dpi=60, names="int", tick=True))
    for solver_case in inst[:2]:
        efs.append({"mu": solver_case[0], "S": solver_case[1].tolist(), "bounds": ["pair", 0, 1], "param": "return", "range": None, "points": 8, "solver": None})
    out.append(Family("frontier", efs, run_ef, "4 instances x 3 bounds x 3 constraint sets x return/risk/utility x ranges with unattainable and invalid values x display options x matplotlib/plotly", chunk=4))
    clas = []
    for (mu, S), b in itertools.product(inst, (["pair", 0, 1], ["pair", -.5, 1], ["pair", .1, .8])):
        for ops in (["plot"], ["min_volatility", "plot", "max_sharpe"], ["max_sharpe", "plot", "min_volatility"], ["frontier", "plot", "frontier"], ["plot", "frontier", "plot", "max_sharpe"], ["min_volatility", "frontier", "plot", "plot"]):
            for inter in (False, True):
                clas.append({"mu": mu, "S": S.tolist(), "bounds": b, "ops": ops, "interactive": inter, "assets": len(ops) != 1, "tick": len(ops) == 3, "points": None if inter else 40, "ax": len(ops) == 4 and not inter})
    clas.append({"mu": inst[0][0], "S": inst[0][1].tolist(), "bounds": ["pair", 0, 1], "ops": ["plot"], "file": "png", "dpi": 60, "form": "array", "tick": True})
    out.append(Family("critical-line", clas, run_cla, "4 instances x 3 bounds x histories of requests and plots x display options x matplotlib/plotly", chunk=3))
    bad = [{"what": "param", "v": v, "interactive": i} for v in ("volatility", "", "Return") for i in (False, True)]
    bad += [{"what": "opt", "v": v, "interactive": i} for v in ("hrp", "none", "dict") for i in (False, True)]
    out.append(Family("refused", bad, run_bad, "unknown parameter kinds and optimisers"))
    return out
