"""C16 hierarchical risk parity."""
import itertools

import numpy as np
import pandas as pd
import scipy.cluster.hierarchy as sch

import data
from engine import Family
from props.c02 import pair_cov
from pypfopt import HRPOpt

METHODS = ["single", "complete", "average", "weighted", "centroid", "median", "ward"]


def table(case):
    return case["R"] if "R" in case else data.rows(case)


def moments(case):
    """(corr, cov) from the definition; None entries of a return table are missing."""
    if "R" in case or "grid" in case:
        cols = [[float("nan") if v is None else float(v) for v in c] for c in zip(*table(case))]
        n = len(cols)
        cov = np.array([[pair_cov(cols[i], cols[j]) for j in range(n)] for i in range(n)])
        corr = np.eye(n)
        for i, j in itertools.combinations(range(n), 2):
            both = [(a, b) for a, b in zip(cols[i], cols[j]) if a == a and b == b]
            x, y = zip(*both)
            corr[i, j] = corr[j, i] = pair_cov(x, y) / np.sqrt(pair_cov(x, x) * pair_cov(y, y))
        return corr, cov
    S = np.array(case["S"], float)
    d = np.sqrt(np.diag(S))
    return S / np.outer(d, d), S


def reference(corr, cov, method, weigh=True):
    n = len(cov)
    dist = np.sqrt(np.clip((1 - corr) / 2, 0, 1))
    link = sch.linkage(dist[np.triu_indices(n, 1)], method)
    order = list(sch.leaves_list(link))
    return bisect(order, cov) if weigh else None, order


def bisect(order, cov):
    def var(items):
        sub = cov[np.ix_(items, items)]
        ivp = 1 / np.diag(sub)
        ivp = ivp / ivp.sum()
        return ivp @ sub @ ivp

    w = np.ones(len(cov))

    def split(items):
        if len(items) < 2:
            return
        a, b = items[:len(items) // 2], items[len(items) // 2:]
        va, vb = var(a), var(b)
        w[a] *= vb / (va + vb)
        w[b] *= va / (va + vb)
        split(a)
        split(b)

    split(order)
    return w


def stable(corr, cov, method):
    """The clustering does not hinge on rounding (no ties)."""
    n = len(cov)
    base = reference(corr, cov, method)[1]
    for k in range(1, 7):
        E = np.array([[0 if i == j else 3e-6 * np.cos(1 + 7 * k + 3 * min(i, j) + 11 * max(i, j)) for j in range(n)] for i in range(n)])
        if reference(corr + E, cov, method)[1] != base:
            return False
    return True


def build(case, ctx, scale=1.0):
    if "S" not in case:
        lab = data.names(len(table(case)[0]), case.get("names", "str"))
        if case.get("shuffled"):
            lab = lab[::-1]
        frame = data.df([[np.nan if v is None else v * scale for v in r] for r in table(case)], lab)
        return ctx.step("init", HRPOpt, frame), frame
    lab = data.names(len(case["S"]), case.get("names", "str"))
    if case.get("shuffled"):
        lab = lab[::-1]
    frame = pd.DataFrame(np.array(case["S"]) * scale ** 2, index=lab, columns=lab)
    return ctx.step("init", HRPOpt, cov_matrix=frame), frame


def check(ctx, hrp, got, lab, corr, cov, method):
    want, _ = reference(corr, cov, method)
    ctx.require(list(got) == sorted(lab), "the weights are not labelled by the assets in sorted order", got=list(got))
    w = np.array([got[t] for t in lab], float)
    ctx.close(w, want, 1e-9, f"weights are not those of the recursion ({method})")
    ctx.require((w >= 0).all() and abs(w.sum() - 1) < 1e-9, "weights negative or not summing to one", w=w)
    ctx.close(np.asarray(hrp.weights, float), want, 1e-9, "stored weights differ from the returned ones")


def performance(ctx, hrp, case, w, rf, freq):
    corr, cov = moments(case)
    got = ctx.step("performance", hrp.portfolio_performance, risk_free_rate=rf, **({} if "S" in case else {"frequency": freq}))
    if "S" not in case:
        mean = np.array([np.mean([v for v in c if v is not None]) for c in zip(*table(case))]) * freq
        vol = np.sqrt(w @ cov @ w * freq)
        ctx.close(np.array(got, float), [w @ mean, vol, (w @ mean - rf) / vol], 1e-9, "reported performance is not that of the weights")
    else:
        ctx.require(got[0] is None and got[2] is None, "a return is reported without returns", got=got)
        ctx.close(got[1], np.sqrt(w @ cov @ w), 1e-9, "reported volatility is not that of the weights")


def run(case, ctx):
    corr, cov = moments(case)
    for method in case["methods"]:
        hrp, frame = build(case, ctx)
        keep = frame.copy(deep=True)
        got = ctx.step("optimize:" + method, hrp.optimize, linkage_method=method)
        check(ctx, hrp, got, list(frame.columns), corr, cov, method)
        w = np.array([got[t] for t in frame.columns])
        performance(ctx, hrp, case, w, .03, 12)
        ctx.require(keep.equals(frame), "the caller's table was changed")
        if case.get("scales"):
            for s in case["scales"]:
                other = build(case, ctx, s)[0]
                again = ctx.step("optimize scaled", other.optimize, linkage_method=method)
                ctx.close([again[t] for t in frame.columns], w, 1e-9, f"weights change when every return is multiplied by {s}")
    if "single" in case["methods"]:
        hrp, frame = build(case, ctx)
        check(ctx, hrp, ctx.step("optimize", hrp.optimize), list(frame.columns), corr, cov, "single")
    ctx.outcome(tuple(np.argsort(-w))[:2])


def run_ties(case, ctx):
    """Equal distances may be taken in any order; the weights must be those of one of these orders."""
    corr, cov = moments(case)
    n = len(cov)
    pairs = list(itertools.combinations(range(n), 2))
    for method in case["methods"]:
        allowed = {}
        for rank in itertools.permutations(range(len(pairs))):
            E = np.zeros((n, n))
            for (i, j), r in zip(pairs, rank):
                E[i, j] = E[j, i] = -1e-9 * (r + 1)
            w, order = reference(corr + E, cov, method, weigh=False)
            allowed.setdefault(tuple(order))
        hrp, frame = build(case, ctx)
        got = ctx.step("optimize:" + method, hrp.optimize, linkage_method=method)
        w = np.array([got[t] for t in frame.columns], float)
        ctx.require(np.isfinite(w).all() and w.min() >= -1e-12 and abs(w.sum() - 1) < 1e-9, "weights negative, missing or not summing to one", w=w)
        gaps = [np.abs(bisect(list(o), cov) - w).max() for o in allowed]
        ctx.require(min(gaps) < 1e-9, f"weights are not those of the recursion in any order of the equal distances ({method})", got=w, orders=list(allowed))
        performance(ctx, hrp, case, w, .03, 12)
        ctx.outcome((method, len(allowed)))


def run_hist(case, ctx):
    hrp, frame = build(case, ctx)
    lab = list(frame.columns)
    corr, cov = moments(case)
    now = None
    for op in case["ops"]:
        if op == "set":
            d = {t: (i + 1) / 10 for i, t in enumerate(lab)}
            ctx.step(op, hrp.set_weights, dict(reversed(list(d.items()))))
            now = np.array([d[t] for t in lab])
        elif op == "clean":
            tag, val = ctx.attempt(op, hrp.clean_weights)
            ctx.require((tag == "ok") == (now is not None), "clean_weights answered without weights or refused with weights", got=val)
        elif op == "performance":
            if now is None:
                tag, val = ctx.attempt(op, hrp.portfolio_performance)
                ctx.require(tag == "err" and isinstance(val, ValueError), "a performance was reported without weights", got=val)
            else:
                performance(ctx, hrp, case, now, .02, 252)
        elif op == "bad":
            tag, val = ctx.attempt(op, hrp.optimize, linkage_method="nonsense")
            ctx.require(tag == "err" and isinstance(val, ValueError), "an unknown linkage method was accepted")
        else:
            got = ctx.step(op, hrp.optimize, linkage_method=op)
            check(ctx, hrp, got, lab, corr, cov, op)
            now = reference(corr, cov, op)[0]
        if now is None:
            ctx.require(hrp.weights is None, "weights appeared from nowhere")
        else:
            ctx.close(np.asarray(hrp.weights, float), now, 1e-9, f"stored weights after {op}")
    ctx.outcome(len(case["ops"]))


def run_invalid(case, ctx):
    what = case["what"]
    R = data.df(data.grid_returns(6, 2), data.names(2))
    if what == "nothing":
        tag, val = ctx.attempt(what, HRPOpt)
        ok = isinstance(val, ValueError)
    else:
        tag, val = ctx.attempt(what, HRPOpt, R.values if what == "array" else R.values.tolist())
        ok = isinstance(val, TypeError)
    ctx.require(tag == "err" and ok, "invalid input was accepted", got=val)


def families(tier):
    deep = tier == "thorough"
    out, two, three, four, tables, hist = [], [], [], [], [], []

    def add(lst, case):
        corr, cov = moments(case)
        if not np.isfinite(corr).all() or np.diag(cov).min() <= 0:
            return
        ms = [m for m in case["methods"] if len(cov) == 2 or stable(corr, cov, m)]
        if ms:
            lst.append(dict(case, methods=ms))

    for c, v in itertools.product([-1, -.6, 0, .3, .9, 1], itertools.product([.01, .2, 3], repeat=2)):
        for sh in (False, True):
            add(two, {"S": data.cov_from(v, [[1, c], [c, 1]]).tolist(), "methods": METHODS, "shuffled": sh, "names": "int" if sh else "str"})
    out.append(Family("two-assets", two, run, "6 correlations x 9 volatility pairs x label order, every linkage method", chunk=8))
    grid = [-.5, -.2, .1, .3, .45, .8] if not deep else [-.5, -.35, -.2, -.05, .1, .22, .3, .45, .6, .8, .95]
    for c in itertools.permutations(grid, 3):
        S = data.cov_from([.1, .2, .3], data.sym_corr(3, c))
        if np.linalg.eigvalsh(S).min() > 1e-6:
            add(three, {"S": S.tolist(), "methods": METHODS, "scales": [.01, 100] if c[0] > c[1] else None, "shuffled": c[1] > c[2]})
    out.append(Family("three-assets", three, run, f"every ordered choice of 3 of {len(grid)} correlations, every linkage method", chunk=8))
    pool = itertools.permutations([-.2, .1, .25, .4, .55, .7]) if deep else itertools.islice(itertools.permutations([-.2, .1, .25, .4, .55, .7]), 0, None, 3)
    for c in pool:
        S = data.cov_from([.3, .1, .2, .15], data.sym_corr(4, c))
        if np.linalg.eigvalsh(S).min() > 1e-6:
            add(four, {"S": S.tolist(), "methods": METHODS if deep else METHODS[:3] + ["ward"]})
    out.append(Family("four-assets", four, run, "every %sassignment of 6 correlations to the pairs of 4 assets" % ("" if deep else "third "), chunk=16))
    for t, n in ((4, 2), (6, 3), (9, 4), (12, 5), (30, 8), (60, 13), (90, 20)):
        for seed in (0, 1, 2):
            R = data.grid_returns(t, n, seed).tolist()
            for gaps in ((), (1,), (1, 2, 5)):
                G = [list(r) for r in R]
                if t < 6 and gaps:
                    continue
                for k in gaps:
                    G[k % t][(k * 2) % n] = None
                add(tables, {"R": G, "methods": METHODS, "scales": [.01, 10], "names": "str" if seed else "int", "shuffled": seed == 2})
    out.append(Family("return-tables", tables, run, "structured return tables up to 90 x 20, with and without missing entries, every linkage method, scaled", chunk=2))
    ties = []
    levels = (-1, -.5, 0, .5, 1)
    for n in (3, 4):
        for i, c in enumerate(itertools.product(levels, repeat=n * (n - 1) // 2)):
            C = data.sym_corr(n, c)
            if np.linalg.eigvalsh(C).min() < -1e-9:
                continue
            for k, v in enumerate(([.2] * n, [.1, .2, .3, .15][:n], [.25, .5, .25, .5][:n])):
                if n == 3 or (i + k) % (1 if deep else 3) == 0:
                    ties.append({"S": data.cov_from(v, C).tolist(), "methods": METHODS if n == 3 else ["single", "complete"] if deep else [("single", "complete")[i % 2]]})
    out.append(Family("ties", ties, run_ties, "equal distances: every correlation pattern over {-1,-.5,0,.5,1} of three and four assets x 3 volatility patterns, against every order in which the ties can be taken", chunk=10))
    sizes = []
    for t, n in ((13, 30), (64, 10), (127, 3), (253, 26), (521, 17), (1009, 6)) if not deep else ((13, 30), (30, 60), (64, 10), (127, 3), (253, 26), (400, 41), (521, 17), (1009, 9), (2003, 6)):
        for holes in (0, 7):
            for c in data.size_grid([(t, n)], holes=holes, methods=METHODS[:3] + ["ward"], names="int" if holes else "str", shuffled=bool(holes)):
                add(sizes, c)
    for n in (7, 11, 20, 33) if not deep else (7, 11, 16, 20, 33, 47, 60):
        for kind in ("factor", "toeplitz"):
            S = data.structured(n, kind)[1]
            S = S + np.diag(np.diag(S)) * .01 * (1 + np.arange(n) % 7) + 1e-4 * np.cos(np.add.outer(np.arange(n) ** 2, np.arange(n) ** 2))
            add(sizes, {"S": S.tolist(), "methods": METHODS[:3] + ["ward"]})
    out.append(Family("sizes", sizes, run, f"return tables up to {2003 if deep else 1009} x {60 if deep else 30}, covariances of up to {60 if deep else 33} assets", chunk=1))
    ops = ["single", "ward", "complete", "set", "performance", "clean", "bad"]
    base = [{"R": data.grid_returns(12, 5, 1).tolist()}, {"S": data.cov_from([.3, .1, .2, .15], data.sym_corr(4, [.1, .55, -.2, .4, .25, .7])).tolist()}]
    for b in base:
        for k in range(1, (5 if deep else 4)):
            for o in itertools.product(ops, repeat=k):
                hist.append(dict(b, ops=list(o)))
    out.append(Family("histories", hist, run_hist, f"every sequence of <= {4 if deep else 3} of 7 requests on one object, from returns and from a covariance", chunk=24))
    out.append(Family("invalid", [{"what": w} for w in ("nothing", "array", "list")], run_invalid, "missing or malformed inputs", chunk=1))
    return out
