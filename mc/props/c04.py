"""C04 covariance shrinkage."""
import itertools
import math

import numpy as np
import pandas as pd

from engine import Family
from pypfopt import risk_models as rm
import data
from props.c01 import ref_returns
from props.c03 import psd_repair, ref_sample

NA = float("nan")


def moments(case):
    rows = [[NA if x is None else float(x) for x in r] for r in data.rows(case)]
    frame = pd.DataFrame(rows, columns=data.names(len(rows[0])))
    ref = rows if case["returns_data"] else ref_returns(rows, case["log"])[1]
    ref = [r for r in ref if any(x == x for x in r)]
    return frame, ref


def demeaned(ref):
    X = [[x if x == x else 0.0 for x in r] for r in ref]
    T, n = len(X), len(X[0])
    m = [sum(r[j] for r in X) / T for j in range(n)]
    return [[r[j] - m[j] for j in range(n)] for r in X]


def lw_identity(ref):
    """Ledoit & Wolf (2004), scaled identity target, maximum-likelihood covariance."""
    X = np.array(demeaned(ref))
    T, n = X.shape
    S = X.T @ X / T
    mu = np.trace(S) / n
    d2 = ((S - mu * np.eye(n)) ** 2).sum() / n
    b2 = sum(((np.outer(x, x) - S) ** 2).sum() for x in X) / n / T ** 2
    delta = 0.0 if d2 == 0 else min(b2, d2) / d2
    return S, mu * np.eye(n), delta


def oas(ref):
    """Chen et al. (2010) oracle approximating shrinkage, as documented by scikit-learn."""
    X = np.array(demeaned(ref))
    T, n = X.shape
    S = X.T @ X / T
    mu = np.trace(S) / n
    alpha = (S ** 2).mean()
    num, den = alpha + mu ** 2, (T + 1) * (alpha - mu ** 2 / n)
    delta = 1.0 if den == 0 else min(num / den, 1.0)
    return S, mu * np.eye(n), delta


def lw_factor(ref):
    """Ledoit & Wolf (2003), one-factor target with the equal-weighted average as market."""
    X = np.array(demeaned(ref))
    T, n = X.shape
    mk = X.mean(axis=1)
    S = X.T @ X / T
    s_m = X.T @ mk / T
    v_m = float(mk @ mk / T)
    F = np.outer(s_m, s_m) / v_m
    np.fill_diagonal(F, np.diag(S))
    pi = rho = 0.0
    for i in range(n):
        for j in range(n):
            pij = float(((X[:, i] * X[:, j] - S[i, j]) ** 2).mean())
            pi += pij
            if i == j:
                rho += pij
            else:
                a = float((X[:, i] ** 2 * X[:, j] * mk).mean()) - s_m[i] * S[i, j]
                b = float((X[:, j] ** 2 * X[:, i] * mk).mean()) - s_m[j] * S[i, j]
                c = float((mk ** 2 * X[:, i] * X[:, j]).mean()) - v_m * S[i, j]
                rho += s_m[j] / v_m * a + s_m[i] / v_m * b - s_m[i] * s_m[j] / v_m ** 2 * c
    gamma = float(((S - F) ** 2).sum())
    return S, F, max(0.0, min(1.0, (pi - rho) / gamma / T)), (pi - rho) / gamma / T


def lw_constcorr(ref, S):
    """Ledoit & Wolf (2004), constant-correlation target; S is the reported sample covariance."""
    X = np.array(demeaned(ref))
    T, n = X.shape
    sd = np.sqrt(np.diag(S))
    C = S / np.outer(sd, sd)
    rbar = (C.sum() - n) / (n * (n - 1))
    F = rbar * np.outer(sd, sd)
    np.fill_diagonal(F, np.diag(S))
    pi = rho = 0.0
    for i in range(n):
        for j in range(n):
            pij = float((((X[:, i] * X[:, j]) - S[i, j]) ** 2).mean())
            pi += pij
            if i == j:
                rho += pij
            else:
                th_ii = float(((X[:, i] ** 2 - S[i, i]) * (X[:, i] * X[:, j] - S[i, j])).mean())
                th_jj = float(((X[:, j] ** 2 - S[j, j]) * (X[:, i] * X[:, j] - S[i, j])).mean())
                rho += rbar / 2 * (sd[j] / sd[i] * th_ii + sd[i] / sd[j] * th_jj)
    gamma = float(((S - F) ** 2).sum())
    k = (pi - rho) / gamma / T
    return S, F, max(0.0, min(1.0, k)), k


def expected(case, ref, what):
    S = ref_sample(ref, 1)
    if what.startswith("manual"):
        d = float(what.split(":")[1])
        return S, np.trace(S) / len(S) * np.eye(len(S)), d
    if what == "lw":
        return lw_identity(ref)
    if what == "oas":
        return oas(ref)
    if what == "factor":
        return lw_factor(ref)[:3]
    return lw_constcorr(ref, S)[:3]


def call(cs, what):
    if what.startswith("manual"):
        return cs.shrunk_covariance(float(what.split(":")[1]))
    if what == "lw":
        return cs.ledoit_wolf()
    if what == "oas":
        return cs.oracle_approximating()
    return cs.ledoit_wolf(shrinkage_target={"factor": "single_factor", "constcorr": "constant_correlation"}[what])


def judge(ctx, case, frame, ref, what, got, delta):
    S, F, d = expected(case, ref, what)
    freq = case["freq"]
    want = psd_repair(d * F + (1 - d) * S, "spectral") * freq
    scale = np.abs(want).max()
    ctx.require(list(got.columns) == list(frame.columns) and list(got.index) == list(frame.columns), f"{what}: labels")
    ctx.close(got.values / scale, want / scale, 1e-8, f"{what}: shrunk covariance is not delta*target+(1-delta)*sample", delta=d)
    if delta is not None:
        ctx.require(0 <= delta <= 1, f"{what}: shrinkage intensity outside [0,1]", delta=delta)
        ctx.close(delta, d, 1e-8, f"{what}: shrinkage intensity")
    ctx.require(np.linalg.eigvalsh(got.values).min() >= -1e-12 * scale, f"{what}: not positive semidefinite")
    ctx.outcome(f"{what}:{'0' if d == 0 else '1' if d == 1 else 'mid'}")


def run_hist(case, ctx):
    """Any order of estimators on one object: each answer is the one a fresh object gives."""
    frame, ref = moments(case)
    before = frame.copy(deep=True)
    kw = {"returns_data": case["returns_data"], "frequency": case["freq"]}
    if case["log"]:
        kw["log_returns"] = True
    cs = ctx.step("init", rm.CovarianceShrinkage, frame, **kw)
    kept = []
    for what in case["ops"]:
        got = ctx.step(what, call, cs, what)
        judge(ctx, case, frame, ref, what, got, cs.delta)
        kept.append((what, got, got.copy(deep=True)))
    for what, got, snap in kept:
        ctx.require(got.equals(snap), f"{what}: an earlier result was changed by a later call")
    ctx.require(frame.equals(before), "the caller's data was changed")


NAMES = {"lw": ["ledoit_wolf", "ledoit_wolf_constant_variance"], "factor": ["ledoit_wolf_single_factor"],
         "constcorr": ["ledoit_wolf_constant_correlation"], "oas": ["oracle_approximating"]}


def run_named(case, ctx):
    frame, ref = moments(case)
    kw = {"returns_data": case["returns_data"], "frequency": case["freq"]}
    if case["log"]:
        kw["log_returns"] = True
    for what, names in NAMES.items():
        for nm in names:
            got = ctx.step("risk_matrix:" + nm, rm.risk_matrix, frame, method=nm, **kw)
            judge(ctx, case, frame, ref, what, got, None)
    for d in case.get("deltas", (0, 0.2, 1)):
        cs = ctx.step("init", rm.CovarianceShrinkage, frame, **kw)
        judge(ctx, case, frame, ref, f"manual:{d}", ctx.step("shrunk", cs.shrunk_covariance, d), cs.delta)
    cs = ctx.step("init", rm.CovarianceShrinkage, frame, **kw)
    judge(ctx, case, frame, ref, "manual:0.2", ctx.step("shrunk", cs.shrunk_covariance), cs.delta)


def sane(case):
    """Leave out 0/0 intensities: constant columns, and targets equal to the sample."""
    _, ref = moments(case)
    if len(ref) < 2:
        return False
    X = np.array([[x if x == x else 0.0 for x in r] for r in ref])
    if X.std(axis=0).min() < 1e-9 or abs(X.mean(axis=1).std()) < 1e-9:
        return False
    if any(sum(r[j] == r[j] and r[i] == r[i] for r in ref) < 2 for i in range(X.shape[1]) for j in range(X.shape[1])):
        return False
    S = ref_sample(ref, 1)
    if np.diag(S).min() < 1e-9:
        return False
    a, b = lw_factor(ref), lw_constcorr(ref, S)
    for S_, F, _, k in (a, b):
        if ((S_ - F) ** 2).sum() < 1e-10 * (S_ ** 2).sum() or not math.isfinite(k):
            return False
    S_, F, d = lw_identity(ref)
    return ((S_ - F) ** 2).sum() > 1e-10 * (S_ ** 2).sum()


def families(tier):
    deep = tier == "thorough"
    ops = ["manual:0.2", "manual:0.7", "lw", "factor", "constcorr", "oas"]
    out = []
    tiny = []
    for T in (3, 4) if deep else (3,):
        for flat in itertools.product([0.1, -0.2, 0.04], repeat=3 * T if T == 3 else 8):
            n = 3 if T == 3 else 2
            rows = [list(flat[n * t:n * t + n]) for t in range(T)]
            if n == 3 and not deep:
                if flat[0] != 0.1:
                    continue
            tiny.append({"rows": rows, "returns_data": True, "log": False, "freq": 2})
    out.append(Family("return-tables", [c for c in tiny if sane(c)], run_named, "every 3x3 return table over {.1,-.2,.04} (first entry fixed at .1 in the quick tier), every estimator by name"))
    hist = []
    sizes = [(12, 3, "none"), (40, 4, "mid"), (6, 8, "none"), (60, 6, "lead")]
    depth = 3 if deep else 2
    for T, n, miss in sizes:
        base = data.grid_returns(T, n)
        R = base.copy()
        if miss == "mid":
            R[T // 2, 1] = NA
        if miss == "lead":
            R[:4, 0] = NA
        P = 100 * np.cumprod(1 + base, axis=0)
        P[np.isnan(R)] = NA
        for rd, log in ((True, False), (False, False), (False, True)):
            M = R if rd else P
            rows = [[None if x != x else x for x in r] for r in M.tolist()]
            for k in range(1, depth + 1):
                for h in itertools.product(ops, repeat=k):
                    hist.append({"rows": rows, "returns_data": rd, "log": log, "freq": 252 if n != 4 else 12, "ops": list(h)})
            if not deep:
                for h in itertools.permutations(ops[1:], 5):
                    if rd and h[0] in ("lw", "factor"):
                        hist.append({"rows": rows, "returns_data": rd, "log": log, "freq": 252, "ops": list(h)})
    out.append(Family("histories", hist, run_hist, f"every sequence of <= {depth} estimators (and permutations of 5) on one object, prices/returns, simple/log, gaps, more assets than rows", chunk=24))
    named = []
    for T, n in ((5, 2), (9, 3), (30, 5), (8, 12), (100, 20)):
        for salt in range(4):
            for freq in (1, 252):
                R = data.grid_returns(T, n, salt)
                named.append({"rows": R.tolist(), "returns_data": True, "log": False, "freq": freq})
    out.append(Family("structured", [c for c in named if sane(c)], run_named, "every estimator by name on structured tables up to 100 x 20", chunk=2))
    scales = []
    for T, n in ((6, 3), (25, 4), (8, 12)):
        c = {"rows": data.grid_returns(T, n, 2).tolist(), "returns_data": True, "log": False, "freq": 1}
        for mult in (1e-3, .03, 1, 19) if sane(c) else ():
            R = np.maximum(mult * data.grid_returns(T, n, 2), -.995)
            for rd, log in ((True, False), (False, False), (False, True)):
                M = R if rd else {1e-3: 1e-6, .03: 1e5, 1: 1e-3, 19: 1e7}[mult] * np.cumprod(1 + R, axis=0)
                for freq in (1, 4, 252.5, 365, 525600):
                    scales.append({"rows": M.tolist(), "returns_data": rd, "log": log, "freq": freq, "deltas": [0, 1e-6, .001, .05, .3, .5, .9, .999, 1]})
    out.append(Family("scales", scales, run_named, "returns from hundredths of a basis point to multiples, prices from 1e-6 to 1e7 x frequencies from 1 to 525600 x 9 given intensities", chunk=2))
    bulk = []
    for T, n in ((13, 30), (127, 9), (253, 17), (521, 5), (1009, 4)) if not deep else ((13, 30), (5, 60), (127, 41), (253, 26), (521, 17), (1009, 13), (2003, 5)):
        for k, rd in enumerate((True, False)):
            bulk += data.size_grid([(T, n)], returns_data=rd, log=bool(k) and T % 4 == 1, freq=252, holes=0 if n > 20 else 4 * k)
    out.append(Family("sizes", [c for c in bulk if sane(c)], run_named, f"every estimator by name on tables up to {2003 if deep else 1009} x {60 if deep else 30}", chunk=1))
    return out
