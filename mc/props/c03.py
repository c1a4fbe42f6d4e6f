"""C03 sample covariance, semicovariance and exponential covariance."""
import itertools

import numpy as np
import pandas as pd

from engine import Family
from pypfopt import risk_models as rm
import data
from props.c01 import ref_returns
from props.c02 import pair_cov, ewm_last

NA = float("nan")


def psd_repair(M, method="spectral"):
    """Nearest PSD matrix by clipping eigenvalues / by loading the diagonal; PSD matrices unchanged."""
    q, V = np.linalg.eigh(M)
    if q.min() >= 0:
        return M
    if method == "spectral":
        return (V * np.maximum(q, 0)) @ V.T
    return M - 1.1 * q.min() * np.eye(len(M))


def table(case):
    rows = [[NA if x is None else float(x) for x in r] for r in data.rows(case)]
    n = len(rows[0])
    frame = pd.DataFrame(rows, columns=data.names(n, case.get("names", "str")),
                         index=pd.date_range("2021-02-01", periods=len(rows)) if case.get("index") == "date" else None)
    ref = rows if case["returns_data"] else ref_returns(rows, case["log"])[1]
    return frame, ref


def ref_sample(ref, freq):
    n = len(ref[0])
    cols = [[r[j] for r in ref] for j in range(n)]
    return np.array([[pair_cov(cols[i], cols[j]) for j in range(n)] for i in range(n)]) * freq


def ref_semi(ref, bench, freq):
    n, T = len(ref[0]), len(ref)
    # a missing observation is not a drop
    d = [[min(x - bench, 0.0) if x == x else 0.0 for x in r] for r in ref]
    return np.array([[sum(r[i] * r[j] for r in d) / T for j in range(n)] for i in range(n)]) * freq


def ref_exp(ref, span, freq):
    n = len(ref[0])
    cols = [[r[j] for r in ref] for j in range(n)]
    dev = []
    for c in cols:
        v = [x for x in c if x == x]
        m = sum(v) / len(v)
        dev.append([x - m for x in c])
    return np.array([[ewm_last([a * b for a, b in zip(dev[i], dev[j])], span) for j in range(n)] for i in range(n)]) * freq


def judge(ctx, got, frame, raw, fix, what, form):
    labels = list(frame.columns) if form != "array" else list(range(frame.shape[1]))
    ctx.require(isinstance(got, pd.DataFrame) and list(got.columns) == labels and list(got.index) == labels,
                f"{what}: rows/columns must be labelled by asset", got=getattr(got, "columns", None))
    scale = max(np.abs(raw).max(), 1e-12)
    ctx.close(got.values / scale, got.values.T / scale, 1e-12, f"{what}: not symmetric")
    ctx.close(got.values / scale, psd_repair(raw, fix) / scale, 1e-9, f"{what}: differs from its definition")
    ctx.require(np.linalg.eigvalsh(got.values).min() >= -1e-12 * scale, f"{what}: not positive semidefinite",
                eig=np.linalg.eigvalsh(got.values))
    ctx.outcome(what + ("/psd" if np.linalg.eigvalsh(raw).min() > 0 else "/repaired"))


def run(case, ctx):
    frame, ref = table(case)
    before = frame.copy(deep=True)
    arg = frame.values if case["form"] == "array" else frame
    kw = {"returns_data": case["returns_data"], "frequency": case["freq"]}
    if case["log"]:
        kw["log_returns"] = True
    for fix in (["spectral", "diag"] if case.get("fix") else ["spectral"]):
        k = dict(kw)
        if fix != "spectral":
            k["fix_method"] = fix
        if case["sample"]:
            raw = ref_sample(ref, case["freq"])
            judge(ctx, ctx.step("sample_cov:" + fix, rm.sample_cov, arg, **k), frame, raw, fix, "sample_cov", case["form"])
            judge(ctx, ctx.step("risk_matrix:sample_cov", rm.risk_matrix, arg, method="sample_cov", **k), frame, raw, fix, "sample_cov", case["form"])
        for bench in case.get("bench", [0.01]):
            raw = ref_semi(ref, bench, case["freq"])
            judge(ctx, ctx.step(f"semicovariance:{bench}", rm.semicovariance, arg, benchmark=bench, **k), frame, raw, fix, "semicovariance", case["form"])
        raw = ref_semi(ref, bench, case["freq"])
        for alias in ("semicovariance", "semivariance"):
            judge(ctx, ctx.step("risk_matrix:" + alias, rm.risk_matrix, arg, method=alias, benchmark=bench, **k), frame, raw, fix, "semicovariance", case["form"])
        if case["exp"]:
            for span in case.get("span", [3]):
                raw = ref_exp(ref, span, case["freq"])
                judge(ctx, ctx.step(f"exp_cov:{span}", rm.exp_cov, arg, span=span, **k), frame, raw, fix, "exp_cov", case["form"])
            judge(ctx, ctx.step("risk_matrix:exp_cov", rm.risk_matrix, arg, method="exp_cov", span=span, **k), frame, raw, fix, "exp_cov", case["form"])
    if case.get("default") and case["sample"]:
        got = ctx.step("risk_matrix", rm.risk_matrix, arg, **kw)
        judge(ctx, got, frame, ref_sample(ref, case["freq"]), "spectral", "sample_cov", case["form"])
    ctx.require(frame.equals(before), "the caller's data was changed")


def usable(case):
    try:
        _, ref = table(case)
    except ZeroDivisionError:
        return False
    if len(ref) < 2:
        return False
    n = len(ref[0])
    for i in range(n):
        for j in range(n):
            if sum(r[i] == r[i] and r[j] == r[j] for r in ref) < 2:
                return False
    return True


def families(tier):
    deep = tier == "thorough"
    out = []
    two = []
    for T in (2, 3, 4) if deep else (2, 3):
        for flat in itertools.product([0.1, -0.2, 0.0, None], repeat=2 * T):
            rows = [list(flat[2 * t:2 * t + 2]) for t in range(T)]
            two.append({"rows": rows, "returns_data": True, "log": False, "freq": 2, "form": "frame" if T < 3 else "array" if flat[0] == 0.1 else "frame",
                        "sample": True, "exp": True, "bench": [0.0, 0.05], "fix": T == 2})
    out.append(Family("return-tables", [c for c in two if usable(c)], run,
                      "every 2-column return table over {.1,-.2,0,missing}, <= %d rows" % (4 if deep else 3)))
    pr = []
    for flat in itertools.product([1, 2, 0.5], repeat=6):
        rows = [list(flat[2 * t:2 * t + 2]) for t in range(3)]
        for log in (False, True):
            pr.append({"rows": rows, "returns_data": False, "log": log, "freq": 252, "form": "frame", "sample": True, "exp": True, "bench": [0.000079]})
    out.append(Family("price-tables", [c for c in pr if usable(c)], run, "every 3x2 price table over {1,2,.5}, simple and log"))
    # indefinite pairwise estimates: 3 columns, missing observations
    gaps = []
    base = [[0.1, 0.1, -0.1], [-0.1, -0.1, 0.12], [0.05, 0.06, 0.05], [0.2, -0.2, 0.2], [-0.2, 0.2, -0.21], [0.0, 0.03, 0.04]]
    holes = list(itertools.product([None, 0, 1, 2], repeat=6))
    for h in holes if deep else [h for h in holes if sum(x is not None for x in h) <= 4]:
        rows = [[None if j == hole else x for j, x in enumerate(r)] for r, hole in zip(base, h)]
        gaps.append({"rows": rows, "returns_data": True, "log": False, "freq": 12, "form": "frame", "sample": True, "exp": False, "fix": True})
    out.append(Family("gaps", [c for c in gaps if usable(c)], run, "every pattern of at most one missing value per row in a 6x3 table (pairwise estimates that may be indefinite)"))
    sizes = [(T, n) for T in ((3, 13, 64, 127, 253, 521, 1009) if deep else (3, 64, 253, 1009)) for n in ((1, 2, 9, 17, 26, 41, 60) if deep else (1, 2, 9, 21)) if T * n * n < (400000 if deep else 40000)]
    bulk = [c for holes in (0, 5) for k, z in enumerate(sizes) if z[0] > 3 or not holes
            for c in data.size_grid([z], holes=holes, returns_data=bool(k % 2), log=k % 4 == 0, freq=(252, 52, 12)[k % 3], form="frame", index="date", sample=True, exp=True, bench=[.000079], span=[(180, 30)[k % 2]], default=True)]
    out.append(Family("sizes", [c for c in bulk if usable(c)], run, "tables of every size over {3,64,253,1009} x {1,2,9,21} (thorough: up to 1009 x 60), with and without gaps", chunk=1))
    scales = []
    for T, n in ((5, 3), (25, 4)):
        for mult in (1e-3, .03, 1, 19):
            R = np.maximum(mult * data.grid_returns(T, n), -.995)
            for rd, log in ((True, False), (False, False), (False, True)):
                M = R if rd else {1e-3: 1e-6, .03: 1e5, 1: 1e-3, 19: 1e7}[mult] * np.cumprod(1 + R, axis=0)
                for freq in (1, 4, 252.5, 365, 525600):
                    scales.append({"rows": M.tolist(), "returns_data": rd, "log": log, "freq": freq, "form": "frame", "sample": True, "exp": True,
                                   "bench": [-.5, -1e-6, 1e-6, .02, .2, 2], "span": [1, 1.5, 9, 9.5, 11, 365, 5000], "fix": T == 5})
    out.append(Family("scales", [c for c in scales if usable(c)], run, "returns from hundredths of a basis point to multiples, prices from 1e-6 to 1e7 x frequencies from 1 to 525600 x benchmarks x spans from 1 to 5000", chunk=4))
    sett = []
    for T, n in ((6, 3), (30, 5), (10, 12), (120, 8)):
        base = data.grid_returns(T, n)
        for miss in ("none", "lead", "mid"):
            R = base.copy()
            if miss == "lead":
                R[:2, 0] = NA
            if miss == "mid":
                R[T // 2, 1] = NA
            P = 100 * np.cumprod(1 + base, axis=0)
            P[np.isnan(R)] = NA
            for freq in (1, 52, 252):
                for rd, log in ((True, False), (False, False), (False, True)):
                    M = R if rd else P
                    sett.append({"rows": [[None if x != x else x for x in r] for r in M.tolist()], "returns_data": rd, "log": log, "freq": freq,
                                 "form": "frame", "index": "date", "names": "int" if freq == 52 else "str", "sample": True, "exp": True,
                                 "bench": [0.0, 0.000079, -0.01], "span": [2, 10, 180], "fix": n == 12, "default": True})
    out.append(Family("settings", [c for c in sett if usable(c)], run, "all (frequency, prices/returns, log, benchmark, span, fix method) settings on structured tables, incl. more assets than rows", chunk=4))
    return out
