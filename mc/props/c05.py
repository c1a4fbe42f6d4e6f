"""C05 PSD repair and covariance/correlation conversion."""
import itertools

import numpy as np
import pandas as pd

from engine import Family
from pypfopt import risk_models as rm
import data


def sym(n, flat):
    M = np.zeros((n, n))
    k = 0
    for i in range(n):
        for j in range(i, n):
            M[i, j] = M[j, i] = flat[k]
            k += 1
    return M


def run_fix(case, ctx):
    M = sym(case["n"], case["flat"]) * case.get("scale", 1)
    lab = data.names(case["n"], case["names"]) if case["form"] != "array" else None
    obj = pd.DataFrame(M, index=lab, columns=lab) if lab else M.copy()
    before = obj.copy()
    q = np.linalg.eigvalsh(M)
    scale = np.abs(M).max() or 1.0
    for fix in ("default", "spectral", "diag"):
        kw = {} if fix == "default" else {"fix_method": fix}
        got = ctx.step("fix:" + fix, rm.fix_nonpositive_semidefinite, obj, **kw)
        ctx.require(type(got) is type(obj), "container type changed", got=type(got))
        G = np.asarray(got, float)
        if lab:
            ctx.require(list(got.index) == lab and list(got.columns) == lab, "labels changed", got=list(got.columns))
        e = np.linalg.eigvalsh((G + G.T) / 2)
        ctx.close(G / scale, G.T / scale, 1e-12, "result is not symmetric")
        ctx.require(e.min() >= -1e-10 * scale - 1e-16, f"{fix}: result is not positive semidefinite", eig=e)
        if q.min() > 1e-9 * scale:
            ctx.require((G == M).all(), f"{fix}: a positive definite matrix was changed")
            ctx.outcome("kept")
        elif fix != "diag":
            w, V = np.linalg.eigh(M)
            ctx.close(G / scale, (V * np.maximum(w, 0)) @ V.T / scale, 1e-9, "spectral repair must zero the negative eigenvalues only")
            ctx.outcome("clipped" if q.min() < -1e-9 * scale else "singular")
        else:
            off = G - M
            d = np.diag(off)
            ctx.close((off - np.diag(d)) / scale, np.zeros_like(M), 1e-12, "diagonal repair must only load the diagonal")
            ctx.close(d / scale, np.full(len(M), d[0]) / scale, 1e-12, "diagonal repair must load the diagonal equally")
            ctx.require(d[0] >= -min(q.min(), 0) - 1e-10 * scale and d[0] <= 2 * abs(min(q.min(), 0)) + 1e-9 * scale, "diagonal loading is disproportionate", load=d[0], eig=q)
            ctx.outcome("loaded")
    ctx.require(np.array_equal(np.asarray(obj), np.asarray(before)), "the caller's matrix was changed")


def run_conv(case, ctx):
    n = case["n"]
    sd = np.array(case["sd"][:n])
    C = data.sym_corr(n, case["corr"])
    S = np.outer(sd, sd) * C
    lab = data.names(n, case["names"])
    cov = pd.DataFrame(S, index=lab, columns=lab)
    before = cov.copy(deep=True)
    corr = ctx.step("cov_to_corr", rm.cov_to_corr, cov)
    ctx.close(corr.values, C, 1e-12, "cov_to_corr")
    ctx.require(list(corr.index) == lab and list(corr.columns) == lab, "cov_to_corr: labels")
    ctx.close(np.diag(corr.values), np.ones(n), 1e-12, "a correlation matrix has a unit diagonal")
    for stdevs in (sd, pd.Series(sd, index=lab), list(sd)):
        back = ctx.step("corr_to_cov", rm.corr_to_cov, corr, stdevs)
        ctx.close(back.values, S, 1e-12, "corr_to_cov(cov_to_corr(S)) must be S")
        ctx.require(list(back.index) == lab and list(back.columns) == lab, "corr_to_cov: labels")
    arr = ctx.step("cov_to_corr", rm.cov_to_corr, S)
    ctx.close(arr.values, C, 1e-12, "cov_to_corr of an array")
    arr = ctx.step("corr_to_cov", rm.corr_to_cov, C, sd)
    ctx.close(arr.values, S, 1e-12, "corr_to_cov of an array")
    ctx.require(cov.equals(before), "the caller's matrix was changed")
    ctx.outcome(n)


def families(tier):
    deep = tier == "thorough"
    fix = []
    for flat in itertools.product([-1, 0, 0.5, 1, 2], repeat=3):
        for form, nm in (("frame", "str"), ("frame", "int"), ("array", "str")):
            fix.append({"n": 2, "flat": list(flat), "form": form, "names": nm})
    alpha = [-1, 0, 0.6, 2] if deep else [-1, 0.6, 2]
    for flat in itertools.product(alpha, repeat=6):
        fix.append({"n": 3, "flat": list(flat), "form": "frame" if flat[0] != alpha[0] else "array", "names": "str"})
    for n in (4, 7, 20):
        for c in (0.5, -0.4, -1 / (n - 1), 1.0):
            for d in (1.0, 0.01, 1e-4, 100.0):
                fix.append({"n": n, "flat": [d if i == j else d * c for i in range(n) for j in range(i, n)], "form": "frame", "names": "int"})
    scaled = []
    for k, flat in enumerate(itertools.product([-1, 0.6, 2], repeat=6)):
        for j, c in enumerate((1e-10, 1e-8, 1e-6, 1e-4, 1e4, 1e8)):
            if deep or (k + j) % 3 == 0:
                scaled.append({"n": 3, "flat": list(flat), "scale": c, "form": "frame" if k % 2 else "array", "names": "str"})
    for n in (9, 26, 60):
        for c in (0.5, -0.4, 1.0):
            for d in (1e-10, 1e-6, 1e6):
                scaled.append({"n": n, "flat": [1 if i == j else c + (.3 * ((i * j) % 7) / 7 if c < 1 else 0) for i in range(n) for j in range(i, n)], "scale": d, "form": "frame", "names": "int"})
    conv = []
    for n in (2, 3):
        for corr in itertools.product([-0.5, 0.0, 0.4, 0.99], repeat=n * (n - 1) // 2):
            for sd in itertools.product([0.01, 0.2, 3.0], repeat=n):
                conv.append({"n": n, "corr": list(corr), "sd": list(sd), "names": "int" if sd[0] == 0.2 else "str"})
    for k, sd in enumerate(itertools.product([1e-5, .2, 1e4], repeat=3)):
        conv.append({"n": 3, "corr": [(-.5, .4, .99)[(k + j) % 3] for j in (0, 1, 1)], "sd": list(sd), "names": "str"})
    for n in (26, 60):
        conv.append({"n": n, "corr": [.02 * ((k % 9) - 4) for k in range(n * (n - 1) // 2)], "sd": [0.01 * (i + 1) for i in range(n)], "names": "str"})
    conv.append({"n": 8, "corr": [0.1 * ((k % 9) - 4) for k in range(28)], "sd": [0.1 * (i + 1) for i in range(8)], "names": "str"})
    return [
        Family("repair", fix, run_fix, "every symmetric 2x2 matrix over {-1,0,.5,1,2}, every symmetric 3x3 over %s, larger structured ones; both methods; DataFrame and array" % alpha),
        Family("scales", scaled, run_fix, "3x3 matrices over {-1,.6,2} and structured ones of up to 60 assets, multiplied by 1e-10 to 1e8 (covariances of intraday returns, of basis points)"),
        Family("conversion", conv, run_conv, "every correlation pattern over {-.5,0,.4,.99} x stdevs over {.01,.2,3}, n <= 3"),
    ]
