"""Small shared alphabets."""
import itertools

import numpy as np
import pandas as pd

NAMES = ["b", "a", "d", "c", "f", "e", "h", "g"]  # deliberately not in sorted order


def step(n):
    """a multiplier coprime to n: i -> i*step mod n is a permutation"""
    return next(k for k in (7, 11, 13, 17) if np.gcd(k, n) == 1)


def names(n, kind="str"):
    if kind == "int":
        return [30, 10, 40, 20, 60, 50, 80, 70][:n] if n <= 8 else [100 + (i * step(n)) % n for i in range(n)]
    if kind == "date":
        return [pd.Timestamp(2020, 1 + (i * 5) % 12, 1 + i) for i in range(n)]
    if kind == "float":
        return [((i * 7) % 10) / 4 + 0.5 for i in range(n)]
    if kind == "mixed":
        return [("b", 3, "a", 1.5, "d", 2)[i] for i in range(n)]
    if kind == "long":
        return [f"{w} Holdings plc, {i} - ord." for i, w in zip(range(n), ("Berg", "Acme", "Dora", "Čech", "Füß", "Été"))]
    if kind == "odd":
        return ["nan", "0", "-1", "None", "index", "T"][:n]
    return NAMES[:n] if n <= 8 else [f"T{(i * step(n)) % n:02d}" for i in range(n)]


def cov_from(vols, corr):
    v = np.array(vols, float)
    C = np.array(corr, float)
    return np.outer(v, v) * C


def sym_corr(n, offdiag):
    C = np.eye(n)
    k = 0
    for i in range(n):
        for j in range(i + 1, n):
            C[i, j] = C[j, i] = offdiag[k]
            k += 1
    return C


def structured(n, kind="factor"):
    """Deterministic larger instances: expected returns and a positive-definite covariance."""
    i = np.arange(n)
    mu = 0.05 + 0.2 * ((i * 7 + 3) % n) / n
    vol = 0.1 + 0.3 * ((i * 5 + 1) % n) / n
    if kind == "factor":
        b = 0.3 + 0.6 * ((i * 3 + 2) % n) / n
        C = np.outer(b, b)
        C[i, i] = 1
    else:
        C = 0.6 ** np.abs(i[:, None] - i[None, :]) * np.where((i[:, None] + i[None, :]) % 2, -1, 1)
        C[i, i] = 1
    return mu, np.outer(vol, vol) * C


def grid_returns(T, n, salt=0):
    """Deterministic, non-degenerate return matrix (no randomness: a quadratic-residue pattern)."""
    t = np.arange(T)[:, None]
    j = np.arange(n)[None, :]
    k = (t * t * 31 + t * (17 + 6 * j) + j * j * 13 + 7 * j + 11 * salt + 5) % 101
    return (k - 47.0) / 1000.0 + 0.0


def big_returns(T, n, salt=0):
    """As grid_returns, for long histories and many assets (no two rows or columns alike)."""
    t = np.arange(T, dtype=np.int64)[:, None]
    j = np.arange(n, dtype=np.int64)[None, :]
    k = (t * t * t * 7 + t * t * (31 + 3 * j) + t * (17 + 6 * j * j) + j * j * 1313 + 577 * j + 1109 * salt + 5) % 9973
    return (k - 4900.0) / 100000.0


def size_grid(sizes, **case):
    """Cases {"grid": [T, n], ...} for ``rows`` to expand."""
    return [dict(case, grid=[T, n]) for T, n in sizes]


def rows(case):
    """The table of a case, spelled out or generated."""
    if "grid" not in case:
        return case["rows"]
    R = big_returns(*case["grid"], case.get("salt", 0))
    if not case.get("returns_data", True):
        R = 100 * np.cumprod(1 + R, axis=0)
    out = R.tolist()
    T, n = R.shape
    for k in range(case.get("holes", 0)):
        out[(k * 37 + 3) % T][(k * 5 + 1) % n] = None
    return out


def df(values, cols=None, index=None, kind="str"):
    values = np.asarray(values, float)
    return pd.DataFrame(values, columns=cols or names(values.shape[1], kind), index=index)


def small_positions(values):
    """Portfolios with positions far below a percent that are worth several shares all the same."""
    out = []
    for w in ([.999, .0007, .0003], [.99995, .00005], [.5, .499, .001], [1 - 4e-6, 4e-6], [.0005, .0005, .0005, .9985], [1.0005, -.0005], [.6, .4008, -.0008], [.0008, .9992, -.3]):
        for p in ([3.5, 7.25, 12.4, 5.1], [45.5, .75, 2.2, 19.0]):
            for V in values:
                out.append({"w": w, "p": p[:len(w)], "V": V})
    return out
