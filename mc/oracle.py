"""Reference models: deliberately boring, independent re-statements of what the package promises.

Nothing here imports pypfopt or judges with cvxpy; optimisation oracles are finite enumerations (faces of a
polytope, vertices, sign patterns, integer grids) or a certificate (a linear program bounding how far
a point can be from optimal).
"""
import functools
import itertools
import math

import numpy as np
from scipy.optimize import linprog

INF = float("inf")


# ----------------------------------------------------------------- polytopes
class Poly:
    """{x : Aeq x = beq, G x <= h}; bounds are rows of G."""

    def __init__(self, n, lb=None, ub=None, Aeq=(), beq=(), G=(), h=()):
        self.n = n
        self.Aeq = np.array(Aeq, dtype=float).reshape(-1, n)
        self.beq = np.array(beq, dtype=float).reshape(-1)
        rows, rhs = [np.array(G, dtype=float).reshape(-1, n)], [np.array(h, dtype=float).reshape(-1)]
        I = np.eye(n)
        if lb is not None:
            lb = np.broadcast_to(np.asarray(lb, dtype=float), (n,))
            f = np.isfinite(lb)
            rows.append(-I[f]), rhs.append(-lb[f])
        if ub is not None:
            ub = np.broadcast_to(np.asarray(ub, dtype=float), (n,))
            f = np.isfinite(ub)
            rows.append(I[f]), rhs.append(ub[f])
        self.G, self.h = np.vstack(rows), np.concatenate(rhs)

    def plus(self, Aeq=None, beq=None, G=None, h=None):
        p = Poly(self.n)
        p.Aeq = self.Aeq if Aeq is None else np.vstack([self.Aeq, np.atleast_2d(Aeq)])
        p.beq = self.beq if beq is None else np.concatenate([self.beq, np.atleast_1d(beq)])
        p.G = self.G if G is None else np.vstack([self.G, np.atleast_2d(G)])
        p.h = self.h if h is None else np.concatenate([self.h, np.atleast_1d(h)])
        return p

    def infeasibility(self, x):
        v = 0.0
        if len(self.beq):
            v = max(v, np.abs(self.Aeq @ x - self.beq).max())
        if len(self.h):
            v = max(v, (self.G @ x - self.h).max())
        return float(v)

    def lp(self, c):
        """min c.x: (value, x), (inf, None) if empty, (-inf, None) if unbounded."""
        r = linprog(c, A_ub=self.G if len(self.h) else None, b_ub=self.h if len(self.h) else None,
                    A_eq=self.Aeq if len(self.beq) else None, b_eq=self.beq if len(self.beq) else None,
                    bounds=(None, None), method="highs")
        if r.status == 2:
            return INF, None
        if r.status == 3:
            return -INF, None
        if r.status != 0:
            # distinguish infeasible from unbounded
            z = linprog(np.zeros(self.n), A_ub=self.G if len(self.h) else None, b_ub=self.h if len(self.h) else None,
                        A_eq=self.Aeq if len(self.beq) else None, b_eq=self.beq if len(self.beq) else None,
                        bounds=(None, None), method="highs")
            return (-INF, None) if z.status == 0 else (INF, None)
        return float(r.fun), r.x

    def feasible(self):
        return self.lp(np.zeros(self.n))[0] < INF


def gap(poly, grad, x):
    """Frank-Wolfe gap: an upper bound on f(x) - min f for a convex f with gradient grad at x."""
    v, _ = poly.lp(grad)
    return float(grad @ x - v)


def qp_min(Q, c, poly, feas=1e-9):
    """min 1/2 x'Qx + c'x over a polytope by enumerating every face; (value, x) or (inf, None).

    For each set of at most n - rank(Aeq) active inequalities the equality-constrained stationary
    point is computed; the best feasible one is the global minimum (the minimiser set of a convex
    quadratic over a polytope without lines has an extreme point, and that point is the unique
    stationary point of the face it lies in).
    """
    n = poly.n
    m, k0 = len(poly.h), len(poly.beq)
    rank = np.linalg.matrix_rank(poly.Aeq) if k0 else 0
    best, arg = INF, None
    for k in range(0, n - rank + 1):
        combos = list(itertools.combinations(range(m), k))
        if not combos:
            continue
        K = np.zeros((len(combos), n + k0 + k, n + k0 + k))
        r = np.zeros((len(combos), n + k0 + k))
        K[:, :n, :n] = Q
        r[:, :n] = -c
        if k0:
            K[:, :n, n:n + k0] = poly.Aeq.T
            K[:, n:n + k0, :n] = poly.Aeq
            r[:, n:n + k0] = poly.beq
        if k:
            idx = np.array(combos)
            A = poly.G[idx]
            K[:, n + k0:, :n] = A
            K[:, :n, n + k0:] = np.transpose(A, (0, 2, 1))
            r[:, n + k0:] = poly.h[idx]
        P = np.linalg.pinv(K, rcond=1e-13)
        sol = np.einsum("aij,aj->ai", P, r)
        res = np.abs(np.einsum("aij,aj->ai", K, sol) - r).max(axis=1)
        X = sol[:, :n]
        ok = res <= 1e-8 * (1 + np.abs(r).max())
        if m:
            ok &= ((X @ poly.G.T - poly.h) <= feas).all(axis=1)
        if ok.any():
            X = X[ok]
            v = 0.5 * np.einsum("ai,ij,aj->a", X, Q, X) + X @ c
            j = int(np.argmin(v))
            if v[j] < best - 1e-15:
                best, arg = float(v[j]), X[j]
    return best, arg


def max_linear_under_variance(mu, S, var, poly, tol=1e-12):
    """max mu.w s.t. w'Sw <= var, w in poly, by bisection on the (exactly enumerated) frontier.

    v(r) = min variance at return >= r is convex and non-decreasing, so the answer is the largest r
    with v(r) <= var.  (value, feasible?)
    """
    hi, w = poly.lp(-mu)
    if hi == INF:
        return None
    v0, _ = qp_min(2 * S, np.zeros(poly.n), poly)
    if v0 > var + tol:
        return None
    hi = -hi
    if hi < INF:
        vhi, _ = qp_min(2 * S, np.zeros(poly.n), poly.plus(G=-mu, h=-hi + 1e-12))
        if vhi <= var:
            return hi
    else:
        hi = 1e3
    lo = -1e3
    for _ in range(60):
        mid = 0.5 * (lo + hi)
        v, _ = qp_min(2 * S, np.zeros(poly.n), poly.plus(G=-mu, h=-mid))
        if v <= var:
            lo = mid
        else:
            hi = mid
        if hi - lo < 1e-9:
            break
    return lo


def max_sharpe_value(mu, S, rf, poly):
    """max (mu.w - rf)/sqrt(w'Sw) over a polytope containing 1'w = 1 (value > 0 assumed), by the
    homogenised quadratic program y = w/(mu.w - rf), enumerated face by face.  None if no portfolio
    with positive excess return exists."""
    n = poly.n
    e = mu - rf
    one = np.ones(n)
    cone = Poly(n, Aeq=np.vstack([poly.Aeq - np.outer(poly.beq, one), e[None, :]]),
                beq=np.concatenate([np.zeros(len(poly.beq)), [1.0]]),
                G=np.vstack([poly.G - np.outer(poly.h, one), -one[None, :]]),
                h=np.zeros(len(poly.h) + 1))
    v, y = qp_min(2 * S, np.zeros(n), cone)
    if v == INF:
        return None, None
    if v <= 0:
        return INF, y / y.sum()
    return 1 / math.sqrt(v), y / y.sum()


# ----------------------------------------------------------------- tail risk
def cvar(losses, beta):
    """min_a a + 1/(T(1-beta)) sum (loss - a)+ : attained at one of the losses."""
    L = np.asarray(losses, dtype=float)
    T = len(L)
    return float(min(a + np.maximum(L - a, 0).sum() / (T * (1 - beta)) for a in L))


def drawdowns(returns):
    """Drawdown of the cumulative (uncompounded) return path, which starts at 0."""
    c, peak, out = 0.0, 0.0, []
    for r in returns:
        c += r
        peak = max(peak, c)
        out.append(peak - c)
    return np.array(out)


def cdar(returns, beta):
    return cvar(drawdowns(returns), beta)


def cvar_lp(R, beta, poly, mu=None, target=None, cap=None):
    """min CVaR over poly (optionally mu.w >= target), or max mu.w with CVaR <= cap, via HiGHS."""
    T, n = R.shape
    N = n + 1 + T  # w, a, u
    G = np.zeros((2 * T, N))
    G[:T, :n], G[:T, n], G[:T, n + 1:] = -R, -1, -np.eye(T)
    G[T:, n + 1:] = -np.eye(T)
    h = np.zeros(2 * T)
    obj = np.zeros(N)
    obj[n] = 1
    obj[n + 1:] = 1 / (T * (1 - beta))
    return _risk_lp(N, n, G, h, None, None, obj, poly, mu, target, cap)


LONG = 30  # from here on the running peak is a variable of its own: 4T rows instead of T(T+5)/2


def cdar_rows(R, beta):
    """(rows <= 0, objective) over (w, a, peaks, excesses)"""
    T, n = R.shape
    C, I = np.cumsum(R, axis=0), np.eye(T)
    Z, o = np.zeros((T, T)), np.zeros((T, 1))
    rows = np.vstack([
        np.hstack([C, o, -I, Z]),                               # the path is below the peak
        np.hstack([np.zeros((T, n)), o, np.eye(T, k=-1) - I, Z]),  # peaks never fall, and start at 0
        np.hstack([-C, o - 1, I, -I]),                          # drawdown = peak - path <= a + excess
        np.hstack([np.zeros((T, n)), o, Z, -I]),
    ])
    return rows, np.concatenate([np.zeros(n), [1.0], np.zeros(T), np.full(T, 1 / (T * (1 - beta)))])


def cdar_lp(R, beta, poly, mu=None, target=None, cap=None):
    """As cvar_lp for conditional drawdown; drawdown_t = max_{s<=t} (C_s - C_t), written out pair by pair."""
    T, n = R.shape
    if T > LONG:
        rows, obj = cdar_rows(R, beta)
        return _risk_lp(len(obj), n, rows, np.zeros(len(rows)), None, None, obj, poly, mu, target, cap)
    C = np.vstack([np.zeros(n), np.cumsum(R, axis=0)])
    N = n + 1 + T + T  # w, a, d, z
    rows = []
    for t in range(1, T + 1):
        for s in range(0, t + 1):
            g = np.zeros(N)
            g[:n] = C[s] - C[t]
            g[n + 1 + t - 1] = -1
            rows.append(g)
        g = np.zeros(N)
        g[n + 1 + t - 1], g[n], g[n + 1 + T + t - 1] = 1, -1, -1
        rows.append(g)
        g = np.zeros(N)
        g[n + 1 + T + t - 1] = -1
        rows.append(g)
    obj = np.zeros(N)
    obj[n] = 1
    obj[n + 1 + T:] = 1 / (T * (1 - beta))
    return _risk_lp(N, n, np.array(rows), np.zeros(len(rows)), None, None, obj, poly, mu, target, cap)


def _risk_lp(N, n, G, h, Aeq, beq, obj, poly, mu, target, cap):
    pad = lambda A: np.hstack([A, np.zeros((len(A), N - n))])  # noqa: E731
    G = np.vstack([G, pad(poly.G)])
    h = np.concatenate([h, poly.h])
    if target is not None:
        G = np.vstack([G, np.concatenate([-np.asarray(mu, float), np.zeros(N - n)])])
        h = np.append(h, -target)
    c = obj
    if cap is not None:
        G = np.vstack([G, obj])
        h = np.append(h, cap)
        c = np.concatenate([-np.asarray(mu, float), np.zeros(N - n)])
    big = Poly(N)
    big.Aeq, big.beq, big.G, big.h = pad(poly.Aeq), poly.beq, G, h
    v, x = big.lp(c)
    if x is None:
        return v, None
    return (-v if cap is not None else v), x[:n]


def semivariance(R, w, bench, freq=1):
    d = np.minimum(R @ w - bench, 0)
    return float((d ** 2).sum() / len(d) * freq)


def semivar_grad(R, w, bench, freq=1):
    d = np.minimum(R @ w - bench, 0)
    return 2 * freq / len(d) * (R.T @ d)


# ----------------------------------------------------------------- integer allocation
def alloc_objective(x, w, p, V):
    """sum |w_i V - x_i p_i| + leftover"""
    x, w, p = np.asarray(x, float), np.asarray(w, float), np.asarray(p, float)
    return float(np.abs(w * V - x * p).sum() + V - (x * p).sum())


def alloc_best(w, p, V):
    """min of alloc_objective over every integer x >= 0 with p.x <= V; exact enumeration.

    Each coordinate only ever needs values 0 .. ceil(w_i V / p_i): one more share than that costs p_i,
    adds p_i to the deviation and returns p_i of leftover, which never lowers the objective.
    """
    rng = [range(0, int(min(math.ceil(wi * V / pi - 1e-12), V // pi + 1)) + 1) for wi, pi in zip(w, p)]
    V = float(V)
    spent, dev = np.zeros(1), np.zeros(1)
    for r, wi, pi in zip(rng, w, p):
        k = np.arange(len(r)) * float(pi)
        s = (spent[:, None] + k).ravel()
        d = (dev[:, None] + np.abs(wi * V - k)).ravel()
        keep = s <= V + 1e-9
        spent, dev = s[keep], d[keep]
    return float((dev + V - spent).min())


def alloc_witness(w, p, V):
    """A good allocation found by HiGHS's integer programming (to be evaluated by alloc_objective), or None."""
    from scipy.optimize import Bounds, LinearConstraint, milp

    n = len(w)
    w, p = np.asarray(w, float), np.asarray(p, float)
    A = np.vstack([np.hstack([np.diag(-p), -np.eye(n)]), np.hstack([np.diag(p), -np.eye(n)]), np.concatenate([p, np.zeros(n)])[None, :]])
    hi = np.concatenate([-w * V, w * V, [V]])
    r = milp(np.concatenate([-p, np.ones(n)]), integrality=np.concatenate([np.ones(n), np.zeros(n)]), bounds=Bounds(0, np.inf),
             constraints=LinearConstraint(A, -np.inf, hi), options={"mip_rel_gap": 1e-9})
    if r.x is None:
        return None
    x = np.rint(r.x[:n]).astype(int)
    return x if x @ p <= V + 1e-9 else None


# ----------------------------------------------------------------- misc
def lex_products(*axes):
    return itertools.product(*axes)


def matrix_psd(S, tol=-1e-12):
    return float(np.linalg.eigvalsh(np.asarray(S, float)).min()) >= tol
