"""Reference model of 'an optimal portfolio', shared by the optimiser properties.

A Model states the optimisation problem from the documentation (bounds, linear constraints, convex
constraints, objective terms).  `violation(w)` measures how far weights are from being admissible and
`bound(w)` returns a *certified upper bound* on how far w is from optimal: one linear program over
Lagrange multipliers (weak duality of the linearised problem), solved by HiGHS.  No part of the package
or of cvxpy is involved in judging.
"""
import itertools

import numpy as np
from scipy.optimize import linprog

from oracle import INF, LONG, Poly, cdar, cdar_rows, cvar, drawdowns, qp_min, semivar_grad, semivariance


class Model:
    def __init__(self, poly):
        self.n = poly.n
        self.P = poly
        self.smooth = []   # (value(w), grad(w))
        self.cons = []     # (value(w) <= 0, grad(w))      convex
        self.lifts = []    # (rows builder) linear epigraphs
        self.quad = [np.zeros((self.n, self.n)), np.zeros(self.n)]  # 1/2 w'Qw + c'w part of the smooth terms
        self.only_quad = True
        self.lincap = []   # (lift index, cap)

    # objective terms -------------------------------------------------
    def linear(self, c):
        c = np.asarray(c, float)
        self.smooth.append((lambda w: float(c @ w), lambda w: c))
        self.quad[1] = self.quad[1] + c
        return self

    def quadratic(self, S, coef=1.0, centre=None):
        S = np.asarray(S, float)
        p = np.zeros(self.n) if centre is None else np.asarray(centre, float)
        self.smooth.append((lambda w: float(coef * (w - p) @ S @ (w - p)), lambda w: 2 * coef * S @ (w - p)))
        self.quad[0] = self.quad[0] + 2 * coef * S
        self.quad[1] = self.quad[1] - 2 * coef * S @ p
        return self

    def semivar(self, R, bench, coef=1.0):
        self.smooth.append((lambda w: coef * semivariance(R, w, bench), lambda w: coef * semivar_grad(R, w, bench)))
        self.only_quad = False
        return self

    def l1(self, prev, k):
        self.lifts.append(("l1", np.asarray(prev, float), float(k), None))
        self.only_quad = False
        return self

    def risk(self, kind, R, beta, coef=1.0, cap=None):
        """kind in cvar/cdar; as an objective term (coef) or, with cap, as a constraint."""
        self.lifts.append((kind, np.asarray(R, float), (beta, coef), cap))
        self.only_quad = False
        return self

    # constraints -----------------------------------------------------
    def cap_quadratic(self, S, cap):
        S = np.asarray(S, float)
        self.cons.append((lambda w: float(w @ S @ w - cap), lambda w: 2 * S @ w))
        self.only_quad = False
        return self

    def cap_semivar(self, R, bench, freq, cap):
        self.cons.append((lambda w: semivariance(R, w, bench, freq) - cap, lambda w: semivar_grad(R, w, bench, freq)))
        self.only_quad = False
        return self

    # evaluation --------------------------------------------------------
    def value(self, w):
        v = sum(f(w) for f, _ in self.smooth)
        for kind, A, par, cap in self.lifts:
            if kind == "l1":
                v += par * np.abs(w - A).sum()
            elif cap is None:
                v += par[1] * (cvar(-A @ w, par[0]) if kind == "cvar" else cdar(A @ w, par[0]))
        return float(v)

    def violation(self, w):
        v = self.P.infeasibility(w)
        for f, _ in self.cons:
            v = max(v, f(w))
        for kind, A, par, cap in self.lifts:
            if cap is not None:
                v = max(v, (cvar(-A @ w, par[0]) if kind == "cvar" else cdar(A @ w, par[0])) - cap)
        return float(v)

    def _lifted(self, w):
        """Polytope over (w, extras), the point above w, the gradient, the convex constraints."""
        n = self.n
        rowsG, rhs, pt, grad = [], [], [np.asarray(w, float)], [sum((g(w) for _, g in self.smooth), np.zeros(n))]
        size = n
        blocks = []
        for kind, A, par, cap in self.lifts:
            if kind == "l1":
                ext = n
                M = np.zeros((2 * n, n + ext))
                M[:n, :n], M[:n, n:] = np.eye(n), -np.eye(n)
                M[n:, :n], M[n:, n:] = -np.eye(n), -np.eye(n)
                b = np.concatenate([A, -A])
                x = np.abs(w - A)
                c = np.full(n, par)
            else:
                beta, coef = par
                T = len(A)
                if kind == "cvar":
                    loss = -A @ w
                    a = min(loss, key=lambda t: t + np.maximum(loss - t, 0).sum() / (T * (1 - beta)))
                    ext = 1 + T
                    M = np.zeros((2 * T, n + ext))
                    M[:T, :n], M[:T, n], M[:T, n + 1:] = -A, -1, -np.eye(T)
                    M[T:, n + 1:] = -np.eye(T)
                    x = np.concatenate([[a], np.maximum(loss - a, 0)])
                    c = np.concatenate([[1.0], np.full(T, 1 / (T * (1 - beta)))])
                else:
                    C = np.vstack([np.zeros(n), np.cumsum(A, axis=0)])
                    dd = drawdowns(A @ w)
                    a = min(dd, key=lambda t: t + np.maximum(dd - t, 0).sum() / (T * (1 - beta)))
                    ext = 1 + 2 * T
                    if T > LONG:
                        M, c = cdar_rows(A, beta)
                        x, c = np.concatenate([[a], dd + C[1:] @ w, np.maximum(dd - a, 0)]), c[n:]
                    else:
                        rows = []
                        for t in range(1, T + 1):
                            for s in range(0, t + 1):
                                r = np.zeros(n + ext)
                                r[:n], r[n + t] = C[s] - C[t], -1
                                rows.append(r)
                            r = np.zeros(n + ext)
                            r[n + t], r[n], r[n + T + t] = 1, -1, -1
                            rows.append(r)
                            r = np.zeros(n + ext)
                            r[n + T + t] = -1
                            rows.append(r)
                        M = np.array(rows)
                        x = np.concatenate([[a], dd, np.maximum(dd - a, 0)])
                        c = np.concatenate([[1.0], np.zeros(T), np.full(T, 1 / (T * (1 - beta)))])
                b = np.zeros(len(M))
                if cap is not None:
                    M = np.vstack([M, np.concatenate([np.zeros(n), c])])
                    b = np.append(b, cap)
                    c = np.zeros(ext)
                else:
                    c = coef * c
            blocks.append((M, b, size, ext))
            size += ext
            pt.append(x)
            grad.append(c)
        Gs = [np.hstack([self.P.G, np.zeros((len(self.P.h), size - n))])]
        hs = [self.P.h]
        for M, b, off, ext in blocks:
            R = np.zeros((len(M), size))
            R[:, :n] = M[:, :n]
            R[:, off:off + ext] = M[:, n:]
            Gs.append(R)
            hs.append(b)
        big = Poly(size)
        big.G, big.h = np.vstack(Gs), np.concatenate(hs)
        big.Aeq, big.beq = np.hstack([self.P.Aeq, np.zeros((len(self.P.beq), size - n))]), self.P.beq
        q = [np.concatenate([g(w), np.zeros(size - n)]) for _, g in self.cons]
        slack = [-f(w) for f, _ in self.cons]
        return big, np.concatenate(pt), np.concatenate(grad), q, slack

    def certificate(self, w):
        big, x, g, q, slack = self._lifted(w)
        return certificate(big, x, g, q, slack)

    def bound(self, w, enough=1e-7):
        """Upper bound on value(w) - minimum (0 if w is exactly optimal)."""
        w = np.asarray(w, float)
        b = self.certificate(w)
        if b <= enough:
            return max(b, 0.0)
        if self.only_quad:
            # refine: the exact stationary point of the face suggested by w, itself certified
            for thr in (1e-6, 1e-5, 1e-4, 1e-3):
                x = _face_point(self.quad[0], self.quad[1], self.P, w, thr)
                if x is not None and self.P.infeasibility(x) <= 1e-9:
                    b = min(b, self.value(w) - self.value(x) + max(self.certificate(x), 0.0))
                    if b <= enough:
                        return max(b, 0.0)
            if self.n <= 4 and len(self.P.h) <= 16:
                v, _ = qp_min(self.quad[0], self.quad[1], self.P)
                if v < INF:
                    const = self.value(w) - (0.5 * w @ self.quad[0] @ w + self.quad[1] @ w)
                    b = min(b, self.value(w) - (v + const))
        return max(b, 0.0)


def certificate(poly, x, g, q=(), slack=()):
    """min over multipliers of the weak-duality gap at x (see module docstring)."""
    m, k, r = len(poly.h), len(poly.beq), len(q)
    cost = np.concatenate([[s + qi @ x for s, qi in zip(slack, q)], poly.h, poly.beq]) if r + m + k else np.zeros(0)
    A = np.hstack([np.array(q).T.reshape(poly.n, r), poly.G.T, poly.Aeq.T])
    res = linprog(cost, A_eq=A, b_eq=-g, bounds=[(0, None)] * (r + m) + [(None, None)] * k, method="highs",
                  options={"primal_feasibility_tolerance": 1e-10, "dual_feasibility_tolerance": 1e-10})
    if res.status != 0:
        return INF
    return float(res.fun + g @ x)


def _face_point(Q, c, P, w, thr):
    act = np.where(P.h - P.G @ w <= thr)[0] if len(P.h) else np.array([], int)
    A = np.vstack([P.Aeq, P.G[act]])
    b = np.concatenate([P.beq, P.h[act]])
    n, k = P.n, len(b)
    K = np.zeros((n + k, n + k))
    K[:n, :n], K[:n, n:], K[n:, :n] = Q, A.T, A
    sol = np.linalg.lstsq(K, np.concatenate([-c, b]), rcond=1e-12)[0]
    return sol[:n]


# ------------------------------------------------------- building instances
def bounds_of(spec, n):
    """('pair', lo, hi) | ('each', [[lo,hi],...]) -> (lb, ub) arrays as documented (None in a pair: -1/1)."""
    if spec[0] == "pair":
        lo, hi = spec[1], spec[2]
        return np.full(n, -1.0 if lo is None else lo), np.full(n, 1.0 if hi is None else hi)
    lo = np.array([-INF if b[0] is None else b[0] for b in spec[1]], float)
    hi = np.array([INF if b[1] is None else b[1] for b in spec[1]], float)
    return lo, hi


def bounds_arg(spec):
    if spec[0] == "pair":
        return (spec[1], spec[2])
    return [tuple(b) for b in spec[1]]


def poly_of(n, spec, cons=(), total=1.0, market_neutral=False, tickers=None):
    lb, ub = bounds_of(spec, n)
    if market_neutral and not (lb < 0).any():
        lb, ub = np.full(n, -1.0), np.full(n, 1.0)
    P = Poly(n, lb, ub, Aeq=[np.ones(n)], beq=[0.0 if market_neutral else total])
    for con in cons:
        kind = con[0]
        if kind == "sector":
            _, mapper, lower, upper = con
            for s, v in upper.items():
                P = P.plus(G=np.array([1.0 if mapper.get(str(t)) == s else 0.0 for t in tickers]), h=v)
            for s, v in lower.items():
                P = P.plus(G=-np.array([1.0 if mapper.get(str(t)) == s else 0.0 for t in tickers]), h=-v)
            continue
        if kind in ("norm", "variance"):  # not polyhedral: see convex_caps
            continue
        if kind in ("turnover", "turnover_sum", "gross"):
            w0 = np.zeros(n) if kind == "gross" else np.array(con[1], float)
            sg = np.array(list(itertools.product((-1.0, 1.0), repeat=n)))
            P = P.plus(G=sg, h=con[-1] + sg @ w0)
            continue
        if kind == "within":
            w0 = np.array(con[1], float)
            P = P.plus(G=np.vstack([np.eye(n), -np.eye(n)]), h=np.concatenate([w0 + con[2], con[2] - w0]))
            continue
        if kind == "largest":
            rows = np.array([[1.0 if i in c else 0.0 for i in range(n)] for c in itertools.combinations(range(n), con[1])])
            P = P.plus(G=rows, h=np.full(len(rows), con[2]))
            continue
        if kind == "vec_le":
            P = P.plus(G=np.eye(n), h=np.array(con[1], float))
            continue
        if kind == "vec_ge":
            P = P.plus(G=-np.eye(n), h=-np.full(n, float(con[1])))
            continue
        a, b = np.array(con[1], float), float(con[2])
        if kind.startswith("le"):
            P = P.plus(G=a, h=b)
        elif kind.startswith("ge"):
            P = P.plus(G=-a, h=-b)
        elif kind.startswith("eq"):
            P = P.plus(Aeq=a, beq=b)
        else:
            raise KeyError(kind)
    return P


def convex_caps(cons, S=None):
    """(matrix, cap) of the constraints w'Aw <= cap"""
    return [(np.asarray(S, float) if c[0] == "variance" else np.eye(c[2]), float(c[1])) for c in cons if c[0] in ("norm", "variance")]


def constraint_lambda(con):
    """The user's spelling of a constraint; several equivalent spellings of each."""
    import cvxpy as cp

    kind = con[0]
    if kind == "norm":  # the cap is on the squared norm
        return {"norm": lambda w: cp.norm(w) <= con[1] ** .5, "squares": lambda w: cp.sum_squares(w) <= con[1], "reverse": lambda w: con[1] >= cp.sum_squares(w)}[con[3]]
    if kind == "variance":
        S = np.array(con[2], float)
        return {"quad_form": lambda w: cp.quad_form(w, S) <= con[1], "moved": lambda w: cp.quad_form(w, S) - con[1] <= 0}[con[3]]
    if kind == "turnover":
        return lambda w: cp.norm(w - np.array(con[1], float), 1) <= con[2]
    if kind == "turnover_sum":
        return lambda w: con[2] >= cp.sum(cp.abs(w - np.array(con[1], float)))
    if kind == "gross":
        return lambda w: cp.norm(w, 1) <= con[1]
    if kind == "within":
        return lambda w: cp.abs(w - np.array(con[1], float)) <= con[2]
    if kind == "largest":
        return lambda w: cp.sum_largest(w, con[1]) <= con[2]
    if kind == "vec_le":
        return lambda w: w <= np.array(con[1], float)
    if kind == "vec_ge":
        return lambda w: w >= con[1]
    a, b = np.array(con[1], float), float(con[2])
    pos, neg = np.maximum(a, 0), np.maximum(-a, 0)
    one = np.flatnonzero(a)
    if kind == "le":
        return lambda w: w @ a <= b
    if kind == "ge":
        return lambda w: w @ a >= b
    if kind == "eq":
        return lambda w: w @ a == b
    if kind == "le_i":  # a is a unit vector
        return lambda w: w[int(one[0])] <= b
    if kind == "ge_i":
        return lambda w: w[int(one[0])] >= b
    if kind == "eq_i":
        return lambda w: w[int(one[0])] == b
    if kind == "le_par":  # the limit is the user's own parameter
        limit = cp.Parameter(value=b, name=con[3])
        return lambda w: w @ a <= limit
    if kind == "ge_par":
        limit = cp.Parameter(value=b, name=con[3])
        return lambda w: limit <= w @ a
    if kind == "le_rev":
        return lambda w: b >= cp.sum(cp.multiply(a, w))
    if kind == "ge_rev":
        return lambda w: b <= w @ a
    if kind == "le_off":
        return lambda w: w @ a - b <= 0
    if kind == "ge_off":
        return lambda w: w @ a - b >= 0
    if kind == "eq_off":
        return lambda w: w @ a - b == 0
    if kind == "le_two":
        return lambda w: w @ pos <= w @ neg + b
    if kind == "ge_two":
        return lambda w: w @ pos >= w @ neg + b
    if kind == "eq_two":
        return lambda w: w @ pos == w @ neg + b
    raise KeyError(kind)


def add_constraints(ctx, opt, cons):
    for con in cons:
        if con[0] == "sector":
            mapper = {t: con[1][str(t)] for t in opt.tickers if str(t) in con[1]}
            ctx.step(["sector", con[1:]], opt.add_sector_constraints, mapper, dict(con[2]), dict(con[3]))
        else:
            ctx.step(["constraint", con], opt.add_constraint, constraint_lambda(con))


def parametrised_l2(w, weight, name):
    import cvxpy as cp

    return cp.Parameter(value=weight, name=name, nonneg=True) * cp.sum_squares(w)


def add_objectives(ctx, opt, objs, S=None):
    from pypfopt import objective_functions as of

    for o in objs:
        if o[0] == "l2":
            kw = {} if o[1] == 1 else {"gamma": o[1]}
            ctx.step(["objective", o], opt.add_objective, of.L2_reg, **kw)
        elif o[0] == "tc":
            kw = {"w_prev": np.array(o[1], float)}
            if o[2] != 0.001:
                kw["k"] = o[2]
            ctx.step(["objective", o], opt.add_objective, of.transaction_cost, **kw)
        elif o[0] == "l2par":  # the weight is the user's own parameter
            ctx.step(["objective", o], opt.add_objective, parametrised_l2, weight=o[1], name=o[2])
        elif o[0] == "te":
            ctx.step(["objective", o], opt.add_objective, of.ex_ante_tracking_error, cov_matrix=S, benchmark_weights=np.array(o[1], float))
        else:
            raise KeyError(o[0])


def model_objectives(m, objs, S=None):
    for o in objs:
        if o[0] in ("l2", "l2par"):
            m.quadratic(np.eye(m.n), o[1])
        elif o[0] == "tc":
            m.l1(o[1], o[2])
        elif o[0] == "te":
            m.quadratic(S, 1.0, centre=o[1])
    return m


def weights_of(ctx, opt, res, what):
    """The returned mapping is labelled by asset in order and agrees with the stored weights."""
    ctx.require(list(res.keys()) == list(opt.tickers), f"{what}: result is not labelled by the assets", got=list(res.keys()))
    w = np.array([res[t] for t in opt.tickers], float)
    ctx.close(w, opt.weights, 1e-12, f"{what}: returned and stored weights differ")
    ctx.require(np.isfinite(w).all(), f"{what}: weights are not finite", w=w)
    return w
