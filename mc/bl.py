"""Reference for the Black-Litterman model, independent of the implementation's form where possible."""
import numpy as np


def omega_of(spec, S, P, tau):
    """spec: 'default' | ['diag', [...]] | ['full', [[...]]] | ['conf', [...]]"""
    S, P = np.array(S, float), np.array(P, float)
    if spec == "default":
        return np.diag([tau * p @ S @ p for p in P])
    if spec[0] == "diag":
        return np.diag(np.array(spec[1], float))
    if spec[0] == "full":
        return np.array(spec[1], float)
    return np.diag([1e6 if c == 0 else tau * (1 - c) / c * (p @ S @ p) for c, p in zip(spec[1], P)])


def posterior(S, pi, Q, P, omega, tau):
    """(returns, covariance).  Inverse-precision form if everything is regular, else the conditional-normal form."""
    S, pi, Q, P = (np.array(x, float) for x in (S, pi, Q, P))
    C = tau * S
    if np.linalg.cond(S) < 1e6 and np.linalg.cond(omega) < 1e6:
        prec = np.linalg.inv(C) + P.T @ np.linalg.inv(omega) @ P
        M = np.linalg.inv(prec)
        return M @ (np.linalg.solve(C, pi) + P.T @ np.linalg.solve(omega, Q)), S + M
    A = P @ C @ P.T + omega
    d = np.sqrt(np.diag(A))  # uncertainties may differ by many orders of magnitude: compare ranks on equal scales
    d = np.where(d > 0, 1 / np.where(d > 0, d, 1), 1.0)
    G = C @ P.T @ (d[:, None] * np.linalg.pinv(A * np.outer(d, d), rcond=1e-10) * d)
    return pi + G @ (Q - P @ pi), S + C - G @ P @ C


def weights(S, rets):
    S = np.array(S, float)
    x = np.linalg.solve(S, rets) if np.linalg.cond(S) < 1e10 else np.linalg.pinv(S, rcond=1e-10) @ rets
    return x / x.sum(), abs(x.sum()) / np.abs(x).sum()
