"""Reference model and driver shared by the discrete-allocation properties (C19, C20, C21)."""
import math
from fractions import Fraction as F

import numpy as np
import pandas as pd

import data
from pypfopt import DiscreteAllocation


def mapping(case):
    n = len(case["w"])
    lab = data.names(n, case.get("names", "str"))
    return dict(zip(lab, case["w"]))


def price_series(case):
    lab = list(mapping(case))
    s = pd.Series(case["p"], index=lab)
    order = case.get("order", "same")
    if order == "reversed":
        s = s.iloc[::-1]
    elif order == "extra":
        s = pd.concat([pd.Series([3.5], index=["zz" if isinstance(lab[0], str) else 999]), s.iloc[::-1]])
    return s


def make(case, ctx, weights=None, prices=None):
    kw = {}
    if "V" in case:
        kw["total_portfolio_value"] = case["V"]
    if case.get("ratio") is not None:
        kw["short_ratio"] = case["ratio"]
    w = mapping(case) if weights is None else weights
    p = price_series(case) if prices is None else prices
    return ctx.step("init", DiscreteAllocation, w, p, **kw)


def parts(case, reinvest):
    """[(tickers, normalised weights, prices, value, sign)] of the sub-portfolios, as documented."""
    w, V = mapping(case), case.get("V", 10000)
    p = dict(zip(w, case["p"]))
    if all(x >= 0 for x in w.values()):
        t = list(w)
        return [(t, [w[k] for k in t], [p[k] for k in t], float(V), 1)]
    shorts = sum(-x for x in w.values() if x < 0)
    ratio = shorts if case.get("ratio") is None else case["ratio"]
    out = []
    for sign, pick in ((1, [k for k in w if w[k] >= 0]), (-1, [k for k in w if w[k] < 0])):
        tot = sum(abs(w[k]) for k in pick)
        val = V * ratio if sign < 0 else (V * (1 + ratio) if reinvest else float(V))
        if val > 0:
            out.append((pick, [abs(w[k]) / tot for k in pick], [p[k] for k in pick], val, sign))
    return out


def account(ctx, case, alloc, left, reinvest, what):
    """Whole shares, nothing overspent, nothing lost.  Returns the share vector of each part."""
    P = parts(case, reinvest)
    known = {t for t, *_ in [(k,) for part in P for k in part[0]]}
    ctx.require(set(alloc) <= known, f"{what}: shares of an asset that is not in the (allocated part of the) portfolio", got=dict(alloc))
    spent_total, vectors, budget = 0.0, [], 0.0
    for tick, w, p, val, sign in P:
        x = []
        for k in tick:
            v = alloc.get(k, 0)
            ctx.require(float(v) == int(v) and isinstance(v, (int, np.integer)), f"{what}: not a whole number of shares", asset=k, got=v)
            ctx.require(k not in alloc or v * sign > 0, f"{what}: wrong sign or a zero position", asset=k, got=v)
            x.append(abs(int(v)))
        spent = sum(a * b for a, b in zip(x, p))
        ctx.small(spent - val, 1e-6 * max(1, val), f"{what}: more is spent than the sub-portfolio's value", spent=spent, value=val)
        spent_total += spent
        budget += val
        vectors.append(x)
    ctx.small(abs(spent_total + float(left) - budget), 1e-9 * max(1, budget), f"{what}: shares and leftover do not add up to the portfolio value",
              spent=spent_total, leftover=left, value=budget)
    return P, vectors


EPS = F(1, 10 ** 9)


def greedy_outcomes(w, p, V, limit=4000):
    """Every share vector the documented greedy rule can produce; several only where amounts tie to
    within 1e-9 (the documentation does not say how ties are broken).  None: too many.

    Round 1: as many whole shares as the target value of each asset allows, largest weight first and
    never more than the cash left.  Round 2: one share at a time of the affordable asset that is
    furthest below its target share of the invested value, until none below target is affordable.
    """
    n = len(w)
    w, p, V = [F(float(x)) for x in w], [F(float(x)) for x in p], F(float(V))
    start = {()}
    order = sorted(range(n), key=lambda i: -w[i])
    first = set()

    def choose(i, cash):
        q = w[i] * V / p[i]
        opts = {math.floor(q), math.floor(q + EPS), math.floor(q - EPS) if q - EPS >= 0 else math.floor(q)}
        c = cash / p[i]
        lim = {math.floor(c), math.floor(c + EPS)}
        return {min(o, m) for o in opts for m in lim}

    def rec(k, x, cash):
        if k == n:
            first.add(tuple(x))
            return
        for q in choose(order[k], cash):
            y = list(x)
            y[order[k]] = q
            rec(k + 1, y, cash - q * p[order[k]])

    rec(0, [0] * n, V)
    if len(first) > 64:
        return None
    seen, todo, final = set(first), list(first), set()
    while todo:
        if len(seen) > limit:
            return None
        x = todo.pop()
        inv = sum(a * b for a, b in zip(x, p))
        cash = V - inv
        if cash <= EPS * V:
            final.add(x)
            if cash <= 0:
                continue
        if inv > 0:
            deficit = [w[i] - x[i] * p[i] / inv for i in range(n)]
        else:  # nothing bought yet: the target itself
            deficit = list(w)
        can = [i for i in range(n) if p[i] <= cash + EPS * V and deficit[i] > -EPS]
        if not can:
            final.add(x)
            continue
        top = max(deficit[i] for i in can)
        if top <= EPS:
            final.add(x)
        for i in can:
            if deficit[i] >= top - EPS and deficit[i] > -EPS:
                if p[i] > cash - EPS * V:  # exactly (un)affordable
                    final.add(x)
                y = x[:i] + (x[i] + 1,) + x[i + 1:]
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
    return final
