"""C02 expected-return estimators."""
import itertools
import math

import numpy as np
import pandas as pd

from engine import Family
from pypfopt import expected_returns as er
import data
from props.c01 import ref_returns

NA = float("nan")


def col(rows, j):
    return [r[j] for r in rows]


def ref_mean(x, compounding, freq):
    v = [a for a in x if a == a]
    if compounding:
        p = 1.0
        for a in v:
            p *= 1 + a
        return p ** (freq / len(v)) - 1
    return sum(v) / len(v) * freq


def ewm_last(x, span):
    a = 2.0 / (span + 1)
    num = den = 0.0
    T = len(x)
    for i, v in enumerate(x):
        if v == v:
            w = (1 - a) ** (T - 1 - i)
            num += w * v
            den += w
    return num / den


def ref_ema(x, compounding, freq, span):
    m = ewm_last(x, span)
    return (1 + m) ** freq - 1 if compounding else m * freq


def pair_cov(x, y):
    z = [(a, b) for a, b in zip(x, y) if a == a and b == b]
    mx, my = sum(a for a, _ in z) / len(z), sum(b for _, b in z) / len(z)
    return sum((a - mx) * (b - my) for a, b in z) / (len(z) - 1)


def ref_capm(cols, mkt, rf, compounding, freq):
    vm = pair_cov(mkt, mkt)
    mean = ref_mean(mkt, compounding, freq)
    return [rf + pair_cov(c, mkt) / vm * (mean - rf) for c in cols]


def day(case, k):
    """The k-th label of the calendar (it may lie before or after the assets' history)."""
    return pd.Timestamp("2021-02-01") + pd.Timedelta(days=k) if case.get("index") == "date" else k


def table(case):
    rows = [[NA if x is None else float(x) for x in r] for r in data.rows(case)]
    n = len(rows[0])
    pos = case.get("days", list(range(len(rows))))
    idx = [day(case, k) for k in pos]
    frame = pd.DataFrame(rows, columns=data.names(n, case.get("names", "str")), index=idx)
    if case["returns_data"]:
        ref = rows
    else:
        _, ref = ref_returns(rows, case["log"])
    return frame, ref


def kwargs_of(case):
    kw = {"returns_data": case["returns_data"], "compounding": case["compounding"], "frequency": case["freq"]}
    if case["log"]:
        kw["log_returns"] = True
    return kw


def valid(case, need=1):
    frame, ref = table(case)
    if not ref:
        return False
    for j in range(len(ref[0])):
        c = [x for x in col(ref, j) if x == x]
        if len(c) < need:
            return False
        if case["compounding"]:
            p = 1.0
            for x in c:
                p *= 1 + x
            if p < 0 or any(1 + x < 0 for x in c):
                return False
    return True


def unit(case, want):
    """Small results are compared on their own scale (the rounding of (1 + r) ** frequency - 1 permitting)."""
    return max(float(np.abs(want).max()), 1e-9) if "tol" in case else 1.0


def run(case, ctx):
    frame, ref = table(case)
    n = len(ref[0])
    kw = kwargs_of(case)
    want = {
        "mean_historical_return": [ref_mean(col(ref, j), case["compounding"], case["freq"]) for j in range(n)],
        "ema_historical_return": [ref_ema(col(ref, j), case["compounding"], case["freq"], case["span"]) for j in range(n)],
    }
    for name, w in want.items():
        k = dict(kw)
        if name.startswith("ema"):
            k["span"] = case["span"]
        arg = frame.values if case["form"] == "array" else frame
        before = frame.copy(deep=True)
        for via in ("direct", "by-name"):
            if via == "direct":
                got = ctx.step(name, getattr(er, name), arg, **k)
            else:
                got = ctx.step("return_model:" + name, er.return_model, arg, method=name, **k)
            ctx.require(isinstance(got, pd.Series), "result is not a Series")
            ctx.require(list(got.index) == (list(frame.columns) if case["form"] != "array" else list(range(n))),
                        f"{name}: labels", got=list(got.index))
            u = unit(case, w)
            ctx.close(got.values / u, np.array(w) / u, case.get("tol", 1e-10), f"{name} ({via}) differs from its definition")
            ctx.require(frame.equals(before), f"{name} changed its input")
    if case.get("default"):
        got = ctx.step("return_model", er.return_model, frame, **kw)
        ctx.close(got.values, want["mean_historical_return"], 1e-10, "return_model default")
    ctx.outcome("ok")


def run_capm(case, ctx):
    frame, ref = table(case)
    n = len(ref[0])
    kw = kwargs_of(case)
    kw["risk_free_rate"] = case["rf"]
    mk = case.get("market")
    # reference market series aligned on the asset-return dates
    if case["returns_data"]:
        dates = list(frame.index)
    else:
        raw = [[NA if x is None else float(x) for x in r] for r in data.rows(case)]
        keep, _ = ref_returns(raw, case["log"])
        dates = [frame.index[t] for t in keep]
    market = None
    if mk is None:
        mkt = []
        for r in ref:
            v = [x for x in r if x == x]
            mkt.append(sum(v) / len(v) if v else NA)
    else:
        pos, vals = mk["pos"], [float(v) for v in mk["vals"]]
        mdates = [day(case, p) for p in pos]
        market = pd.DataFrame({"SPY": vals}, index=mdates)
        if case["returns_data"]:
            series = dict(zip(mdates, vals))
        else:
            keep, r = ref_returns([[v] for v in vals], case["log"])
            series = {mdates[t]: x[0] for t, x in zip(keep, r)}
        mkt = [series.get(d, NA) for d in dates]
    want = ref_capm([col(ref, j) for j in range(n)], mkt, case["rf"], case["compounding"], case["freq"])
    snap = None if market is None else market.copy(deep=True)
    before = frame.copy(deep=True)
    for via in ("direct", "by-name"):
        args = {} if market is None else {"market_prices": market}
        if via == "direct":
            got = ctx.step("capm_return", er.capm_return, frame, **args, **kw)
        else:
            got = ctx.step("return_model:capm_return", er.return_model, frame, method="capm_return", **args, **kw)
        ctx.require(list(got.index) == list(frame.columns), "capm_return: labels", got=list(got.index))
        u = unit(case, want)
        ctx.close(got.values / u, np.array(want) / u, max(case.get("tol", 0), 1e-9), f"capm_return ({via}) differs from rf + beta*(E[mkt]-rf)")
        ctx.require(frame.equals(before), "capm_return changed its input prices")
        if snap is not None:
            ctx.require(market.equals(snap) and list(market.columns) == list(snap.columns),
                        "capm_return changed the market data it was given")
    if market is not None and case.get("series"):
        got = ctx.step("capm_return:series", er.capm_return, frame, market_prices=market["SPY"], **kw)
        ctx.close(got.values, want, 1e-9, "capm_return with the market given as a Series")
    ctx.outcome("ok")


def capm_ok(case, spread=1e-9):
    frame, ref = table(case)
    if len(ref) < 3:
        return False
    mk = case.get("market")
    if mk is None:
        m = [sum(r) / len(r) for r in ref if all(x == x for x in r)]
        if len(m) < 2 or max(m) - min(m) < spread:
            return False
    return True


def families(tier):
    deep = tier == "thorough"
    out = []
    # 1. every single column
    one = []
    for T in range(2, 6 if deep else 5):
        for c in itertools.product([1, 2, 0.5, None], repeat=T):
            for comp in (True, False):
                for log in (False, True):
                    one.append({"rows": [[x, 1 + t] for t, x in enumerate(c)], "returns_data": False, "log": log,
                                "compounding": comp, "freq": 3 if T % 2 else 2, "span": 3, "form": "frame"})
    out.append(Family("price-columns", [c for c in one if valid(c)], run,
                      "every price column over {1,2,.5,missing}, length <= %d" % (5 if deep else 4)))
    # 2. every two-column return table
    two = []
    for T in (1, 2, 3):
        for flat in itertools.product([0.1, -0.25, None], repeat=2 * T):
            rows = [list(flat[2 * t:2 * t + 2]) for t in range(T)]
            for comp in (True, False):
                two.append({"rows": rows, "returns_data": True, "log": False, "compounding": comp, "freq": 3, "span": 2,
                            "form": "frame" if T < 3 else "array", "default": True})
    out.append(Family("return-tables", [c for c in two if valid(c)], run, "every 2-column return table over {.1,-.25,missing}, <= 3 rows"))
    # 3. settings product on structured data
    sett = []
    for T, n in ((8, 3), (30, 5), (120, 12)):
        base = data.grid_returns(T, n)
        for miss in ("none", "lead", "mid", "last"):
            R = base.copy()
            if miss == "lead":
                R[:3, 0] = NA
            if miss == "mid":
                R[T // 2, 1] = NA
                R[T // 2 + 1, 1] = NA
            if miss == "last":
                R[-1, 2] = NA
            P = 100 * np.cumprod(1 + base, axis=0)
            P[np.isnan(R)] = NA
            for comp in (True, False):
                for freq in (1, 12, 52, 252):
                    for span in (2, 30, 500):
                        for rd, log in ((True, False), (False, False), (False, True)):
                            M = R if rd else P
                            sett.append({"rows": [[None if x != x else x for x in r] for r in M.tolist()], "returns_data": rd,
                                         "log": log, "compounding": comp, "freq": freq, "span": span,
                                         "form": "frame", "index": "date", "names": "int" if span == 30 else "str", "default": True})
    out.append(Family("settings", sett, run, "all (compounding, frequency, span, prices/returns, log) settings on structured tables with gaps", chunk=12))
    sizes = [(T, n) for T in ((3, 13, 64, 127, 253, 521, 1009, 2003) if deep else (3, 13, 127, 253, 1009)) for n in ((1, 2, 9, 17, 26, 41, 60) if deep else (2, 9, 26, 60)) if T * n < (60000 if deep else 12000)]
    bulk = [c for holes in (0, 5) for comp in (True, False) for k, z in enumerate(sizes) if z[0] > 5 or not holes
            for c in data.size_grid([z], holes=holes, compounding=comp, returns_data=bool((k + holes) % 2), log=k % 4 == 1 and not holes and not (k + holes) % 2, freq=(252, 52, 12)[k % 3], span=(500, 30)[k % 2],
                                    form="frame", index="date", default=True, rf=.01)]
    out.append(Family("sizes", bulk, run, "tables of every size over {3,13,127,253,1009} x {2,9,26,60} (thorough: up to 2003 x 60), with and without gaps", chunk=2))
    out.append(Family("capm-sizes", [c for c in bulk if c["grid"][1] > 1 and not c.get("holes")], run_capm, "the market-model estimator on the same sizes", chunk=2))
    scales = []
    for T, n in ((5, 2), (25, 3)):
        for mult in (1e-4, .01, 1, 20):
            R = mult * data.grid_returns(T, n)
            if R.min() <= -1:
                R = np.where(R <= -1, -.995, R)
            for rd in (True, False):
                M = R if rd else {1e-4: 1e-6, .01: 1e5, 1: 1e-3, 20: 1e7}[mult] * np.cumprod(1 + R, axis=0)
                for comp, freq, span, log in itertools.product((True, False), (1, 4, 252.5, 365, 8760), (1, 1.5, 9, 11, 365, 5000), (False, True)):
                    if (log and rd) or (comp and mult * freq > 400):
                        continue
                    scales.append({"rows": M.tolist(), "returns_data": rd, "log": log, "compounding": comp, "freq": freq, "span": span, "form": "frame", "tol": 1e-8})
    out.append(Family("scales", [c for c in scales if valid(c)], run, "returns from millionths to multiples, prices from 1e-6 to 1e7 x frequencies from 1 to 8760 x spans from 1 to 5000", chunk=20))
    out.append(Family("capm-scales", [dict(c, rf=rf) for c in scales if c["span"] == 1 for rf in (0, -.05, 1e-6, .5) if valid(c) and capm_ok(c, 1e-13)], run_capm, "the market model on the same tables x risk-free rates", chunk=20))
    # 4. CAPM
    capm = []
    for T in (3, 4):
        for flat in itertools.product([0.1, -0.25, 0.3], repeat=T):
            rows = [[flat[t], [0.05, -0.1, 0.2, 0.0][t]] for t in range(T)]
            for comp in (True, False):
                for rf in (0.0, 0.02):
                    capm.append({"rows": rows, "returns_data": True, "log": False, "compounding": comp, "freq": 2, "rf": rf})
                    capm.append({"rows": rows, "returns_data": True, "log": False, "compounding": comp, "freq": 2, "rf": rf,
                                 "market": {"pos": list(range(T)), "vals": [0.03, -0.02, 0.05, 0.01][:T]}})
    base = data.grid_returns(40, 4)
    P = (100 * np.cumprod(1 + base, axis=0))
    mk = (50 * np.cumprod(1 + data.grid_returns(40, 1, salt=5)[:, 0])).tolist()
    # every calendar of asset dates and market dates within six days
    for days in itertools.combinations(range(6), 4):
        for pos in itertools.chain(itertools.combinations(range(6), 4), itertools.combinations(range(6), 5), [tuple(range(6)), tuple(range(-1, 7))]):
            if len(set(days) & set(pos)) < 3:
                continue
            for comp in (True, False):
                vals = [[.03, -.02, .05, .01, -.04, .02, .06, -.01][p] for p in pos]
                rows = [[[.1, -.2, .3, .05, .15, -.1][d], [.02, .04, -.03, .01, .05, .0][d]] for d in days]
                capm.append({"rows": rows, "days": list(days), "returns_data": True, "log": False, "compounding": comp, "freq": 2, "rf": .01, "index": "date" if len(pos) % 2 else None,
                             "market": {"pos": list(pos), "vals": vals}})
    for gap in ("none", "asset", "market-short", "market-long", "market-holes"):
        rows = [[x for x in r] for r in P.tolist()]
        if gap == "asset":
            rows[10][1] = rows[11][1] = None
        pos = list(range(40))
        if gap == "market-short":
            pos = pos[5:]
        if gap == "market-long":
            pos = list(range(-6, 40))
        if gap == "market-holes":
            pos = [p for p in pos if p % 7]
        for comp in (True, False):
            for freq in (1, 252):
                for rf in (0.0, 0.03):
                    for log in (False, True):
                        b = {"rows": rows, "returns_data": False, "log": log, "compounding": comp, "freq": freq, "rf": rf, "index": "date"}
                        capm.append(b)
                        capm.append(dict(b, market={"pos": pos, "vals": [mk[p] if p >= 0 else 40.0 + p * p % 7 for p in pos]}, series=True))
    out.append(Family("capm", [c for c in capm if capm_ok(c)], run_capm,
                      "every asset column over 3 returns, length <= 4, own/equal-weight market; structured prices with gaps and a market on different dates, every calendar of 4 asset and 4-8 market dates", chunk=16))
    return out
