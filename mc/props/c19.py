"""C19 discrete allocation: whole shares, budgets respected, every unit of money accounted for."""
import itertools

import numpy as np
import pandas as pd

import data
from allocation import account, make, mapping, price_series
from engine import Family
from pypfopt.discrete_allocation import get_latest_prices

METHODS = {"greedy": "greedy_portfolio", "lp": "lp_portfolio"}


def call(da, op):
    kw = {}
    if op[1]:
        kw["reinvest"] = True
    if len(op) > 2 and op[2]:
        kw["verbose"] = True
    return getattr(da, METHODS[op[0]])(**kw)


def run(case, ctx):
    for op in case["calls"]:
        weights, prices = mapping(case), price_series(case)
        w0, p0 = dict(weights), prices.copy(deep=True)
        da = make(case, ctx, weights, prices)
        alloc, left = ctx.step(op, call, da, op)
        ctx.require(weights == w0 and list(weights) == list(w0) and prices.equals(p0) and prices.dtype == p0.dtype, "the caller's weights or prices were changed")
        account(ctx, case, alloc, left, op[1], "/".join(map(str, op)))
        ctx.require(da.allocation == alloc, "stored and returned allocations differ")
        ctx.outcome(f"{op[0]}/{len(alloc)}")


def run_hist(case, ctx):
    """Repeated and mixed requests on one object give what a fresh object gives."""
    weights, prices = mapping(case), price_series(case)
    da = make(case, ctx, weights, prices)
    for op in case["ops"]:
        alloc, left = ctx.step(op, call, da, op)
        fresh, fleft = call(make(case, ctx), op)
        _, x = account(ctx, case, alloc, left, op[1], f"history/{op[0]}")
        if op[0] == "greedy":
            ctx.require(dict(alloc) == dict(fresh), "an earlier request changed the greedy allocation", got=dict(alloc), want=dict(fresh))
        ctx.require(da.allocation == alloc, "stored and returned allocations differ")
        got, want = quality(case, alloc, left, op[1]), quality(case, fresh, fleft, op[1])
        ctx.close(got, want, 1e-6, "an earlier request changed the quality of the allocation")
    ctx.require(weights == mapping(case) and prices.equals(price_series(case)), "the caller's weights or prices were changed")
    ctx.outcome(len(case["ops"]))


def quality(case, alloc, left, reinvest):
    from allocation import parts
    tot = 0.0
    for tick, w, p, val, sign in parts(case, reinvest):
        tot += sum(abs(a * val - abs(alloc.get(k, 0)) * b) for k, a, b in zip(tick, w, p))
    return tot + float(left)


def run_latest(case, ctx):
    rows = [[np.nan if x is None else x for x in r] for r in case["rows"]]
    lab = data.names(len(rows[0]), case["names"])
    frame = pd.DataFrame(rows, columns=lab, index=pd.date_range("2021-01-01", periods=len(rows)), dtype=float)
    before = frame.copy(deep=True)
    got = ctx.step("get_latest_prices", get_latest_prices, frame)
    ctx.require(frame.equals(before), "the price table was changed")
    ctx.require(list(got.index) == lab, "prices are labelled wrongly")
    want = []
    for j in range(len(lab)):
        col = [r[j] for r in rows if r[j] == r[j]]
        want.append(col[-1] if col else np.nan)
    ctx.close(got.values, want, 0, "not the most recent price")
    ctx.outcome(sum(x == x for x in want))


def run_refuse(case, ctx):
    w, p = mapping(case), price_series(case)
    tag, val = ctx.attempt("init", make, case, ctx)
    ctx.require(tag == "err" and isinstance(val, (ValueError, TypeError)), "an invalid request was accepted")
    ctx.outcome("refused")


def families(tier):
    deep = tier == "thorough"
    out = []
    ws = [[.5, .5], [.3, .7], [.9, .1], [1 / 3, 2 / 3], [0, 1], [.25, .5], [.7, -.3], [1.3, -.3], [-.5, 1], [.5, -.5], [1, -1]]
    cases = []
    for w, p, V in itertools.product(ws, itertools.product([7, 10, 33.3, 250], repeat=2), [100, 999.5]):
        calls = [["greedy", False], ["greedy", True]] + ([["lp", False], ["lp", True]] if V == 100 or deep else [])
        cases.append({"w": w, "p": list(p), "V": V, "calls": calls})
    out.append(Family("two-assets", cases, run, "11 weight vectors (long only, part invested, long/short) x every price pair over {7,10,33.3,250} x 2 values x greedy/LP, with and without reinvestment", chunk=8))
    shorts = []
    for w in ([.8, -.2, .4], [-.3, .6, .7], [.5, -.2, -.3], [1, 0, -1], [.6, .6, -.2, 0], [-.1, -.2, .8, .5]):
        for p in ([3, 8, 19], [20.5, 4.25, 77]):
            for ratio in (None, 0, .3, 1, 2.5):
                for V in (500, 5000):
                    for order in ("same", "reversed", "extra"):
                        pp = p + [11.0] * (len(w) - 3)
                        calls = [[m, r] for m in ("greedy", "lp") for r in (False, True)]
                        if order != "same" or (V != 500 and not deep):
                            calls = calls[:2]
                            if order == "extra" and V == 500:
                                calls += [["lp", True]]
                        shorts.append({"w": w, "p": pp, "V": V, "ratio": ratio, "order": order, "calls": calls})
    out.append(Family("short-ratio", shorts, run, "6 long/short portfolios x 2 price vectors x short ratios {default,0,.3,1,2.5} x values x price-series order (same, reversed, extra assets) x reinvestment", chunk=6))
    forms = []
    for names in ("str", "int"):
        for p in ([12, 7, 31], [12.5, 7.1, 31.0]):
            for V in (None, 1000, 57.3):
                for order in ("same", "reversed", "extra"):
                    for w in ([.2, .5, .3], [.4, -.1, .7], [1 / 3, 1 / 3, 1 / 3]):
                        c = {"w": w, "p": p, "names": names, "order": order, "calls": [["greedy", False], ["greedy", True, True]] + ([["lp", False, True]] if V else [])}
                        if V:
                            c["V"] = V
                        forms.append(c)
    out.append(Family("forms", forms, run, "string/integer tickers, integer/float prices, default/explicit value, price order, verbose output", chunk=6))
    rounded = []
    for n in range(2, 13):
        for d in (2, 3, 5):
            w = [round(1 / n, d)] * n
            rounded.append({"w": w, "p": [1 + i % 3 for i in range(n)], "V": 10 ** d, "calls": [["greedy", False]]})
            w = [round((2 * i + 1) / n ** 2 + 0.49 * 10 ** -d, d) for i in range(n)]
            rounded.append({"w": w, "p": [1.0] * n, "V": 10 ** d, "calls": [["greedy", False]]})
    for n in (15, 30, 45):
        w = [round((i + 1) / (n * (n + 1) / 2), 5) for i in range(n)]
        for V in (1000, 20000):
            rounded.append({"w": w, "p": [5 + (37 * i) % 90 + .25 for i in range(n)], "V": V, "calls": [["greedy", False]]})
    out.append(Family("rounded", rounded, run, "rounded weights that add up to slightly less or more than one, up to 45 assets", chunk=8))
    small = [dict(c, calls=[["greedy", False], ["greedy", True]] + ([["lp", False]] if c["V"] < 1e6 else [])) for c in data.small_positions((1e4, 1e5, 1e6, 1e7))]
    out.append(Family("small-positions", small, run, "positions of a tenth of a percent down to four millionths, worth several shares", chunk=2))
    scale = []
    for w, p in (([.5, .3, .2], [12.5, 7.1, 31.0]), ([.6, .7, -.3], [12.5, 7.1, 31.0]), ([.25, .5, .25], [450.0, 3.2, 77.7])):
        for ps in (1e-4, .01, 1, 100, 1e4):
            for V in (1, 10, 1000, 54321, 1e6, 1e8):
                if V / (ps * min(p)) < 3e6:
                    scale.append({"w": w, "p": [x * ps for x in p], "V": V, "calls": [["greedy", False], ["greedy", True]] + ([["lp", False]] if 1 <= V / ps < 1e6 and ps >= .01 else [])})
    out.append(Family("scale", scale, run, "values from 1 to 100 million and prices from hundredths of a cent to millions", chunk=2))
    depth = 4 if deep else 3
    alphabet = [["greedy", False], ["greedy", True], ["lp", False], ["lp", True]]
    hist = []
    for base in ({"w": [.2, .5, .3], "p": [12.0, 7.0, 31.0], "V": 200}, {"w": [.4, -.3, .9], "p": [3.0, 8.0, 19.0], "V": 150, "ratio": .5}):
        for k in range(1, depth + 1):
            for ops in itertools.product(alphabet, repeat=k):
                hist.append(dict(base, ops=list(ops)))
    out.append(Family("histories", hist, run_hist, f"every sequence of <= {depth} greedy/LP requests with and without reinvestment on one object", chunk=4))
    latest = [{"rows": [list(f[2 * t:2 * t + 2]) for t in range(len(f) // 2)], "names": nm}
              for T in (1, 2, 3, 4 if deep else 3) for f in itertools.product([5, 9.5, None], repeat=2 * T) for nm in (("str", "int") if T < 3 else ("str",))]
    out.append(Family("latest-prices", latest, run_latest, "every two-asset price table over {5, 9.5, missing} with <= %d rows" % (4 if deep else 3), chunk=120))
    nan = float("nan")
    bad = [{"w": [.5, .5], "p": [1.0, 2.0], "V": 0}, {"w": [.5, .5], "p": [1.0, 2.0], "V": -5}, {"w": [.5, nan], "p": [1.0, 2.0]}, {"w": [.5, .5], "p": [1.0, nan]},
           {"w": [.5, -.5], "p": [1.0, 2.0], "ratio": -.1}]
    out.append(Family("invalid", bad, run_refuse, "non-positive values, missing weights or prices, negative short ratio"))
    return out
