"""C01 price <-> return conversion."""
import itertools
import math

import numpy as np
import pandas as pd

from engine import Family
from pypfopt import expected_returns as er
import data

NA = float("nan")


def ref_returns(rows, log):
    """rows: list of lists (prices, nan allowed) -> (kept row numbers, values)."""
    keep, out = [], []
    for t in range(len(rows)):
        r = []
        for j in range(len(rows[0])):
            a, b = (rows[t - 1][j], rows[t][j]) if t else (NA, NA)
            if a != a or b != b:
                r.append(NA)
            else:
                r.append(math.log(b / a) if log else b / a - 1)
        if any(x == x for x in r):
            keep.append(t)
            out.append(r)
    return keep, out


def ref_prices(rows, log):
    """cumulative product of gross returns; the first row is a pseudo-price of 1."""
    out = []
    run = [1.0] * len(rows[0])
    for t, row in enumerate(rows):
        line = []
        for j, x in enumerate(row):
            if t == 0:
                line.append(1.0)
            elif x != x:
                line.append(NA)
            else:
                run[j] *= math.exp(x) if log else 1 + x
                line.append(run[j])
        out.append(line)
    return out


def mk_index(kind, T):
    if kind == "date":
        return pd.date_range("2020-01-03", periods=T)
    if kind == "str":
        return [f"d{t}" for t in range(T)]
    return None


def run_prices(case, ctx):
    rows = [[NA if x is None else float(x) for x in r] for r in data.rows(case)]
    log, form = case["log"], case["form"]
    idx = mk_index(case["index"], len(rows))
    frame = pd.DataFrame(rows, columns=data.names(len(rows[0])), index=idx)
    obj = frame.iloc[:, 0] if form == "series" else frame
    before = obj.copy(deep=True)
    got = ctx.step("returns_from_prices", er.returns_from_prices, obj, log_returns=log)
    ctx.require(obj.equals(before), "returns_from_prices changed its input")
    keep, want = ref_returns([[r[0]] for r in rows] if form == "series" else rows, log)
    ctx.require(list(got.index) == [frame.index[t] for t in keep], "returns are labelled with the wrong dates",
                got=list(got.index), want=[frame.index[t] for t in keep])
    if form != "series":
        ctx.require(list(got.columns) == list(frame.columns), "columns changed")
    if not keep:
        ctx.outcome("empty")
        return
    vals = np.array(want, float).reshape(len(keep), -1)
    gv = got.values.reshape(len(keep), -1)
    ctx.close(gv, vals, 1e-12, "returns differ from the row-to-row price changes")
    ctx.outcome(f"kept{len(keep)}")
    snap = got.copy(deep=True)
    back = ctx.step("prices_from_returns", er.prices_from_returns, got, log_returns=log)
    ctx.require(got.equals(snap), "prices_from_returns changed its input")
    ctx.close(back.values.reshape(len(keep), -1), ref_prices(want, log), 1e-12, "prices rebuilt from returns are wrong")
    ctx.require(list(back.index) == list(got.index), "rebuilt prices are labelled with the wrong dates")
    full = all(x is not None for r in data.rows(case) for x in r)
    if full and len(keep) > 1:
        again = ctx.step("returns_from_prices", er.returns_from_prices, back, log_returns=log)
        ctx.close(again.values.reshape(len(keep) - 1, -1), vals[1:], 1e-12, "returns -> prices -> returns is not the identity")


def run_returns(case, ctx):
    rows = data.rows(case)
    log = case["log"]
    frame = pd.DataFrame([[float(x) for x in r] for r in rows], columns=data.names(len(rows[0])))
    obj = frame.iloc[:, 0] if case["form"] == "series" else frame
    before = obj.copy(deep=True)
    back = ctx.step("prices_from_returns", er.prices_from_returns, obj, log_returns=log)
    ctx.require(obj.equals(before), "prices_from_returns changed its input")
    want = ref_prices([[r[0]] for r in rows] if case["form"] == "series" else rows, log)
    ctx.close(back.values.reshape(len(rows), -1), want, 1e-12, "prices rebuilt from returns are wrong")
    if len(rows) > 1:
        again = ctx.step("returns_from_prices", er.returns_from_prices, back, log_returns=log)
        ctx.close(again.values.reshape(len(rows) - 1, -1), obj.values[1:].reshape(len(rows) - 1, -1), 1e-12,
                  "returns -> prices -> returns is not the identity")
    ctx.outcome(f"T{len(rows)}")


def families(tier):
    deep = tier == "thorough"
    alpha = [1, 2, 0.5, None]
    cases = []
    for T in range(1, 6 if deep else 5):
        for col in itertools.product(alpha if T < 5 else [1, 3, None], repeat=T):
            for log in (False, True):
                for form in ("frame", "series"):
                    for index in ("date", "range"):
                        cases.append({"rows": [[x] for x in col], "log": log, "form": form, "index": index})
    two = []
    for T in range(2, 5 if deep else 4):
        for flat in itertools.product([1, 3, None], repeat=2 * T):
            for log in (False, True):
                two.append({"rows": [list(flat[2 * t:2 * t + 2]) for t in range(T)], "log": log, "form": "frame",
                            "index": "str"})
    big = [{"rows": [[100 + ((7 * t * t + 13 * j * t + 5 * j) % 17) for j in range(n)] for t in range(T)], "log": log,
            "form": "frame", "index": "date"} for n in (3, 20) for T in (5, 60, 300) for log in (False, True)]
    rets = []
    for T in range(1, 5):
        for col in itertools.product([0.0, 0.25, -0.5, 1.0], repeat=T):
            for log in (False, True):
                for form in ("frame", "series"):
                    rets.append({"rows": [[x, -x / 2] for x in col], "log": log, "form": form})
    sizes = [(T, n) for T in ((2, 13, 64, 127, 254, 521, 1009, 2003) if deep else (2, 13, 127, 254, 1009)) for n in ((1, 2, 9, 17, 26, 41, 60) if deep else (1, 9, 26, 60)) if T * n < (60000 if deep else 10000)]
    bulk = [c for log in (False, True) for holes in (0, 5) for c in data.size_grid([z for z in sizes if z[0] > 5 or not holes], returns_data=False, holes=holes, log=log, form="frame", index="date")]
    bulk_r = [c for log in (False, True) for c in data.size_grid(sizes, returns_data=True, log=log, form="frame")]
    return [
        Family("sizes", bulk, run_prices, "prices of every size over {2,13,127,254,1009} x {1,9,26,60} (thorough: up to 2003 x 60), with and without gaps", chunk=2),
        Family("sizes-from-returns", bulk_r, run_returns, "returns of the same sizes", chunk=2),
        Family("one-column", cases, run_prices, "every price column over {1,2,0.5,missing}, length <= %d; Series and DataFrame; simple and log" % (5 if deep else 4)),
        Family("two-columns", two, run_prices, "every two-column table over {1,3,missing}, <= %d rows" % (4 if deep else 3)),
        Family("long", big, run_prices, "structured tables up to 300 x 20"),
        Family("from-returns", rets, run_returns, "every return column over {0,.25,-.5,1}, length <= 4"),
    ]
