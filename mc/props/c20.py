"""C20 integer-programming allocation is optimal."""
import itertools

import data
from allocation import account, make
from engine import Family
from oracle import alloc_best, alloc_objective, alloc_witness


def run(case, ctx):
    for reinvest in case.get("reinvest", [False]):
        da = make(case, ctx)
        kw = {"solver": case["solver"]} if case.get("solver") else {}
        if reinvest:
            kw["reinvest"] = True
        alloc, left = ctx.step(["lp", reinvest], da.lp_portfolio, **kw)
        P, X = account(ctx, case, alloc, left, reinvest, "lp")
        for (tick, w, p, val, sign), x in zip(P, X):
            best = alloc_best(w, p, val)
            ctx.small(alloc_objective(x, w, p, val) - best, 1e-5 * val, "another whole-share allocation is closer to the target", shares=x, prices=p, weights=w, value=val)
        ctx.outcome("/".join(str(sum(x)) for x in X))


def run_witness(case, ctx):
    """Too many allocations to list them all: no allocation another integer-programming solver finds is better."""
    da = make(case, ctx)
    alloc, left = ctx.step("lp", da.lp_portfolio, **({"solver": case["solver"]} if case.get("solver") else {}))
    tol = 1.5e-4 if case.get("solver") else 1e-5  # that solver's default gap
    P, X = account(ctx, case, alloc, left, False, "lp")
    for (tick, w, p, val, sign), x in zip(P, X):
        y = alloc_witness(w, p, val)
        if y is not None:
            ctx.small(alloc_objective(x, w, p, val) - alloc_objective(y, w, p, val), tol * val, "another whole-share allocation is closer to the target", shares=x, better=y, prices=p, weights=w, value=val)
    ctx.outcome(sum(X[0]))


def families(tier):
    deep = tier == "thorough"
    out = []
    grid = [[a / 4, 1 - a / 4] for a in range(5)] + [[1 / 3, 2 / 3], [.3, .3], [.15, .8]]
    cases = []
    for w, p, V in itertools.product(grid, itertools.product([3, 7, 10, 45.5], repeat=2), [50, 101]):
        cases.append({"w": w, "p": list(p), "V": V})
    out.append(Family("two-assets", cases, run, "8 weight vectors x every price pair over {3,7,10,45.5} x 2 values, against every whole-share allocation", chunk=8))
    three = []
    ws = [[a / 5, b / 5, (5 - a - b) / 5] for a in range(6) for b in range(6 - a)]
    for k, w in enumerate(ws):
        for m, p in enumerate(itertools.permutations([4, 9, 23.5])):
            for V in ((60, 145) if deep else ((60,) if (k + m) % 2 else (145,))):
                three.append({"w": w, "p": list(p), "V": V, "order": ("same", "reversed", "extra")[(k + m) % 3], "names": ("str", "int")[k % 2]})
    out.append(Family("three-assets", three, run, "every three-asset weight vector in fifths x every order of three prices, price series in every order", chunk=6))
    shorts = []
    for w in ([.8, -.2], [.5, -.5], [1.3, -.3], [-.4, .9, .5], [.7, .6, -.3], [.9, -.5, -.2, .8]):
        for ratio in (None, .4, 1.5):
            for p in ([5, 8, 13, 9], [13, 6.5, 5, 4]):
                shorts.append({"w": w, "p": p[:len(w)], "V": 70, "ratio": ratio, "reinvest": [False, True]})
    out.append(Family("short", shorts, run, "long/short portfolios x short ratios x reinvestment", chunk=3))
    four = []
    for w in ([.1, .2, .3, .4], [.25] * 4, [.05, .05, .45, .45], [.7, .1, .1, .1]):
        for p in ([9, 4, 17, 30], [30.5, 17.25, 4, 9], [8, 8, 8, 8]):
            four.append({"w": w, "p": p, "V": 200 if deep else 110})
    out.append(Family("four-assets", four, run, "four-asset portfolios against every whole-share allocation", chunk=1))
    wide = []
    for k, (a, b, c, d) in enumerate(itertools.product((0, 1, 2, 5), repeat=4)):
        if a + b + c + d == 0 or (not deep and k % 2):
            continue
        t = a + b + c + d
        for p in ([17.47, 9.1, 74.07, 3.09], [41.5, 23.3, 12.9, 30.01], [55.2, 8.35, 19.9, 71.3]):
            wide.append({"w": [a / t, b / t, c / t, d / t], "p": p, "V": (260, 190, 333)[k % 3]})
    out.append(Family("four-assets-wide", wide, run, "weights in proportions over {0,1,2,5}^4 x 3 price vectors x values, against every whole-share allocation", chunk=8))
    many, scip = [], []
    for n, count in ((6, 20), (9, 8)) if not deep else ((5, 120), (7, 60), (10, 20)):
        for k in range(count):
            raw = [1 + (7 * i * (k + 1) + 3 * k + i * i) % 11 for i in range(n)]
            p = [2.5 + ((31 * (i + 1) * (k + 2) + 17 * i * i) % 997) / 10 for i in range(n)]
            many.append({"w": [x / sum(raw) for x in raw], "p": p, "V": 900 + 37 * k})
    out.append(Family("more-assets", many, run_witness, "structured portfolios of %s assets, against another integer-programming solver's allocation" % ("5, 7 and 10" if deep else "6 and 9"), chunk=2))
    for n, count in ((12, 6), (17, 6), (25, 4)) if not deep else ((12, 30), (17, 30), (25, 20), (40, 10)):
        for k in range(count):
            raw = [1 + (7 * i * (k + 1) + 3 * k + i * i) % 11 for i in range(n)]
            p = [2.5 + ((31 * (i + 1) * (k + 2) + 17 * i * i) % 4997) / 10 for i in range(n)]
            scip.append({"w": [x / sum(raw) for x in raw], "p": p, "V": 10000 + 700 * k, "solver": "SCIPY", "reinvest": [False]})
    out.append(Family("many-assets", scip, run_witness, "structured portfolios of up to %d assets with the solver SCIPY (the default one is documented to stop early), against a direct call of the integer-programming library" % (40 if deep else 25), chunk=1))
    out.append(Family("small-positions", data.small_positions((1e4, 1e5)), run_witness, "positions of a tenth of a percent down to four millionths, worth several shares", chunk=1))
    return out
