"""C21 the greedy allocation follows its documented rule."""
import itertools

import data
from allocation import account, greedy_outcomes, make
from engine import Family


def run(case, ctx):
    for reinvest in case.get("reinvest", [False]):
        da = make(case, ctx)
        alloc, left = ctx.step(["greedy", reinvest], da.greedy_portfolio, **({"reinvest": True} if reinvest else {}))
        P, X = account(ctx, case, alloc, left, reinvest, "greedy")
        for (tick, w, p, val, sign), x in zip(P, X):
            ok = greedy_outcomes(w, p, val)
            if ok is None:
                ctx.outcome("too many ties")
                continue
            ctx.require(tuple(x) in ok, "not the allocation of the documented greedy rule", got=x, allowed=sorted(ok)[:6], weights=w, prices=p, value=val)
            ctx.outcome(f"{len(ok)} allowed")


def families(tier):
    deep = tier == "thorough"
    out = []
    grid = [[a / 8, 1 - a / 8] for a in range(9)] + [[1 / 3, 2 / 3], [.3, .3], [.55, .4]]
    cases = [{"w": w, "p": list(p), "V": V} for w, p, V in itertools.product(grid, itertools.product([3, 7, 10, 45.5, 130], repeat=2), [50, 101, 1000])]
    out.append(Family("two-assets", cases, run, "12 weight vectors x every price pair over {3,7,10,45.5,130} x 3 values", chunk=60))
    three = []
    ws = [[a / 7, b / 7, (7 - a - b) / 7] for a in range(8) for b in range(8 - a)]
    for w, p, V in itertools.product(ws, itertools.permutations([4, 9.5, 31, 70], 3), [40, 145, 1003] if deep else [145, 1003]):
        three.append({"w": w, "p": list(p), "V": V})
    out.append(Family("three-assets", three, run, "every three-asset weight vector in sevenths x every ordered choice of 3 of 4 prices x values", chunk=60))
    near = []
    for a, k, d, p in itertools.product(range(1, 8), (1, 2, 9), (.4, .04, .004, .0004, 4e-6, -.004), itertools.product([3, 7, 45.5], repeat=2)):
        near.append({"w": [a / 8, 1 - a / 8], "p": list(p), "V": (k - d) * p[0] / (a / 8)})
    for w, k, d, p in itertools.product(ws[1:-1:2], (2, 5), (.04, .004, 4e-6), itertools.permutations([4, 9.5, 31], 3)):
        if w[0]:
            near.append({"w": w, "p": list(p), "V": (k - d) * p[0] / w[0]})
    out.append(Family("near-whole", near, run, "portfolio values at which an asset's ideal number of shares lies just below or above a whole number", chunk=60))
    shorts = []
    for w in ([.8, -.2], [.5, -.5], [1.3, -.3], [-.4, .9, .5], [.7, .6, -.3], [.9, -.5, -.2, .8]):
        for ratio in (None, 0, .4, 1.5):
            for p in ([5, 8, 13, 9], [13, 6.5, 5, 4], [40, 3, 7, 21]):
                for V in (70, 520):
                    shorts.append({"w": w, "p": p[:len(w)], "V": V, "ratio": ratio, "reinvest": [False, True]})
    out.append(Family("short", shorts, run, "long/short portfolios x short ratios x values x reinvestment", chunk=12))
    small = [dict(c, reinvest=[False, True]) for c in data.small_positions((1e4, 1e5, 1e6, 1e7))]
    out.append(Family("small-positions", small, run, "positions of a tenth of a percent down to four millionths, worth several shares", chunk=2))
    scale = []
    for w, p in (([.5, .3, .2], [12.5, 7.1, 31.0]), ([.6, .7, -.3], [12.5, 7.1, 31.0]), ([.25, .5, .25], [450.0, 3.2, 77.7])):
        for ps in (1e-4, .01, 1, 100, 1e4):
            for V in (1, 10, 1000, 54321, 1e6, 1e8):
                if V / (ps * min(p)) < 3e6:
                    scale.append({"w": w, "p": [x * ps for x in p], "V": V, "reinvest": [False, True]})
    out.append(Family("scale", scale, run, "values from 1 to 100 million and prices from hundredths of a cent to millions", chunk=2))
    many = []
    for n in (5, 7, 9, 14, 22, 35):
        for a in (1, 3, 5):
            w = [((a * i + 2) % n + 1) / (n * (n + 1) / 2) for i in range(n)]
            for V in (200, 1000, 7777, 123456):
                many.append({"w": w, "p": [3 + (29 * i * a) % 61 + .5 for i in range(n)], "V": V})
    out.append(Family("more-assets", many, run, "structured portfolios of 5 to 35 assets", chunk=2))
    return out
