"""C24 results do not depend on the order in which the assets are presented."""
import itertools

import calls
import world
from engine import Family
from world import PROGRAMS, World

# the weights of hierarchical risk parity legitimately depend on the order of the leaves (C16)
ORDER_FREE = [n for n in PROGRAMS if n != "hrp"]
TOL = {"ef_custom": 1e-2, "cvar": 2e-5, "cdar": 2e-5, "semivariance": 3e-4, "holes": 3e-4}
BASE = {}


def base(case):
    key = (case["program"], case["form"], case["n"], case["names"])
    if key not in BASE:
        BASE[key] = world.run(case["program"], World(case["n"], None, case["form"], case["names"]))
    return BASE[key]


def run(case, ctx):
    name = case["program"]
    want = base(case)
    W = World(case["n"], case["order"], case["form"], case["names"])
    gen, out = world.start(name, W)
    k = 0
    while True:
        try:
            ctx.step([name, k], next, gen)
        except StopIteration:
            break
        k += 1
    for x in out.values():
        if isinstance(x, dict) and "#labels" in x:
            ctx.require(x["#labels"] or name == "matrices", f"{name}: results are not labelled by the assets", got=list(out))
    if name == "holes":
        out, want = ({k: v for k, v in d.items() if k != "hrp sum"} for d in (out, want))
    d = world.difference(out, want, TOL.get(name, 5e-5))
    ctx.require(d is None, f"{name}: another order of the assets gives another result: {d}", order=case["order"])
    ctx.outcome(name)


SPELL_TOL = (("nonconvex", 2e-2), ("EfficientSemivariance", 3e-4), ("EfficientC", 5e-5))
SPELLED = {}


def ends(name, got):
    """Of a critical-line frontier only the two ends: a turning point that occurs twice up to rounding may or may not be listed twice."""
    if not (name.startswith("cla") and "efficient_frontier" in name):
        return got
    last = max(k[1] for k in got)
    return {(k[0], "last" if k[1] else "first") + k[2:]: v for k, v in got.items() if k[1] in (0, last)}


def run_spelling(case, ctx):
    """One entry point in one spelling of its arguments, on the assets in two orders."""
    name, form, n = case["call"], case["form"], case["n"]
    fn = {c: f for c, _, f in calls.CALLS}[name]
    if (name, form, n) not in SPELLED:
        W = calls.extend(World(n, None, form, "str"))
        tag, val = ctx.attempt(["base", name], fn, W)
        SPELLED[name, form, n] = (tag, type(val).__name__ if tag == "err" else ends(name, calls.identity(val, W)))
    tag0, want = SPELLED[name, form, n]
    W = calls.extend(World(n, case["order"], form, "str"))
    tag, val = ctx.attempt(name, fn, W)
    ctx.require(tag == tag0, f"{name}: answered for one order of the assets, refused for another", order=case["order"], got=repr(val)[:200])
    if tag == "err":
        return ctx.outcome("refused")
    got = ends(name, calls.identity(val, W))
    tol = next((t for prefix, t in SPELL_TOL if name.startswith(prefix)), 5e-5 if name.startswith(("ef ", "plot")) else 1e-6 if name.startswith("cla") else 1e-9)
    ctx.require(set(got) == set(want), f"{name}: another order of the assets gives other labels", got=sorted(map(str, set(got) ^ set(want)))[:10])
    for k in want:
        ctx.require(world.near(got[k], want[k], tol), f"{name}: another order of the assets gives another result", order=case["order"], at=str(k), got=got[k], want=want[k])
    ctx.outcome("answered")


def families(tier):
    deep = tier == "thorough"
    out = []
    for n in (3, 4, 5) if deep else (3, 4):
        cases = []
        for name in ORDER_FREE:
            for form in ("frame", "array"):
                for nm in ("str", "int"):
                    for o in itertools.permutations(range(n)):
                        if list(o) == list(range(n)) or (n == 4 and not deep and nm == "int" and form == "array"):
                            continue
                        cases.append({"program": name, "form": form, "names": nm, "order": list(o), "n": n})
        out.append(Family(f"{n}-assets", cases, run, f"every order of {n} assets x {len(ORDER_FREE)} programs (estimators, optimisers, Black-Litterman, allocation) x tables/arrays x string/integer tickers", chunk=12))
    free = [(c, forms) for c, forms, _ in calls.CALLS if not c.startswith(("hrp", "plot dendrogram"))]
    cases = [{"call": c, "form": f, "n": n, "order": list(o)} for c, forms in free for f in forms for n in (3, 4) for o in itertools.permutations(range(n))
             if list(o) != list(range(n)) and (n == 3 or deep or o in ((3, 2, 1, 0), (1, 2, 3, 0), (2, 0, 3, 1)))]
    out.append(Family("spellings", cases, run_spelling, f"every order of 3 assets and {'every' if deep else 'three'} of 4 x {len(free)} spellings of entry point and arguments", chunk=40))
    for n in (12, 21) if deep else (12,):
        orders = [list(range(n))[::-1], [(i + 5) % n for i in range(n)], [(i * 5 + 2) % n for i in range(n)], sorted(range(n), key=lambda i: (i % 3, -i))]
        many = [{"program": p, "form": f, "names": nm, "order": o, "n": n} for p in ORDER_FREE if p != "allocation" for f in ("frame", "array") for nm in ("str", "int") for o in orders]
        out.append(Family(f"{n}-assets", many, run, f"{len(orders)} orders of {n} assets (reversed, rotated, strided, by threes) x {len(ORDER_FREE)} programs x tables/arrays x string/integer tickers", chunk=4))
        many = [{"call": c, "form": f, "n": n, "order": o} for c, forms in free if "lp_portfolio" not in c for f in forms for o in orders]  # documented to fall short from ten assets on
        out.append(Family(f"{n}-assets-spellings", many, run_spelling, f"{len(orders)} orders of {n} assets x {len(free)} spellings of entry point and arguments", chunk=24))
    return out
