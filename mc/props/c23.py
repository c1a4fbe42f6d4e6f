"""C23 inputs are never changed, objects never influence each other."""
import itertools

import calls
import world
from engine import Family
from world import PROGRAMS, World

EXACT = 1e-12
ALONE = {}


def alone(ctx, name, form):
    """What the program answers on its own, on fresh inputs."""
    if (name, form) not in ALONE:
        ALONE[name, form] = world.run(name, World(form=form))
    return ALONE[name, form]


def unchanged(ctx, W, before, what):
    now = W.fingerprint()
    bad = [k for k in before if before[k] != now[k]]
    ctx.require(not bad, f"the caller's inputs {bad} were changed by {what}", before={k: before[k][:300] for k in bad}, now={k: now[k][:300] for k in bad})


def advance(ctx, label, gen):
    try:
        ctx.step(label, next, gen)
        return True
    except StopIteration:
        return False


def run_inputs(case, ctx):
    """After every single call the shared inputs are what they were."""
    W = World(n=case["n"], form=case["form"], names=case["names"])
    before = W.fingerprint()
    for name in case["ops"]:
        gen, out = world.start(name, W)
        k = 0
        while advance(ctx, [name, k], gen):
            k += 1
            unchanged(ctx, W, before, f"{name} (call {k})")
        if case["n"] == 3 and case["names"] == "str":
            d = world.difference(out, alone(ctx, name, case["form"]), EXACT)
            ctx.require(d is None, f"{name} answers differently after {case['ops'][:-1]}: {d}")
    ctx.outcome(len(case["ops"]))


def answer(ctx, label, fn, W):
    tag, val = ctx.attempt(label, fn, W)
    return ["refused", type(val).__name__] if tag == "err" else calls.flat(val)


def run_calls(case, ctx):
    """One entry point, one spelling of its arguments, called twice on the same inputs, before and after another call."""
    table = {name: fn for name, _, fn in calls.CALLS}
    W = calls.extend(World(n=case["n"], form=case["form"], names=case["names"]))
    before = W.fingerprint()
    first = None
    for name in case["ops"]:
        got = answer(ctx, name, table[name], W)
        unchanged(ctx, W, before, name)
        if name == case["ops"][0]:
            if first is None:
                first = got
            same = len(got) == len(first) and all(a == b or not isinstance(a, str) and not isinstance(b, str) and a is not None and b is not None and (world.near(a, b, EXACT)) for a, b in zip(got, first))
            ctx.require(same, f"{name} answers differently the second time" + (f", after {case['ops'][1:-1]}" if len(case["ops"]) > 2 else ""), first=first[:20], second=got[:20])
    ctx.outcome("refused" if first[:1] == ["refused"] else "answered")


def run_interleaved(case, ctx):
    """Two programs on the same inputs, in one particular interleaving of their calls."""
    W = World(form="frame")
    before = W.fingerprint()
    progs = [world.start(n, W) for n in case["programs"]]
    for turn in case["ops"]:
        advance(ctx, turn, progs[turn][0])
    for i, (gen, out) in enumerate(progs):
        while advance(ctx, i, gen):
            pass
        d = world.difference(out, alone(ctx, case["programs"][i], "frame"), EXACT)
        ctx.require(d is None, f"{case['programs'][i]} answers differently when interleaved with {case['programs'][1 - i]}: {d}")
    unchanged(ctx, W, before, str(case["programs"]))
    ctx.outcome(case["programs"][0])


def interleavings(a, b):
    for pos in itertools.combinations(range(a + b), a):
        s = set(pos)
        yield [0 if i in s else 1 for i in range(a + b)]


def families(tier):
    deep = tier == "thorough"
    names = list(PROGRAMS)
    out = []
    single = [{"ops": [n], "n": k, "form": f, "names": nm} for n in names for f in ("frame", "array") for k in (3, 4, 5) for nm in ("str", "int")]
    out.append(Family("inputs", single, run_inputs, f"each of {len(names)} programs (all entry points) on tables and on arrays, 3-5 assets, inputs fingerprinted after every call", chunk=4))
    pairs = [{"ops": [a, b], "n": 3, "form": f, "names": "str"} for a in names for b in names for f in ("frame", "array")]
    out.append(Family("pairs", pairs, run_inputs, "every ordered pair of programs one after the other on the same inputs, tables and arrays", chunk=12))
    spell = [{"ops": [n, n], "n": k, "form": f, "names": nm} for n, forms, _ in calls.CALLS for f in forms for k, nm in ((3, "str"), (3, "int"), (4, "str"))]
    out.append(Family("spellings", spell, run_calls, f"each of {len(calls.CALLS)} spellings of entry point and arguments (containers, bounds, settings), twice on the same inputs, fingerprinted after each call", chunk=24))
    if deep:
        fast = [n for n, forms, _ in calls.CALLS if "frame" in forms and not n.startswith("plot")]
        around = [{"ops": [a, b, a], "n": 3, "form": "frame", "names": "str"} for i, a in enumerate(fast) for j, b in enumerate(fast) if (i + 7 * j) % 5 == 0]
        out.append(Family("around", around, run_calls, "one spelling before and after another one, on the same inputs: every fifth of all ordered pairs", chunk=40))
    light = [n for n in names if n.startswith(("ef_", "bl_")) or n in ("cla", "hrp", "semivariance", "cvar", "cdar", "allocation", "shrinkage")]
    inter = []
    size = {n: world.steps(n) for n in light}
    for a, b in itertools.combinations_with_replacement(light, 2):
        same = a == b
        related = same or (a.startswith("ef_") and b.startswith("ef_")) or {a, b} <= {"semivariance", "cvar", "cdar"} or {a, b} <= {"bl_views", "bl_absolute"}
        for k, o in enumerate(interleavings(size[a], size[b])):
            if deep or same or (related and k % 3 == 0) or k % 17 == 0:
                inter.append({"programs": [a, b], "ops": o})
    out.append(Family("interleaved", inter, run_interleaved, "all interleavings of the calls of two objects of the same kind on shared inputs" + (" and of every two kinds" if deep else "; every third (related kinds) or seventeenth (others) interleaving of two different kinds"), chunk=20))
    if deep:
        trip = [{"ops": list(t), "n": 3, "form": "frame", "names": "str"} for t in itertools.permutations(names, 3)]
        out.append(Family("triples", trip, run_inputs, "every ordered triple of different programs", chunk=40))
    return out
