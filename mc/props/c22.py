"""C22 weights: stored = returned, cleaning, setting, saving."""
import ast
import csv
import itertools
import json
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

import data
from engine import Family
from pypfopt import CLA, BlackLittermanModel, EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance, HRPOpt

MU, S3 = [.05, .1, .2], data.cov_from([.1, .2, .3], data.sym_corr(3, [.3, -.4, .5]))
CLASSES = ["ef", "semivariance", "hrp", "hrp-cov", "bl"]  # those whose weights can be set


def make(kind, lab):
    n = len(lab)
    mu, S = np.array([.05 + .04 * i for i in range(n)]), data.cov_from([.1 + .05 * i for i in range(n)], np.full((n, n), .2) + .8 * np.eye(n))
    R = data.df(data.grid_returns(9, n, 2), lab)
    m, C = pd.Series(mu, index=lab), pd.DataFrame(S, index=lab, columns=lab)
    if kind == "ef":
        return EfficientFrontier(m, C, solver="CLARABEL")
    if kind == "cla":
        return CLA(m, C)
    if kind == "hrp":
        return HRPOpt(R)
    if kind == "hrp-cov":
        return HRPOpt(cov_matrix=C)
    if kind == "bl":
        return BlackLittermanModel(C, pi=m, absolute_views={lab[0]: .2})
    return {"semivariance": EfficientSemivariance, "cvar": EfficientCVaR, "cdar": EfficientCDaR}[kind](m, R, solver="CLARABEL")


def check_clean(ctx, got, lab, w, cutoff, rounding):
    ctx.require(list(got) == lab, "cleaned weights do not list every asset in order", got=got, want=lab)
    for t, x in zip(lab, w):
        g = got[t]
        ctx.require(isinstance(g, float), "a cleaned weight is not a number", got=type(g))
        if abs(x) < cutoff:
            ctx.require(g == 0, "a weight below the cutoff was kept", weight=x, got=g, cutoff=cutoff)
        elif rounding is None:
            ctx.require(g == x, "a weight was changed although neither cut nor rounded", weight=x, got=g)
        else:
            ctx.require(abs(g - x) <= .5 * 10.0 ** -rounding * (1 + 1e-9) + 1e-15, "a weight was not rounded to the nearest", weight=x, got=g, rounding=rounding, cutoff=cutoff)
            ctx.require(rounding > 9 or abs(round(g * 10 ** rounding) - g * 10 ** rounding) <= 1e-6, "a weight is not rounded", weight=x, got=g, rounding=rounding)


def run_clean(case, ctx):
    lab = data.names(len(case["w"]), case["names"])
    o = make(case["opt"], lab)
    tag, val = ctx.attempt("clean_weights (early)", o.clean_weights)
    ctx.require(tag == "err", "cleaned weights were given before there were any", got=val)
    w = np.array(case["w"], float)
    d = dict(zip(lab, case["w"]))
    if case.get("reversed"):
        d = dict(reversed(list(d.items())))
    if case.get("extra"):
        d["zz"] = .5
    keep = dict(d)
    ctx.step("set_weights", o.set_weights, pd.Series(d) if case.get("series") else d)
    ctx.require(keep == d, "set_weights changed the caller's dictionary")
    ctx.require(np.array_equal(np.asarray(o.weights, float), w), "weights were not stored under their own assets", got=o.weights, want=w)
    for cutoff, rounding in itertools.product((None, 0, 1e-4, .05, .4), ("default", None, 1, 3, 5, 16)):
        kw = {}
        if cutoff is not None:
            kw["cutoff"] = cutoff
        if rounding != "default":
            kw["rounding"] = rounding
        got = ctx.step(["clean_weights", kw], o.clean_weights, **kw)
        check_clean(ctx, got, lab, w, 1e-4 if cutoff is None else cutoff, 5 if rounding == "default" else rounding)
        for t in list(got):
            got[t] = 9.0  # the result belongs to the caller
        ctx.require(np.array_equal(np.asarray(o.weights, float), w), "cleaning changed the stored weights", got=o.weights, want=w)
    for bad in (0, -1, 2.5, "3"):
        tag, val = ctx.attempt(["clean_weights", bad], o.clean_weights, rounding=bad)
        ctx.require(tag == "err" and isinstance(val, ValueError), "an invalid rounding was accepted", got=val)
    d.pop(lab[0])
    tag, val = ctx.attempt("set_weights (incomplete)", o.set_weights, d)
    ctx.require(tag == "err" and np.array_equal(np.asarray(o.weights, float), w), "a dictionary without all assets was accepted or changed the weights", got=o.weights)
    ctx.outcome(case["opt"])


def read(path, fmt, ints):
    """{ticker text: weight} as a reader of the file sees it"""
    if fmt == "csv":
        with open(path, newline="") as f:
            rows = [r for r in csv.reader(f) if r]
        return {r[0]: float(r[1]) for r in rows}, len(rows)
    with open(path) as f:
        text = f.read()
    d = json.loads(text) if fmt == "json" else ast.literal_eval(text)
    return {str(k): float(v) for k, v in d.items()}, len(d)


def expect_clean(lab, w):
    return {str(t): (0.0 if abs(x) < 1e-4 else x) for t, x in zip(lab, w)}


def check_file(ctx, path, fmt, lab, w):
    ctx.require(os.path.exists(path), "no file was written", path=os.path.basename(path))
    got, k = read(path, fmt, None)
    want = expect_clean(lab, w)
    ctx.require(set(got) == set(want) and k == len(want), "the file does not list every asset once", got=got)
    for t in want:
        ctx.require(abs(got[t] - want[t]) <= .5e-5 * (1 + 1e-9), "a weight in the file is not the cleaned one", asset=t, got=got[t], want=want[t])
        ctx.require(abs(round(got[t] * 1e5) - got[t] * 1e5) <= 1e-6, "a weight in the file is not the cleaned one", asset=t, got=got[t])


def scratch():
    return tempfile.mkdtemp(prefix="verif-c22-")


def run_files(case, ctx):
    lab = data.names(len(case["w"]), case["names"])
    d = scratch()
    try:
        o = make(case["opt"], lab)
        name = os.path.join(d, case["file"])
        tag, val = ctx.attempt("save (early)", o.save_weights_to_file, name)
        ctx.require(tag == "err" and not os.listdir(d), "a file was written before there were weights")
        ctx.step("set_weights", o.set_weights, dict(zip(lab, case["w"])))
        fmt = case["file"].split(".")[-1].lower()
        if fmt in ("csv", "json", "txt"):
            if case.get("existing"):
                with open(name, "w") as f:
                    f.write("something longer that was there before\n" * 20)
            ctx.step("save", o.save_weights_to_file, name)
            check_file(ctx, name, fmt, lab, case["w"])
            ctx.require(os.listdir(d) == [case["file"]], "other files were written", got=os.listdir(d))
        else:
            tag, val = ctx.attempt("save", o.save_weights_to_file, name)
            ctx.require(tag == "err" and isinstance(val, NotImplementedError) and not os.listdir(d), "an unknown file type was accepted", got=val)
        ctx.require(np.array_equal(np.asarray(o.weights, float), np.array(case["w"], float)), "saving changed the weights")
        ctx.outcome(fmt)
    finally:
        shutil.rmtree(d)


def run_hist(case, ctx):
    lab = data.names(3, "str")
    d = scratch()
    sets = {"set a": [.5, .50004, -.00004], "set b": [.123456789, 0, .876543211]}
    try:
        o = make(case["opt"], lab)
        now, files = None, {}
        for op in case["ops"]:
            if op in sets:
                now = sets[op]
                ctx.step(op, o.set_weights, dict(zip(lab, now)))
            elif op == "optimise":
                res = ctx.step(op, {"ef": lambda: o.min_volatility(), "hrp": lambda: o.optimize()}[case["opt"]])
                now = [res[t] for t in lab]
            elif op.startswith("save"):
                name = op[5:]
                tag, val = ctx.attempt(op, o.save_weights_to_file, os.path.join(d, name))
                ok = now is not None and not name.endswith("xml")
                ctx.require((tag == "ok") == ok, f"{op} was {'accepted' if tag == 'ok' else 'refused'}", got=val)
                if ok:
                    files[name] = list(now)
            else:
                kw = {"clean": {}, "clean .2": {"cutoff": .2, "rounding": None}}[op]
                tag, val = ctx.attempt(op, o.clean_weights, **kw)
                ctx.require((tag == "ok") == (now is not None), f"{op} was {'accepted' if tag == 'ok' else 'refused'}", got=val)
                if tag == "ok":
                    check_clean(ctx, val, lab, now, kw.get("cutoff", 1e-4), kw.get("rounding", 5))
            ctx.require(o.weights is None if now is None else np.array_equal(np.asarray(o.weights, float), now), f"stored weights after {op}", got=o.weights, want=now)
            ctx.require(sorted(os.listdir(d)) == sorted(files), f"files after {op}", got=os.listdir(d))
            for name, w in files.items():
                check_file(ctx, os.path.join(d, name), name.split(".")[-1], lab, w)
        ctx.outcome(len(files))
    finally:
        shutil.rmtree(d)


def run_solved(case, ctx):
    """What an optimisation returns is what the object keeps; putting it back in any order changes nothing."""
    lab = data.names(case["n"], case["names"])
    for name, args in case["calls"]:
        o = make(case["opt"], lab)
        res = ctx.step([name, args], getattr(o, name), *args)
        want = sorted(lab) if case["opt"].startswith("hrp") else lab
        ctx.require(list(res) == want, "the result does not list the assets", got=list(res))
        ctx.require(all(isinstance(x, float) for x in res.values()), "returned weights are not numbers")
        w = [res[t] for t in lab]
        ctx.close(np.asarray(o.weights, float), w, 1e-15, f"{name}: stored and returned weights differ")
        check_clean(ctx, ctx.step("clean_weights", o.clean_weights), lab, w, 1e-4, 5)
        if case["opt"] in ("cla", "cvar", "cdar"):
            tag, val = ctx.attempt("set_weights", o.set_weights, res)
            ctx.require(tag == "err" and isinstance(val, NotImplementedError), "set_weights is documented not to be available here")
        else:
            ctx.step("set_weights", o.set_weights, dict(reversed(list(res.items()))))
            ctx.close(np.asarray(o.weights, float), w, 1e-15, "weights differ after they were put back")
        for t in lab:
            res[t] = 5.0  # the result belongs to the caller
        ctx.close(np.asarray(o.weights, float), w, 1e-15, "the stored weights alias the returned ones")
    ctx.outcome(case["opt"])


def families(tier):
    deep = tier == "thorough"
    out, cl, files, hist, solved = [], [], [], [], []
    vals = [0, 9.9e-5, -1.01e-4, .049999, -.3333333333, .7654321]
    if deep:
        vals += [1e-4, -9.9e-5, .05, 1e-17, 1.00000049]
    for w in itertools.product(vals, repeat=2):
        for opt in ("ef", "hrp") if not deep else CLASSES:
            cl.append({"opt": opt, "w": list(w), "names": "str", "reversed": w[0] > w[1]})
    for i, w in enumerate(itertools.product([1, 0, -.00007, .25004, .1234567], repeat=3)):
        cl.append({"opt": CLASSES[i % 5], "w": list(w), "names": ("str", "int")[i % 2], "reversed": i % 3 == 0, "extra": i % 4 == 0, "series": i % 5 == 1})
    cl.append({"opt": "ef", "w": [(-1) ** i * .002 * i + 3e-5 for i in range(30)], "names": "str", "reversed": True})
    edge = [1e-4, -1e-4, .05, -.05, .4, -.4, float(np.nextafter(1e-4, 0)), float(np.nextafter(-.05, 0)), float(np.nextafter(.4, 1))]
    for i, w in enumerate(itertools.product(edge, repeat=2)):
        cl.append({"opt": CLASSES[i % 5], "w": list(w), "names": "str"})
    out.append(Family("clean", cl, run_clean, "weight vectors over a grid around and exactly at the cutoffs, each x 5 cutoffs x 6 roundings, set in any order with and without extra tickers", chunk=12))
    for opt, f, w, nm, ex in itertools.product(CLASSES, ["w.csv", "w.json", "w.txt", "W.CSV", "my.portfolio.json", "w.xml", "w", "w.csv.bak"],
                                               [[.2, .3, .5], [-.00009, 1.0000909, -.3333333]], ["str", "int"], [False, True]):
        if ex and not f.endswith(("csv", "json", "txt")):
            continue
        files.append({"opt": opt, "file": f, "w": w, "names": nm, "existing": ex})
    files.append({"opt": "ef", "file": "w.txt", "w": [(-1) ** i * .002 * i + 3e-5 for i in range(60)], "names": "str"})
    files.append({"opt": "ef", "file": "w.csv", "w": [(-1) ** i * .002 * i + 3e-5 for i in range(60)], "names": "str"})
    out.append(Family("files", files, run_files, "5 optimisers x 8 file names x 2 portfolios x string/integer tickers x new/existing file", chunk=20))
    ops = ["set a", "set b", "optimise", "clean", "clean .2", "save w.csv", "save w.json", "save v.txt", "save w.xml"]
    for opt in ("ef", "hrp"):
        for k in range(1, 4 if not deep else 5):
            for o in itertools.product(ops, repeat=k):
                if o.count("optimise") > 1 and opt == "ef":
                    continue
                hist.append({"opt": opt, "ops": list(o)})
    out.append(Family("histories", hist, run_hist, f"every sequence of <= {4 if deep else 3} of 9 set / optimise / clean / save requests", chunk=40))
    T = {"ef": [["min_volatility", []], ["max_sharpe", []], ["efficient_risk", [.3]], ["efficient_return", [.06]], ["max_quadratic_utility", []]],
         "semivariance": [["min_semivariance", []], ["efficient_return", [.06]], ["efficient_risk", [.5]], ["max_quadratic_utility", []]],
         "cvar": [["min_cvar", []], ["efficient_return", [.06]], ["efficient_risk", [.5]]], "cdar": [["min_cdar", []], ["efficient_return", [.06]], ["efficient_risk", [.5]]],
         "cla": [["min_volatility", []], ["max_sharpe", []]], "hrp": [["optimize", []], ["optimize", ["ward"]]], "hrp-cov": [["optimize", []]], "bl": [["bl_weights", []], ["optimize", []], ["bl_weights", [3]]]}
    for opt, calls in T.items():
        for n in (2, 3, 5):
            for nm in ("str", "int"):
                solved.append({"opt": opt, "n": n, "names": nm, "calls": calls})
    out.append(Family("solved", solved, run_solved, "every optimisation of every optimiser, 2-5 assets", chunk=2))
    return out
