"""C29 solver settings and verbosity are honoured by every request and change nothing else."""
import contextlib
import ctypes
import io
import itertools
import os
import re
import sys
import tempfile

import cvxpy as cp
import numpy as np
import pandas as pd
import scipy.optimize as sco

import data
from allocation import mapping, price_series
from cvxpy.error import SolverError
from engine import Family
from pypfopt import DiscreteAllocation, EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance, objective_functions
from pypfopt.exceptions import OptimizationError

KINDS = {"frontier": EfficientFrontier, "semivariance": EfficientSemivariance, "cvar": EfficientCVaR, "cdar": EfficientCDaR}
TIGHT = {"CLARABEL": {"max_iter": 1}, "ECOS": {"max_iters": 1}, "SCS": {"max_iters": 1}, "OSQP": {"max_iter": 1}}
FINE = {"CLARABEL": {}, "ECOS": {}, "SCS": {"eps": 1e-7, "max_iters": 100000}, "OSQP": {"eps_abs": 1e-8, "eps_rel": 1e-8, "max_iter": 100000}}


@contextlib.contextmanager
def recorded():
    """Every solver that cvxpy really runs, noted at the boundary to cvxpy."""
    log, real = [], cp.Problem.solve

    def solve(self, *a, **k):
        try:
            return real(self, *a, **k)
        finally:
            stats = self.solver_stats
            if stats is not None:
                log.append(stats.solver_name)

    cp.Problem.solve = solve
    try:
        yield log
    finally:
        cp.Problem.solve = real


def output_of(fn):
    """(result or exception, everything written to stdout by Python or by a solver's own code)"""
    libc = ctypes.CDLL(None)
    buf = io.StringIO()
    sys.__stdout__.flush()
    libc.fflush(None)
    saved = os.dup(1)
    with tempfile.TemporaryFile() as f:
        os.dup2(f.fileno(), 1)
        try:
            with contextlib.redirect_stdout(buf):
                try:
                    val = fn()
                except Exception as e:  # noqa: BLE001
                    val = e
            sys.__stdout__.flush()
            libc.fflush(None)
        finally:
            os.dup2(saved, 1)
            os.close(saved)
        f.seek(0)
        text = f.read().decode(errors="replace")
    return val, buf.getvalue() + text


def inputs(n):
    mu, S = data.structured(n)
    lab = data.names(n)
    R = data.grid_returns(22, n)
    return pd.Series(mu, lab), pd.DataFrame(S, lab, lab), pd.DataFrame(R, columns=lab)


def build(kind, n, **kw):
    mu, S, R = inputs(n)
    bounds = kw.pop("bounds", (0, 1))
    return KINDS[kind](mu, S if kind == "frontier" else R, weight_bounds=bounds, **kw)


def ask(o, kind, req):
    name, arg = req[0], req[1:]
    if name == "custom":
        return o.convex_objective(lambda w: cp.sum_squares(w - np.arange(o.n_assets) / 6))
    if name == "min":
        return {"frontier": lambda: o.min_volatility()}.get(kind, lambda: getattr(o, "min_" + kind)())()
    return getattr(o, name)(*arg)


def requests(kind):
    out = [["min"], ["efficient_return", .12], ["custom"]]
    if kind == "frontier":
        out += [["max_sharpe"], ["max_quadratic_utility", 2], ["efficient_risk", .3]]
    elif kind == "semivariance":
        out += [["max_quadratic_utility", 2], ["efficient_risk", .35]]
    else:
        out += [["efficient_risk", .2 if kind == "cdar" else .05]]
    return out


def prepare(o, prep):
    """Ways of getting to the object that is asked."""
    if prep == "copy":
        return o.deepcopy()
    if prep == "again":  # an earlier parametrised answer
        o.efficient_return(.1)
    if prep == "objective":
        o.add_objective(objective_functions.L2_reg, gamma=.1)
    if prep == "constraint":
        o.add_constraint(lambda w: w[0] <= .5)
    return o


def run(case, ctx):
    kind, req, solver, prep = case["kind"], case["req"], case["solver"], case["prep"]
    # the solver asked for is the one that runs, for every problem that is solved on the way
    with recorded() as log:
        o = ctx.step(["init", solver], build, kind, case["n"], solver=solver, solver_options=dict(FINE[solver]))
        tag, w = ctx.attempt([prep, req], lambda: ask(prepare(o, prep), kind, req))
    ctx.require(set(log) <= {solver} and (log or tag == "err"), "another solver than the one asked for was used", used=log)
    if tag == "err":
        ctx.require(solver == "OSQP" and isinstance(w, SolverError), f"refused with {type(w).__name__}: {w}")  # OSQP: quadratic programs only
        ctx.outcome("unsuitable")
        return
    ref = ctx.step(["reference", req], lambda: ask(prepare(build(kind, case["n"], solver="CLARABEL"), prep), kind, req))
    tol = 1e-3 if solver in ("CLARABEL", "ECOS") else 5e-2  # first-order solvers stop early
    ctx.close(list(w.values()), list(ref.values()), tol, "the answer depends on the solver")
    # unknown solvers and options that make the solver give up are not replaced silently
    bad = ctx.step(["init", "nope"], build, kind, case["n"], solver="NOSUCHSOLVER")
    tag, val = ctx.attempt(["nope", req], lambda: ask(prepare(bad, prep), kind, req))
    ctx.require(tag == "err" and isinstance(val, (SolverError, OptimizationError, ValueError)), "an unknown solver was accepted", got=val)
    weak = ctx.step(["init", "limited"], build, kind, case["n"], solver=solver, solver_options=dict(TIGHT[solver]))
    tag, val = ctx.attempt(["limited", req], lambda: ask(prepare(weak, prep), kind, req))
    if solver != "SCS":  # one iteration of SCS is returned as an inaccurate solution
        ctx.require(tag == "err" and isinstance(val, (SolverError, OptimizationError)), "the solver's options were not passed on: one iteration sufficed", got=val)
    else:
        ctx.require(tag == "err" or np.abs(np.array(list(val.values())) - np.array(list(ref.values()))).max() > 1e-4,
                    "the solver's options were not passed on: one iteration sufficed", got=val)
    ctx.outcome(f"{solver}/{req[0]}")


def run_verbose(case, ctx):
    kind, req, solver = case["kind"], case["req"], case["solver"]
    got = {}
    for verbose in (False, True):
        o = ctx.step(["init", verbose], build, kind, case["n"], solver=solver, verbose=verbose)
        val, text = ctx.step([req, verbose], output_of, lambda: ask(prepare(o, case["prep"]), kind, req))
        ctx.require(not isinstance(val, Exception), f"refused: {val}")
        ctx.require(bool(text.strip()) == verbose, "verbose=True prints nothing" if verbose else "something is printed although verbose=False", text=text[:200])
        got[verbose] = list(val.values())
    ctx.close(got[True], got[False], 1e-12, "printing changed the answer")
    ctx.outcome("printed")


def run_nonconvex(case, ctx):
    """scipy's methods: each is used (those that can not handle a problem say so) and finds the optimum."""
    mu, S, _ = inputs(3)
    c = np.array([.5, .1, .4])
    kw = {"solver": case["solver"]} if case["solver"] else {}
    if case["how"] == "free":
        kw["weights_sum_to_one"] = False
    elif case["how"] == "inequality":
        kw.update(weights_sum_to_one=False, constraints=[{"type": "ineq", "fun": lambda w: np.sum(w) - 1}])
    o = ctx.step("init", EfficientFrontier, mu, S)
    used, real = [], sco.minimize

    def minimize(*a, **k):
        used.append(k.get("method", a[3] if len(a) > 3 else None))
        return real(*a, **k)

    sco.minimize = minimize
    try:
        tag, w = ctx.attempt(["nonconvex", case["solver"], case["how"]], o.nonconvex_objective, lambda w, m: ((w - m) ** 2).sum(), objective_args=(c,), **kw)
    finally:
        sco.minimize = real
    if case["ok"]:
        ctx.require(tag == "ok", f"refused: {w}")
        ctx.require(set(used) <= {case["solver"] or "SLSQP"}, "another method than the one asked for was used", used=used)
        ctx.close(list(w.values()), c, .15 if case["solver"] == "trust-constr" else 2e-3, "not the optimum")  # trust-constr stops early
    else:
        ctx.require(tag == "err" and isinstance(w, ValueError), "a method that is unknown, or can not handle the problem, was accepted", got=w)
    ctx.outcome(case["solver"])


def run_alloc(case, ctx):
    """Solvers of the integer program, and what verbose prints."""
    w, p = mapping(case), price_series(case)
    kw = {"solver": case["solver"]} if case.get("solver") else {}
    if case.get("reinvest"):
        kw["reinvest"] = True
    name = case["method"] + "_portfolio"
    short = min(w.values()) < 0

    def make():
        return DiscreteAllocation(w, p, total_portfolio_value=case["V"], short_ratio=.4)

    if case.get("solver") == "NOSUCHSOLVER":
        tag, val = ctx.attempt("unknown", lambda: getattr(make(), name)(**kw))
        ctx.require(tag == "err", "an unknown solver was accepted", got=val)
        ctx.outcome("unknown")
        return
    with recorded() as log:
        quiet, text = ctx.step("quiet", output_of, lambda: getattr(make(), name)(**kw))
    ctx.require(not isinstance(quiet, Exception), f"refused: {quiet!r}")
    ctx.require(not text.strip(), "something is printed although verbose=False", text=text[:200])
    if case.get("solver"):
        ctx.require(log and set(log) <= {case["solver"], "HIGHS" if case["solver"] == "SCIPY" else case["solver"]}, "another solver than the one asked for was used", used=log)
    loud, text = ctx.step("verbose", output_of, lambda: getattr(make(), name)(verbose=True, **kw))
    ctx.require(not isinstance(loud, Exception), f"refused: {loud!r}")
    ctx.require(dict(loud[0]) == dict(quiet[0]) and abs(loud[1] - quiet[1]) <= 1e-9, "printing changed the allocation", got=loud, want=quiet)
    ctx.require(bool(text.strip()), "verbose=True prints nothing")
    if not short:
        alloc, left = quiet
        value = sum(alloc[k] * p[k] for k in alloc)
        got = {k: alloc.get(k, 0) * p[k] / value if value else 0.0 for k in w}
        rmse = (sum((got[k] - w[k]) ** 2 for k in w) / len(w)) ** .5
        nums = {k: [float(x) for x in re.findall(r"-?\d+\.\d+", line)] for line in text.splitlines() for k in [line.split(":")[0]] if ":" in line}
        for k in w:
            ctx.require(str(k) in nums and len(nums[str(k)]) == 2, "no line for an asset", asset=k, text=text)
            ctx.close(nums[str(k)], [got[k], w[k]], 5.1e-4, "printed weights of an asset", asset=k)
        lines = [x for x in text.splitlines() if "RMSE" in x]
        ctx.require(len(lines) == 1, "the error is not printed", text=text)
        ctx.close(float(re.findall(r"\d+\.\d+", lines[0])[0]), rmse, 5.1e-4, "printed error of the allocation")
        lines = [x for x in text.splitlines() if "remaining" in x]
        ctx.require(len(lines) == 1, "the remaining funds are not printed", text=text)
        ctx.close(float(re.findall(r"-?\d+\.\d+", lines[0])[0]), left, 5.1e-3, "printed remaining funds")
    ctx.outcome(case["method"])


def families(tier):
    deep = tier == "thorough"
    out = []
    cases = []
    for n in ((3, 6) if deep else (3,)):
        for kind, solver in itertools.product(KINDS, ("CLARABEL", "ECOS", "SCS", "OSQP")):
            for req in requests(kind):
                for prep in ("fresh", "copy", "again", "objective", "constraint"):
                    if prep == "again" and req[0] != "efficient_return":
                        continue
                    cases.append({"kind": kind, "n": n, "req": req, "solver": solver, "prep": prep})
    out.append(Family("solvers", cases, run, "four optimisers x every request x four solvers x fresh / copied / asked before / extra objective / extra constraint: solver used, options passed, unknown ones refused, same answer", chunk=6))
    cases = []
    for kind in KINDS:
        for req in requests(kind):
            for solver, prep in itertools.product(("CLARABEL", "ECOS"), ("fresh", "copy")):
                cases.append({"kind": kind, "n": 3, "req": req, "solver": solver, "prep": prep})
    out.append(Family("verbose", cases, run_verbose, "four optimisers x every request x verbose or not: output at the file-descriptor level", chunk=6))
    cases = [{"solver": m, "how": h, "ok": ok} for m, h, ok in (
        (None, "sum", True), ("SLSQP", "sum", True), ("trust-constr", "sum", True), ("COBYLA", "sum", False), ("nope", "sum", False), ("nope", "free", False),
        ("COBYLA", "inequality", True), ("SLSQP", "inequality", True), ("trust-constr", "inequality", True),
        (None, "free", True), ("L-BFGS-B", "free", True), ("TNC", "free", True), ("Nelder-Mead", "free", True), ("Powell", "free", True), ("COBYLA", "free", True), ("trust-constr", "free", True))]
    out.append(Family("nonconvex", cases, run_nonconvex, "nine scipy methods and an unknown one x with the weight sum, with an inequality, without constraints", chunk=2))
    cases = []
    for w, p, V in itertools.product(([.5, .5], [.2, .3, .5], [1, 0, 0], [.35, .3, .3, .05], [.7, -.3], [.9, .4, -.3]), ([10, 20, 30.5, 7], [3.3, 90, 8, 41]), (50, 333.3, 1000)):
        for method, solver in (("greedy", None), ("lp", None), ("lp", "ECOS_BB"), ("lp", "SCIPY"), ("lp", "NOSUCHSOLVER")):
            for re_ in ((False, True) if min(w) < 0 else (False,)):
                cases.append({"w": w, "p": p[:len(w)], "V": V, "method": method, "solver": solver, "reinvest": re_, "names": ("str", "int")[len(cases) % 2]})
    out.append(Family("allocation", cases, run_alloc, "portfolios x prices x values x method x solver: printed report against its definition", chunk=10))
    return out
