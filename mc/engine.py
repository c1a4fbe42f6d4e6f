"""Bounded exhaustive explorer for the real code.

A property module supplies *families*.  A family is a finite list of cases
(JSON-able, simplest first) plus a driver that executes ONE case on the real
implementation, step by step, comparing every step with a reference model.
Every case of every family is executed - nothing is sampled.

state       = (family, initial input, operations performed so far), canonical & deduplicated
transition  = one call of the implementation under test
trace       = one complete case whose every step agreed with the reference model
"""
import collections
import contextlib
import hashlib
import io
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


class Violation(Exception):
    pass


class Ctx:
    """What a driver may do while it executes one case."""

    def __init__(self, family, case):
        self.family, self.case = family, case
        ops = case.get("ops") if isinstance(case, dict) else None
        base = {k: v for k, v in case.items() if k != "ops"} if ops is not None else case
        self._base = canon([family, base])
        self._labels = []
        self.states = {h64(self._base)}
        self.transitions = 0
        self.compared = 0
        self.outcomes = collections.Counter()
        self.margin = 0.0  # worst (error / tolerance) seen

    # -- executing the implementation ------------------------------------
    def step(self, label, fn, *args, **kwargs):
        """One transition: call the implementation; an unexpected exception propagates."""
        self.transitions += 1
        self._labels.append(label)
        self.states.add(h64(canon([self._base, self._labels])))
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return fn(*args, **kwargs)

    def attempt(self, label, fn, *args, **kwargs):
        """As step(), but an exception is an observation: ('ok', value) or ('err', exception)."""
        try:
            return "ok", self.step(label, fn, *args, **kwargs)
        except Violation:
            raise
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:  # noqa: BLE001  (solver panics derive from BaseException)
            return "err", e

    # -- judging ----------------------------------------------------------
    def fail(self, msg, **detail):
        raise Violation(msg + ("" if not detail else " | " + "; ".join(f"{k}={show(v)}" for k, v in detail.items())))

    def require(self, cond, msg, **detail):
        self.compared += 1
        if not bool(cond):
            self.fail(msg, **detail)

    def small(self, err, tol, msg, **detail):
        """err must not exceed tol (NaN counts as exceeding)."""
        self.compared += 1
        err = float(err)
        if not err <= tol:
            self.fail(msg, error=err, tolerance=tol, **detail)
        if tol > 0:
            self.margin = max(self.margin, err / tol)

    def close(self, got, want, tol, msg, **detail):
        import numpy as np

        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        self.compared += 1
        if got.shape != want.shape:
            self.fail(msg + ": shape", got=got, want=want, **detail)
        ng, nw = np.isnan(got), np.isnan(want)
        ok = (ng == nw).all()
        if ok:
            both = ~ng
            same_inf = (got == want) & np.isinf(got)
            both &= ~same_inf
            err = np.abs(got[both] - want[both])
            lim = tol * (1 + np.abs(want[both]))
            ok = bool((err <= lim).all())
            if ok and err.size:
                self.margin = max(self.margin, float((err / lim).max()))
        if not ok:
            self.fail(msg, got=got, want=want, tolerance=tol, **detail)

    def outcome(self, what):
        self.outcomes[str(what)] += 1


class Family:
    def __init__(self, name, cases, run, bound, chunk=None):
        self.name, self.run, self.bound = name, run, bound
        self.cases = list(cases)
        self.chunk = chunk


def show(v):
    try:
        import numpy as np

        if isinstance(v, np.ndarray):
            v = np.array2string(v, precision=10, threshold=60)
    except Exception:  # noqa: BLE001
        pass
    s = str(v).replace("\n", " ")
    return s if len(s) < 900 else s[:900] + "..."


def canon(x):
    return json.dumps(x, sort_keys=True, default=str)


def h64(s):
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), "big")


CASE_SECONDS = 120  # normal cases take milliseconds


def _on_alarm(signum, frame):
    raise Violation(f"a single case did not terminate within {CASE_SECONDS} s")


def execute(fam, case):
    """Run one case; returns (ctx, None | message)."""
    ctx = Ctx(fam.name, case)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_SECONDS)
    try:
        fam.run(case, ctx)
        return ctx, None
    except Violation as v:
        return ctx, str(v)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # noqa: BLE001  an unexpected exception from a valid use is a violation
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
        return ctx, f"unexpected {type(e).__name__}: {show(e)} at {where}"
    finally:
        signal.alarm(0)


_FAMS = None


def _chunk(job):
    fi, lo, hi, deadline = job
    fam = _FAMS[fi]
    out = {"fi": fi, "lo": lo, "done": 0, "states": set(), "transitions": 0, "compared": 0,
           "outcomes": collections.Counter(), "margin": 0.0, "bad": [], "capped": False}
    for i in range(lo, hi):
        if time.time() > deadline:
            out["capped"] = True
            break
        ctx, msg = execute(fam, fam.cases[i])
        out["done"] += 1
        out["states"] |= ctx.states
        out["transitions"] += ctx.transitions
        out["compared"] += ctx.compared
        out["outcomes"].update(ctx.outcomes)
        out["margin"] = max(out["margin"], ctx.margin)
        if msg is not None:
            out["bad"].append((i, msg))
            if len(out["bad"]) >= 3:
                break
    return out


def _run_list(arg):
    fi, idx = arg
    fam = _FAMS[fi]
    msg = None
    for i in idx:
        _, msg = execute(fam, fam.cases[i])
    return msg


def known_findings(pid):
    """Lines `finding: property=<id> key=<hash of family+case> <text>` of KNOWN_FINDINGS.txt."""
    out = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2].strip()
                key, _, text = rest.partition(" ")
                out[key.replace("key=", "")] = text
    return out


def finding_key(fam, case):
    return f"{fam.name}:{h64(canon([fam.name, case])):016x}"


def explore(pid, module, tier, seed, procs=None, deadline_s=None, only=None):
    global _FAMS
    t0 = time.time()
    fams = module.families(tier)
    if only:
        fams = [f for f in fams if f.name in only]
    _FAMS = fams
    procs = procs or min(8, os.cpu_count() or 1)
    limit = deadline_s or float(os.environ.get("VERIF_DEADLINE", 780 if tier == "quick" else 6 * 3600))
    deadline = t0 + limit
    jobs = []
    for fi, f in enumerate(fams):
        n = len(f.cases)
        size = f.chunk or max(1, min(200, math.ceil(n / (procs * 4))))
        for lo in range(0, n, size):
            jobs.append((fi, lo, min(n, lo + size), deadline))
    states, outcomes = set(), collections.Counter()
    tot = collections.Counter()
    per = [collections.Counter() for _ in fams]
    margin, capped, bad = 0.0, False, []
    known = known_findings(pid)
    mpctx = mp.get_context("fork")
    sys.stdout.flush()
    # every chunk runs in a freshly forked process
    stop = False
    with mpctx.Pool(procs, maxtasksperchild=1) as pool:
        results = pool.imap(_chunk, jobs)
        for _ in jobs:
            try:
                r = results.next(timeout=limit + 2 * CASE_SECONDS)
            except mp.TimeoutError:  # a child died without an answer: an error of the run, not a verdict
                pool.terminate()
                print(f"{pid}: a worker process died or hung")
                return 2
            fi = r["fi"]
            states |= r["states"]
            outcomes.update({f"{fams[fi].name}/{k}": v for k, v in r["outcomes"].items()})
            tot["transitions"] += r["transitions"]
            tot["compared"] += r["compared"]
            tot["cases"] += r["done"]
            tot["traces"] += r["done"] - len(r["bad"])
            per[fi]["cases"] += r["done"]
            per[fi]["transitions"] += r["transitions"]
            margin = max(margin, r["margin"])
            capped |= r["capped"]
            for i, msg in r["bad"]:
                key = finding_key(fams[fi], fams[fi].cases[i])
                if key in known:
                    print(f"KNOWN-FINDING: property={pid} {known[key]}")
                    tot["known"] += 1
                    continue
                bad.append((fi, r["lo"], i, msg))
            if len(bad) >= 3:
                stop = True
                break
        if stop:
            pool.terminate()
    wall = time.time() - t0
    replays = []
    for fi, lo, i, msg in bad[:3]:
        fam = fams[fi]
        idx = [i]
        with mpctx.Pool(1, maxtasksperchild=1) as pool:
            again = pool.apply(_run_list, ((fi, idx),))
        note = "fresh process"
        if again is None:
            idx = list(range(lo, i + 1))
            note = "only after the preceding cases of its chunk, in one process (state leaks between cases)"
            with mpctx.Pool(1, maxtasksperchild=1) as pool:
                again = pool.apply(_run_list, ((fi, idx),))
            if again is None:
                note = "did not reproduce when replayed"
        d = os.path.join(ROOT, "replays", pid)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{fam.name}-{h64(canon(fam.cases[i])):016x}.json")
        with open(path, "w") as fp:
            json.dump({"property": pid, "family": fam.name, "tier": tier, "cases": [fam.cases[j] for j in idx],
                       "message": msg, "replayed": again, "note": note, "finding_key": finding_key(fam, fam.cases[i])},
                      fp, indent=1, default=str)
        replays.append(path)
        print(f"family {fam.name}, case {show(canon(fam.cases[i]))}\n  {msg}\n  ({note})")
        print(f"VIOLATION property={pid} replay={path}")
    samples = []
    for f in fams[:6]:
        if f.cases:
            samples.append({"family": f.name, "case": f.cases[len(f.cases) // 2]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2),
        "violations": len(bad),
        "coverage": {
            "states": len(states),
            "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["traces"],
            "comparisons": tot["compared"],
            "distinct_outcomes": len(outcomes),
            "outcomes": dict(outcomes.most_common(40)),
            "worst_error_over_tolerance": round(margin, 6),
            "exhaustive": not capped and not bad,
            "families": [{"name": f.name, "bound": f.bound, "cases": per[k]["cases"], "of": len(f.cases),
                          "transitions": per[k]["transitions"]} for k, f in enumerate(fams)],
            "samples": samples,
            "capped_by_time": capped,
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not only:
        with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as fp:
            json.dump(ev, fp, indent=1, default=str)
    for k, f in enumerate(fams):
        print(f"  {f.name}: {per[k]['cases']}/{len(f.cases)} cases, {per[k]['transitions']} transitions - {f.bound}")
    print(f"{pid}: states={len(states)} transitions={tot['transitions']} traces={tot['traces']} comparisons={tot['compared']} "
          f"outcomes={len(outcomes)} margin={margin:.3g} capped={capped} wall={wall:.1f}s violations={len(bad)}")
    return 1 if bad else 0


COMMON_ASSUMPTIONS = [
    "inputs outside the enumerated alphabets and histories longer than the stated depth are not explored",
    "numpy, scipy, pandas, scikit-learn and the convex solvers compute what they document (tolerances are stated per family)",
    "OSQP's time-based adaptive-rho interval is pinned to 100; BLAS runs one thread",
]
