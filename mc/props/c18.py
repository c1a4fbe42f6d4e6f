"""C18 Black-Litterman views, view uncertainty, priors and market-implied quantities."""
import itertools

import numpy as np
import pandas as pd

import bl
import data
from engine import Family
from props.c17 import S2, S3
from pypfopt import BlackLittermanModel, black_litterman as blm

REFUSED = (ValueError, TypeError, AssertionError)


def posterior_of(ctx, m, lab, S, pi, Q, P, omega, tau, what):
    got = ctx.step("bl_returns", m.bl_returns)
    ctx.require(list(got.index) == lab, "posterior returns are not labelled by asset", got=got)
    want, cov = bl.posterior(S, pi, Q, P, omega, tau)
    ctx.close(got.values, want, 1e-8, what)
    ctx.close(ctx.step("bl_cov", m.bl_cov).values, cov, 1e-8, what + " (covariance)")
    return got


def run_absolute(case, ctx):
    """The same absolute views as dict and as series, in the order given, and as an explicit picking matrix."""
    S = np.array(case["S"], float)
    n = len(S)
    lab = data.names(n, case.get("names", "str"))
    frame = pd.DataFrame(S, index=lab, columns=lab)
    if case.get("array"):
        frame, lab = S.copy(), list(range(n))
    pi = np.array(case["pi"], float)
    order, vals = [i for i, _ in case["views"]], [v for _, v in case["views"]]
    P = np.eye(n)[order]
    conf = case.get("conf")
    spec = "default" if conf is None else ["conf", conf]
    omega = bl.omega_of(spec, S, P, .05)
    kw = {} if conf is None else {"omega": "idzorek", "view_confidences": list(conf)}
    views = {lab[i]: v for i, v in case["views"]}
    for arg in (views, pd.Series(vals, index=[lab[i] for i in order])):
        keep = arg.copy()
        m = ctx.step("init", BlackLittermanModel, frame, pi=pi, absolute_views=arg, **kw)
        posterior_of(ctx, m, lab, S, pi, vals, P, omega, .05, "absolute views are not understood as given")
        ctx.require(keep.equals(arg) if isinstance(arg, pd.Series) else keep == arg, "the caller's views were changed")
    m = ctx.step("init", BlackLittermanModel, frame, pi=pi, Q=np.array(vals), P=P, **kw)
    posterior_of(ctx, m, lab, S, pi, vals, P, omega, .05, "a picking matrix does not mean the same views")
    ctx.outcome(len(order))


def run_single(case, ctx):
    """One view: the share of the way from the prior to the view."""
    S, p, q, pi, tau = np.array(case["S"], float), np.array([case["p"]], float), case["q"], np.array(case["pi"], float), case["tau"]
    for c in case["conf"]:
        for spelled in ([c], np.array([c], float), (c,), pd.Series([c])):
            m = ctx.step(["init", c], BlackLittermanModel, S.copy(), pi=pi, Q=np.array([q]), P=p, omega="idzorek", view_confidences=spelled, tau=tau, risk_aversion=case.get("delta", 1))
            got = float((p @ ctx.step("bl_returns", m.bl_returns).values)[0])
            before = float((p @ pi)[0])
            ctx.small(abs(got - (before + c * (q - before))), 1e-6, "a view with confidence c does not move the posterior by the fraction c", got=got, prior=before, view=q, c=c)
            direct = ctx.step("idzorek_method", BlackLittermanModel.idzorek_method, spelled if not isinstance(spelled, pd.Series) else np.array([c]), S, pi.reshape(-1, 1), np.array([[q]]), p, tau)
            ctx.close(direct, bl.omega_of(["conf", [c]], S, p, tau), 1e-10, "idzorek_method")
        ctx.outcome(c)
    m = ctx.step("init", BlackLittermanModel, S.copy(), pi=pi, Q=np.array([q]), P=p, tau=tau)
    before = float((p @ pi)[0])
    ctx.close(float((p @ ctx.step("bl_returns", m.bl_returns).values)[0]), .5 * (before + q), 1e-9, "the default uncertainty is not the prior variance of the view")
    ctx.close(ctx.step("default_omega", BlackLittermanModel.default_omega, S, p, tau), bl.omega_of("default", S, p, tau), 1e-12, "default_omega")


def run_prior(case, ctx):
    S = np.array(case["S"], float)
    n = len(S)
    lab = data.names(n, case["names"])
    perm = case["perm"]
    caps = np.array(case["caps"], float)
    rf, delta = case["rf"], case["delta"]
    want = delta * S @ (caps / caps.sum()) + rf
    frame = pd.DataFrame(S, index=lab, columns=lab)
    capd = {lab[i]: float(caps[i]) for i in perm}
    for arg in (capd, pd.Series(capd)):
        kw = {"risk_free_rate": rf} if rf or case.get("spell") else {}
        got = ctx.step("market_implied_prior_returns", blm.market_implied_prior_returns, arg, delta, frame, **kw)
        ctx.close((got.reindex(lab).values - rf) / case.get("tiny", 1), (want - rf) / case.get("tiny", 1), 1e-10 if case.get("tiny", 1) > .1 else 1e-6, "market prior differs from risk aversion x covariance x market weights + risk-free rate")
        ctx.require(list(got.index) == lab, "market prior is not labelled like the covariance")
        m = ctx.step("init:market", BlackLittermanModel, frame, pi="market", market_caps=arg, risk_aversion=delta, absolute_views={lab[0]: .2}, **kw)
        P = np.eye(n)[[0]]
        posterior_of(ctx, m, lab, S, want, [.2], P, bl.omega_of("default", S, P, .05), .05, "the market prior is not used as such")
    arr = ctx.step("market_implied_prior_returns(array)", blm.market_implied_prior_returns, caps, delta, S, **kw)
    ctx.close(np.asarray(arr), want, 1e-10, "market prior from arrays")
    for pi, val in (("equal", np.ones(n) / n), (None, np.zeros(n))):
        m = ctx.step(["init", pi], BlackLittermanModel, frame, pi=pi, absolute_views={lab[1]: -.1}, risk_aversion=delta)
        P = np.eye(n)[[1]]
        posterior_of(ctx, m, lab, S, val, [-.1], P, bl.omega_of("default", S, P, .05), .05, "equal / absent prior")
    tag, val = ctx.attempt("init:market without caps", BlackLittermanModel, frame, pi="market", absolute_views={lab[0]: .2})
    ctx.require(tag == "err" and isinstance(val, ValueError), "a market prior without capitalisations was accepted")
    ctx.outcome(tuple(perm))


def run_aversion(case, ctx):
    p = case["prices"]
    r = [b / a - 1 for a, b in zip(p, p[1:])]
    f, rf = case["freq"], case["rf"]
    mean = sum(r) / len(r)
    var = sum((x - mean) ** 2 for x in r) / (len(r) - 1)
    want = (mean * f - rf) / (var * f)
    kw = {} if f is None else {"frequency": f}
    if rf:
        kw["risk_free_rate"] = rf
    for arg in (pd.Series(p, dtype=float), pd.DataFrame({"SPY": p}, dtype=float)):
        keep = arg.copy()
        got = ctx.step("market_implied_risk_aversion", blm.market_implied_risk_aversion, arg, **kw)
        ctx.close(float(got), want, 1e-9, "risk aversion is not excess return over variance")
        ctx.require(keep.equals(arg), "the caller's prices were changed")
    if case.get("types"):
        for bad in (p, np.array(p), tuple(p)):
            tag, val = ctx.attempt("bad type", blm.market_implied_risk_aversion, bad)
            ctx.require(tag == "err" and isinstance(val, TypeError), "unlabelled prices were accepted")
    ctx.outcome(want > 0)


def run_invalid(case, ctx):
    S = pd.DataFrame(S3, index=data.names(3), columns=data.names(3))
    a, b, c = data.names(3)
    Q2, P2 = np.array([.1, .2]), np.array([[1, 0, 0], [0, 1, 0.]])
    bad = {
        "unknown asset (dict)": {"absolute_views": {"zz": .1}},
        "unknown asset (series)": {"absolute_views": pd.Series({a: .1, "zz": .2})},
        "views as list": {"absolute_views": [.1, .2, .3]},
        "no views": {},
        "Q without P": {"Q": Q2},
        "Q as text": {"Q": "views", "P": P2},
        "P as text": {"Q": Q2, "P": "picks"},
        "too many views": {"Q": np.array([.1, .2, .3]), "P": P2},
        "P too narrow": {"Q": Q2, "P": P2[:, :2]},
        "P too wide": {"Q": Q2, "P": np.hstack([P2, P2])},
        "prior too short": {"Q": Q2, "P": P2, "pi": np.array([.1, .2])},
        "prior too long": {"Q": Q2, "P": P2, "pi": np.array([.1, .2, .3, .4])},
        "prior as list": {"Q": Q2, "P": P2, "pi": [.1, .2, .3]},
        "unknown prior": {"Q": Q2, "P": P2, "pi": "nonsense"},
        "tau 0": {"Q": Q2, "P": P2, "tau": 0},
        "tau negative": {"Q": Q2, "P": P2, "tau": -.1},
        "tau above 1": {"Q": Q2, "P": P2, "tau": 1.1},
        "risk aversion 0": {"Q": Q2, "P": P2, "risk_aversion": 0},
        "risk aversion negative": {"Q": Q2, "P": P2, "risk_aversion": -1},
        "omega too small": {"Q": Q2, "P": P2, "omega": np.eye(1)},
        "omega too large": {"Q": Q2, "P": P2, "omega": np.eye(3)},
        "omega not square": {"Q": Q2, "P": P2, "omega": np.ones((2, 3))},
        "omega as vector": {"Q": Q2, "P": P2, "omega": np.ones(2)},
        "unknown omega": {"Q": Q2, "P": P2, "omega": "nonsense"},
        "omega as list": {"Q": Q2, "P": P2, "omega": [[1, 0], [0, 1]]},
        "idzorek without confidences": {"Q": Q2, "P": P2, "omega": "idzorek"},
        "too few confidences": {"Q": Q2, "P": P2, "omega": "idzorek", "view_confidences": [.5]},
        "too many confidences": {"Q": Q2, "P": P2, "omega": "idzorek", "view_confidences": [.5, .5, .5]},
        "too few confidences (array)": {"Q": Q2, "P": P2, "omega": "idzorek", "view_confidences": np.array([.5])},
        "too many confidences (array)": {"Q": Q2, "P": P2, "omega": "idzorek", "view_confidences": np.array([.5, .5, .5])},
        "confidence above 1": {"Q": Q2, "P": P2, "omega": "idzorek", "view_confidences": [.5, 1.1]},
        "confidence below 0": {"Q": Q2, "P": P2, "omega": "idzorek", "view_confidences": [-.1, .5]},
        "confidence above 1 (array)": {"Q": Q2, "P": P2, "omega": "idzorek", "view_confidences": np.array([.5, 1.1])},
        "text confidences": {"Q": Q2, "P": P2, "omega": "idzorek", "view_confidences": ["a", "b"]},
    }
    if case["what"] == "list":
        return list(bad)
    tag, val = ctx.attempt(case["what"], BlackLittermanModel, S, **bad[case["what"]])
    ctx.require(tag == "err" and isinstance(val, REFUSED + (IndexError,)), "malformed views were accepted", got=val)
    ctx.outcome(type(val).__name__)


def families(tier):
    deep = tier == "thorough"
    out, ab, single, prior, av = [], [], [], [], []
    for n, S in ((2, S2), (3, S3)) + (((4, data.cov_from([.3, .1, .2, .15], data.sym_corr(4, [.1, .4, -.2, .3, .25, .5])).tolist()),) if deep else ()):
        for k in range(1, n + 1):
            for order in itertools.permutations(range(n), k):
                for vals in itertools.product([-.1, .04, .3], repeat=k) if n < 4 else [(-.1, .04, .3, .11)[:k]]:
                    for conf in (None, [.2, .9, .5, 1][:k]):
                        for nm in ("str", "int"):
                            ab.append({"S": S, "pi": [.05, .1, .2, .15][:n], "views": [list(v) for v in zip(order, vals)], "conf": conf, "names": nm, "array": nm == "int" and n == 2})
    out.append(Family("absolute", ab, run_absolute, f"every ordered subset of 2-{4 if deep else 3} assets x 3 view returns each x default/confidences, as dict, series and picking matrix, string and integer tickers", chunk=40))
    vecs = [p for p in itertools.product([-1, -.5, 0, .5, 1] if deep else [-1, 0, .5, 1], repeat=3) if any(p)]
    for p in vecs:
        if abs(np.array(p) @ np.array(S3) @ np.array(p)) < 1e-6:
            continue
        for tau, q in itertools.product([.05, 1], [-.1, .3]):
            single.append({"S": S3, "p": list(p), "q": q, "pi": [.05, .1, .2], "tau": tau, "conf": [0, 1e-6, .001, .004, .0099, .01, .25, .5, .9, .991, .996, .9999, 1], "delta": 2.5 if q > 0 else 1})
    out.append(Family("single-view", single, run_single, f"every picking vector over {'{-1,-.5,0,.5,1}' if deep else '{-1,0,.5,1}'}^3 x confidences x tau x views", chunk=10))
    for S, n in ((S2, 2), (S3, 3)):
        for caps in itertools.product([1, 40, 7.5], repeat=n):
            for perm in itertools.permutations(range(n)):
                for rf, delta in ((0, 1), (.02, 2.5), (-.01, .3)):
                    prior.append({"S": S, "caps": list(caps), "perm": list(perm), "rf": rf, "delta": delta, "names": "int" if rf else "str", "spell": delta == 1})
    out.append(Family("priors", prior, run_prior, "every capitalisation vector over 3 values x order of the capitalisations x risk aversion and risk-free rate; equal and absent prior", chunk=30))
    for p in itertools.product([1, 1.1, .8, 1.5], repeat=5 if deep else 4):
        r = [b / a - 1 for a, b in zip(p, p[1:])]
        if np.var(r) > 1e-9:
            for f, rf in ((252, 0), (12, .03), (1, -.02)):
                av.append({"prices": list(p), "freq": f, "rf": rf, "types": p[0] == p[1] == 1})
    out.append(Family("risk-aversion", av, run_aversion, f"every price series of {5 if deep else 4} prices over 4 values x frequency and risk-free rate", chunk=60))
    wide, wide_av, wide_one = [], [], []
    for i, (c, v, d) in enumerate(itertools.product((1e-3, 1, 1e9, 3e12), (1e-7, 1e-3, 1, 1e4), (1e-3, 1, 2.24, 300))):
        for n, caps in ((3, [1, 40, 7.5]), (3, [1e-6, 1, 0]), (12, [1 + (7 * j) % 11 for j in range(12)]), (40, [2.0 ** ((5 * j) % 31) for j in range(40)])):
            S = S3 if n == 3 else data.structured(n)[1].tolist()
            perm = [(j * 7 + i) % n for j in range(n)]
            wide.append({"S": (v * np.array(S)).tolist(), "caps": [c * x for x in caps], "perm": perm, "rf": (0, .0001, -.02, .3)[i % 4], "delta": d, "names": ("str", "int")[i % 2], "spell": i % 3 == 0, "tiny": v})
    out.append(Family("prior-scales", wide, run_prior, "capitalisations from a thousandth to trillions x covariances over eleven magnitudes x risk aversions x 3 to 40 assets in any order", chunk=12))
    for v, tau, q in itertools.product((1e-6, 1e-3, 1, 1e2), (1e-5, .002, .05, .7, 1), (1e-3, .3, 7)):
        for p in ([1, 0, 0], [.2, -1, .8], [0, 30, -30]):
            wide_one.append({"S": (v * np.array(S3)).tolist(), "p": p, "q": q * max(map(abs, p)), "pi": [.05, .1, .2], "tau": tau, "conf": [1e-6, .004, .25, .5, .9, .996, 1], "delta": 1, "form": "wide"})
    out.append(Family("single-view-scales", wide_one, run_single, "one view of any size x covariances over nine magnitudes x tau from 1e-5 to 1", chunk=6))
    for n, k, f, rf in itertools.product((3, 12, 253, 2003), (1e-6, 1e-3, .02), (1, 12, 252, 365, 98280), (0, 1e-6, .05, -.3)):
        r = [k * (((31 * t * t + 17 * t + 5) % 101) / 60 - .7) for t in range(n)]
        p = [10.0 ** ((n + f) % 7 - 3)]
        for x in r:
            p.append(p[-1] * (1 + x))
        wide_av.append({"prices": p, "freq": f, "rf": rf})
    out.append(Family("risk-aversion-sizes", wide_av, run_aversion, "price series of 3 to 2003 returns, from a ten-thousandth of a percent to two percent x frequencies up to 98280", chunk=20))
    out.append(Family("invalid", [{"what": w} for w in run_invalid({"what": "list"}, None)], run_invalid, "malformed views, priors, uncertainties, confidences", chunk=8))
    return out
