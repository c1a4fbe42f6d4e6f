"""C10 mean-CVaR optimisation."""
import data
from downside import common_families, run_report
from engine import Family

PARAMS = [{"beta": .5}, {"beta": 0}, {"beta": .8}, {"beta": .9}, {"beta": .95}]
KIND = "cvar"


def families(tier):
    out = common_families(KIND, PARAMS, tier)
    rep = [dict(kind=KIND, R=data.grid_returns(12, 3, s).tolist(), mu=[.05, .1, .2], bounds=["pair", 0, 1], beta=.8, target=t) for s in (0, 1) for t in (.3,)]
    out.append(Family("slack-target", rep, run_report, "the reported risk when the target is not binding"))
    return out
