"""C09 mean-semivariance optimisation."""
from downside import common_families

PARAMS = [{"frequency": 12}, {"frequency": 252, "benchmark": 0.01}, {"frequency": 1, "benchmark": -0.02}, {"frequency": 52, "benchmark": 0.0}]


def families(tier):
    return common_families("semivariance", PARAMS, tier)
