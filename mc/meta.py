"""Writes properties.jsonl and MANIFEST.json from one list (run by hand: /opt/venv/bin/python mc/meta.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, anchors, observe):
    files, mech = [], []
    for a in anchors:
        f, names = a.split(":")
        files.append(f)
        for n in names.split(","):
            mech.append({"name": n.strip(), "where": f})
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": mech, "observe_at": observe, "hook_needed": None}})


ER, RM, BO, OF = "pypfopt/expected_returns.py", "pypfopt/risk_models.py", "pypfopt/base_optimizer.py", "pypfopt/objective_functions.py"
EF, SV, CV, CD = ("pypfopt/efficient_frontier/efficient_%s.py" % x for x in ("frontier", "semivariance", "cvar", "cdar"))
CL, HR, BL, DA, PL = "pypfopt/cla.py", "pypfopt/hierarchical_portfolio.py", "pypfopt/black_litterman.py", "pypfopt/discrete_allocation.py", "pypfopt/plotting.py"

prop("C01", "Prices and returns convert into each other exactly, for any price history",
     "For every table (or single series) of positive prices, with or without missing entries, converting prices to simple or log returns gives for each asset exactly the period-over-period change of that asset's price (missing where either of the two prices is missing), labelled with the later date and the asset's name. Rows in which no asset has a return are left out, no others are. Converting returns back to prices gives the compounded price path starting at 1, and the two conversions invert each other.",
     ["inputs"], "every price table up to a bounded length over a small alphabet of prices incl. missing ones, simple and log, one or two columns, plus structured large tables",
     "The tests convert one CSV of stock prices; leading, inner and trailing gaps, single rows and single columns never vary.",
     [f"{ER}:returns_from_prices, prices_from_returns, log_returns_from_prices"], ["returned DataFrame or Series"])
prop("C02", "Expected-return estimates equal their definitions for every setting",
     "The mean historical return (arithmetic or compounded), the exponentially weighted mean return and the CAPM return of every asset equal their documented definitions computed from that asset's own (non-missing) returns, for every combination of compounding, frequency, span, risk-free rate, market series, prices or returns as input, simple or log returns, table or array. The estimate is labelled by asset, is the same whether the estimator is called directly or chosen by name (the mean historical return being the default), and an unknown name is refused.",
     ["inputs", "configurations"], "every small price and return table over a finite alphabet with missing entries, and the full product of settings on structured tables",
     "The tests compare a few settings on one data set, mostly through shapes and single numbers; the settings interact and gaps matter.",
     [f"{ER}:return_model, mean_historical_return, ema_historical_return, capm_return"], ["returned Series"])
prop("C03", "Sample, semi- and exponential covariance equal their definitions",
     "The sample covariance, the semicovariance (co-movement below the benchmark) and the exponentially weighted covariance equal their documented definitions, annualised by the frequency, for every combination of prices or returns, simple or log, benchmark, span, frequency and repair method, and are labelled by asset and symmetric. If such an estimate is not positive semidefinite it is replaced by its repaired version, otherwise it is left alone. The estimate is the same whether the estimator is called directly or chosen by name.",
     ["inputs", "configurations"], "every small return and price table over a finite alphabet, every pattern of missing values in a 6x3 table, and the product of settings on structured tables",
     "The tests check one data set with positive definite estimates; gaps, indefinite pairwise estimates, and more assets than observations are not covered.",
     [f"{RM}:risk_matrix, sample_cov, semicovariance, exp_cov, fix_nonpositive_semidefinite"], ["returned DataFrame"])
prop("C04", "Shrinkage estimators equal their published formulas in any order of use",
     "Every covariance shrinkage estimator (manual shrinkage with any intensity in [0,1], Ledoit-Wolf with each of its three targets, oracle approximating) returns the convex combination of the sample covariance and its target with the intensity of the published formula, annualised by the frequency and labelled by asset, and reports that intensity. This holds for any order in which estimators are called on one shrinkage object, and the result equals that of choosing the same estimator by name; intensities outside [0,1] and unknown targets are refused. The result is positive semidefinite and symmetric.",
     ["inputs", "histories", "configurations"], "every small return table over a finite alphabet, every sequence of estimators up to a depth on one object, structured large tables",
     "The tests check one data set and each estimator once on a fresh object; state left by an earlier estimator or degenerate samples are not reached.",
     [f"{RM}:CovarianceShrinkage"], ["returned DataFrame", "reported intensity"])
prop("C05", "Covariance repair and covariance/correlation conversion",
     "Repairing a symmetric matrix leaves it unchanged (apart from rounding) if it is already positive semidefinite; otherwise the result is the matrix with its negative eigenvalues set to zero (spectral method) or shifted by the most negative eigenvalue (diagonal method), is positive semidefinite, and keeps labels and container. Converting a covariance matrix to correlations divides by the standard deviations, converting back with the standard deviations recovers it, and both keep labels.",
     ["inputs"], "every symmetric 2x2 and 3x3 matrix over a small alphabet, every correlation pattern with several volatilities, structured larger ones",
     "The tests repair one or two matrices; which eigenvalues are negative, labels and containers vary in use.",
     [f"{RM}:fix_nonpositive_semidefinite, _is_positive_semidefinite, cov_to_corr, corr_to_cov"], ["returned matrix"])
prop("C06", "Mean-variance portfolios are admissible and optimal, or the request is refused",
     "For every mean-variance problem (expected returns, covariance, weight bounds, linear and sector constraints, additional objectives) and every request - minimum volatility, maximum quadratic utility, target risk, target return, long/short or market neutral - the weights returned respect every bound and constraint, sum to one (zero if market neutral), meet the target, and no admissible portfolio has a better objective. A request is refused exactly when no admissible portfolio meets it or its parameters are invalid.",
     ["inputs", "configurations"], "products of returns x covariances x bounds x constraint sets in several spellings x additional objectives x methods x targets around the attainable limits",
     "The tests check single solutions on one data set, usually only that weights sum to one and a recorded performance is met; admissibility and optimality of all combinations are not checked against an independent oracle.",
     [f"{EF}:min_volatility, max_quadratic_utility, efficient_risk, efficient_return, _market_neutral_bounds_check", f"{BO}:add_objective, add_constraint, add_sector_constraints, _solve_cvxpy_opt_problem"], ["returned weights", "exceptions"])
prop("C07", "The maximum-Sharpe portfolio honours every constraint and is optimal",
     "For every risk-free rate below some attainable return, and finite weight bounds, the maximum-Sharpe portfolio respects the bounds and every linear, sector or convex constraint the user added, in whatever form it was written (constants or variables on either side), sums to one, and no admissible portfolio has a higher Sharpe ratio. If no asset returns more than the risk-free rate, the request is refused.",
     ["inputs", "configurations"], "returns x covariances x bounds x rates x constraint sets in every spelling",
     "The change of variables behind this request rewrites every constraint; the tests try only a few constraint shapes and compare with recorded numbers.",
     [f"{EF}:max_sharpe", f"{BO}:_map_bounds_to_constraints, _make_output_weights"], ["returned weights", "exceptions"])
prop("C08", "Any sequence of requests on one optimiser is answered correctly or refused",
     "For every sequence of optimisation requests on one optimiser object (mean-variance, semivariance, CVaR or CDaR), each request is either answered with weights that are admissible and optimal for that request and the constraints given before the first one, or refused. A refused request leaves the weights and the reported performance as they were; new constraints or objectives after an optimisation are refused; and repeating a parametrised request with another parameter is answered whenever it is attainable, even after an unattainable one. The reported performance is always that of the current weights.",
     ["histories"], "every sequence of 3-4 requests from alphabets of 6-16 requests incl. unattainable and invalid ones, for each optimiser",
     "The tests run at most two requests in a row on an object; interactions between cached problems, parameters and refused requests need all histories.",
     [f"{BO}:_solve_cvxpy_opt_problem, deepcopy, is_parameter_defined, update_parameter_value, portfolio_performance", f"{EF}:_validate_market_neutral, max_sharpe, efficient_risk, efficient_return", f"{SV}:min_semivariance", f"{CV}:min_cvar", f"{CD}:min_cdar"], ["returned weights", "reported performance", "exceptions"])
for cid, name, f, lab in (("C09", "semivariance", SV, "min_semivariance, max_quadratic_utility, efficient_risk, efficient_return, portfolio_performance"),
                          ("C10", "CVaR", CV, "min_cvar, efficient_risk, efficient_return, portfolio_performance"),
                          ("C11", "CDaR", CD, "min_cdar, efficient_risk, efficient_return, portfolio_performance")):
    defi = {"semivariance": "the annualised mean squared shortfall of portfolio returns below the benchmark",
            "CVaR": "the average portfolio loss in the worst (1 - beta) share of periods, for the confidence level beta",
            "CDaR": "the average drawdown (of uncompounded cumulative portfolio returns) in the worst (1 - beta) share of periods"}[name]
    prop(cid, f"Mean-{name} portfolios are admissible and optimal and report their risk",
         f"With the risk defined as {defi}, for every return history, weight bounds, constraints, additional objectives and parameters, the {'minimum-risk, maximum-utility' if name == 'semivariance' else 'minimum-risk'}, target-return and target-risk portfolios (long/short or market neutral) are admissible, meet their target, and no admissible portfolio does better; unattainable requests are refused. Periods in which some asset's return is missing are left out. The performance reported afterwards is the expected return and the risk{' (semideviation) and Sortino ratio' if name == 'semivariance' else ''} of the portfolio under that definition. Weights are labelled by asset, also if no expected returns are given.",
         ["inputs", "configurations"], "every small two-asset return table over a 3-value alphabet with rotating parameters, structured tables x parameters x bounds x constraint sets x requests",
         "The tests compare solutions with recorded numbers for one data set; there is no independent risk computation, and parameters, constraints and market neutrality are barely combined.",
         [f"{f}:{lab}"], ["returned weights", "reported performance", "exceptions"])
prop("C12", "Objective functions equal their definitions for numbers and expressions",
     "Portfolio variance, portfolio return, Sharpe ratio, L2 regularisation, quadratic utility, transaction cost, ex-ante and ex-post tracking error equal their documented definitions for every weight vector and parameter, with the documented sign. They have the same value whether the weights are numbers or an optimisation expression holding those numbers.",
     ["inputs"], "all weight vectors over a grid for 1-3 assets and longer ones, with all signs and parameters",
     "The tests evaluate each function at one point, as numbers only.",
     [f"{OF}:portfolio_variance, portfolio_return, sharpe_ratio, L2_reg, quadratic_utility, transaction_cost, ex_ante_tracking_error, ex_post_tracking_error"], ["returned value"])
prop("C13", "Reported performance is that of the weights",
     "The reported expected return, volatility and Sharpe ratio (or Sortino ratio, CVaR, CDaR) are exactly those of the weights: for the free-standing function with weights in any container or a dictionary in any order (tickers matched by name, missing ones counting zero), with or without expected returns, and for every optimiser class after optimising or after weights were set by the user, at the rate asked for; printing changes nothing and prints the same numbers. If no weights have been computed yet, or a dictionary has no matching non-zero weight, the request is refused.",
     ["inputs", "configurations"], "weights in all containers x label placement x rates over weight grids, every optimiser class x each of its optimisations",
     "The tests check recorded numbers for one data set and one container.",
     [f"{BO}:portfolio_performance", f"{EF}:portfolio_performance", f"{SV}:portfolio_performance", f"{CV}:portfolio_performance", f"{CD}:portfolio_performance", f"{CL}:portfolio_performance", f"{HR}:portfolio_performance", f"{BL}:portfolio_performance"], ["returned tuple", "printed text"])
prop("C14", "Weight bounds mean the same box in every accepted spelling and optimiser",
     "A pair of numbers bounds every weight; a collection of pairs or a pair of arrays bounds each asset separately; None leaves that side open (for the critical-line algorithm, which needs numbers, all spellings without None). For every optimiser and every spelling (lists, tuples, arrays, integers or floats) the weights that can be obtained are exactly those inside the box with the required sum, and market neutrality replaces nonnegative bounds by symmetric (-1, 1) ones and keeps all others. Collections of the wrong length are refused.",
     ["inputs", "configurations"], "every assignment of bound pairs to 1-4 assets in each spelling, for each optimiser class, probed in every axis direction",
     "The tests use a handful of bounds and look at whether weights stay inside, not whether the full box can be reached.",
     [f"{BO}:_map_bounds_to_constraints", f"{EF}:_market_neutral_bounds_check", f"{CL}:__init__"], ["returned weights", "exceptions"])
prop("C15", "The critical-line algorithm gives optimal portfolios and an efficient frontier",
     "For every problem with a positive definite covariance and bounds that some portfolio meets, also with tied expected returns, the critical-line algorithm's minimum-volatility and maximum-Sharpe (rate zero) portfolios are inside the bounds, sum to one and are optimal. Its efficient frontier, for any number of points asked for, consists of portfolios with their true return and volatility, each the least volatile with that return (among equally high returns up to rounding, the last), descending from the highest attainable return to the minimum-volatility portfolio. Answers do not depend on which requests were made before on the object.",
     ["inputs", "histories"], "all two- and three-asset instances over grids of returns, correlations and bounds, structured larger ones, every sequence of requests up to a depth",
     "The tests check recorded performance for one data set and that the frontier has plausible shape; the algorithm's path through turning points depends on every input.",
     [f"{CL}:_solve, _init_algo, _compute_lambda, _compute_w, _purge_num_err, _purge_excess, max_sharpe, min_volatility, efficient_frontier"], ["returned weights", "returned frontier"])
prop("C16", "Hierarchical risk parity follows its documented recursion",
     "For every return history or covariance matrix and every linkage method, the hierarchical-risk-parity weights are those of recursive bisection of the assets ordered by the clustering of their correlation distances, splitting each half-pair inversely to the variance of its inverse-variance portfolio. They are nonnegative, sum to one, are labelled by asset in sorted order, do not change when all returns are scaled by the same factor, and do not depend on earlier optimisations on the object; the reported performance belongs to them. Unknown linkage methods and missing inputs are refused.",
     ["inputs", "histories", "configurations"], "every correlation pattern over a small alphabet for 2-5 assets x volatilities x linkage methods, structured return tables, every sequence of optimisations up to a depth",
     "The tests compare one recorded portfolio and some shape conditions; the tree and hence the split pattern depend on the input.",
     [f"{HR}:optimize, _get_cluster_var, _get_quasi_diag, _raw_hrp_allocation, portfolio_performance"], ["returned weights", "reported performance"])
prop("C17", "Black-Litterman posterior and implied weights equal the published formulas",
     "For every prior, covariance, set of views, view uncertainty and tau, the posterior expected returns and posterior covariance equal the Black-Litterman formulas, and the implied weights are proportional to (risk aversion x covariance)^-1 times the posterior returns and sum to one. This holds for every order and repetition of requests on one model, also after weights were set by the user; the reported performance is that of the current weights under the posterior.",
     ["inputs", "histories"], "priors x covariances x view sets x tau x uncertainties, every sequence of requests up to a depth",
     "The tests check a few recorded values; the cached intermediate results are never exercised in different orders.",
     [f"{BL}:bl_returns, bl_cov, bl_weights, optimize, portfolio_performance"], ["returned Series / DataFrame / weights", "reported performance"])
prop("C18", "Black-Litterman views, uncertainty and priors are understood as given",
     "Absolute views (in any order, as dictionary or series) and relative views given with a picking matrix mean the stated views on the named assets; default view uncertainty is proportional to the prior variance of the views, and a view with Idzorek confidence c moves the posterior return of that view by the fraction c of the way from the prior to the view. Market priors equal risk aversion x covariance x market weights + risk-free rate, also when chosen as 'market', equal priors are the same for all assets, and market-implied risk aversion equals excess return over variance of the market. Views on unknown assets, out-of-range confidences and inconsistent shapes are refused.",
     ["inputs", "configurations"], "every subset and order of absolute views, every relative view over small picking vectors, grids of confidences, prior kinds and containers",
     "The tests use two or three view sets in one order.",
     [f"{BL}:__init__, _parse_views, _set_pi, _set_Q_P, _set_omega, _set_tau, idzorek_method, default_omega, market_implied_prior_returns, market_implied_risk_aversion"], ["returned Series", "exceptions"])
prop("C19", "Discrete allocation: whole shares, within budget, every unit accounted for",
     "For every portfolio, price vector, value, short ratio and reinvestment setting, greedy and integer-programming allocation buy whole, non-zero numbers of shares, long for positive and short for negative weights only, and the leftover equals the money available minus the net cost of those shares (short proceeds counting only if reinvested), up to the solver's tolerance never negative. Prices are matched to weights by ticker, in any order. Requests on one allocation object do not influence each other, the latest non-missing prices are taken from a price table, and invalid inputs are refused.",
     ["inputs", "histories"], "weight vectors x price pairs x values x short ratios x reinvestment x solvers, all histories of requests up to a depth, every small price table",
     "The tests check a few portfolios with recorded leftovers.",
     [f"{DA}:DiscreteAllocation, greedy_portfolio, lp_portfolio, _remove_zero_positions, get_latest_prices"], ["returned allocation and leftover"])
prop("C20", "Integer-programming allocation is the best whole-share portfolio",
     "For every portfolio, price vector and value, no affordable whole-share portfolio has a smaller sum of absolute deviations from the ideal money amounts plus money left over than the integer-programming allocation. For long/short portfolios this holds for the long and the short part with their own budgets. (The default solver is documented to fall short for large portfolios: from about ten assets on, this is claimed for solvers that search to the end.)",
     ["inputs"], "weight vectors x prices x values for 2-4 assets against every affordable whole-share portfolio",
     "The tests check recorded allocations; optimality needs the whole space of alternatives.",
     [f"{DA}:lp_portfolio"], ["returned allocation and leftover"])
prop("C21", "Greedy allocation follows its documented two-round rule",
     "For every portfolio, price vector and value, the greedy allocation first buys, in descending order of weight, as many whole shares as each asset's share of the value pays for, and then repeatedly buys one share of the asset furthest below its ideal weight that the remaining money can pay for, until none can be paid for. For long/short portfolios this holds for the long and the short part with their own budgets.",
     ["inputs"], "weight vectors x prices x values for up to 35 assets, against a reference that follows every tie",
     "The tests check recorded allocations for one portfolio.",
     [f"{DA}:greedy_portfolio"], ["returned allocation and leftover"])
prop("C22", "Stored weights are the returned ones; cleaning and saving lose nothing",
     "For every optimiser, the weights an optimisation returns are the ones it keeps, and (where setting weights is available) setting them from a dictionary in any order stores each under its own asset. Cleaned weights set exactly those with absolute value below the cutoff to zero, round the others to the requested number of decimals (or not at all), keep every asset, and leave the stored weights as they are. A file saved as csv, json or text contains exactly the cleaned weights of all assets; other extensions and missing weights are refused.",
     ["inputs", "histories"], "weight vectors over a grid around the cutoffs x cutoffs x rounding x classes x file formats x ticker types, every sequence of set/clean/save up to a depth",
     "The tests clean one portfolio and save one file per format.",
     [f"{BO}:clean_weights, set_weights, save_weights_to_file, _make_output_weights"], ["returned weights", "file contents"])
prop("C23", "Inputs are never changed and separate objects never influence each other",
     "No function or method changes the data the caller passes in (tables, series, arrays, lists or dictionaries of returns, covariances, bounds, views, weights, prices, sectors). What an object answers depends only on its own inputs and history: creating, using or discarding any other object or calling any function before or in between does not change any answer, even when both were given the same data.",
     ["histories", "inputs"], "every API entry point with every input container fingerprinted before and after; every ordered pair of entry points run one before the other and interleaved on the same shared inputs",
     "The tests use fresh data for each test and rarely look at the inputs afterwards.",
     [f"{BO}:BaseOptimizer, BaseConvexOptimizer", f"{EF}:EfficientFrontier", f"{CL}:CLA", f"{HR}:HRPOpt", f"{BL}:BlackLittermanModel", f"{DA}:DiscreteAllocation", f"{ER}:return_model", f"{RM}:risk_matrix"], ["caller's objects", "results"])
prop("C24", "Results do not depend on the order of the assets",
     "Presenting the same assets in another order (returns, covariances, bounds, constraints, views, prices and weights permuted alike) permutes every result alike: estimates, optimal weights, performance, posterior returns, allocations (hierarchical risk parity excepted, whose bisection follows the order of the leaves of its tree). Each value stays attached to its ticker.",
     ["inputs"], "every permutation of 3-4 assets for every estimator, optimiser request, Black-Litterman output and allocation",
     "The tests use one column order throughout.",
     [f"{ER}:return_model", f"{RM}:risk_matrix, CovarianceShrinkage", f"{EF}:EfficientFrontier", f"{SV}:EfficientSemivariance", f"{CV}:EfficientCVaR", f"{CD}:EfficientCDaR", f"{CL}:CLA", f"{HR}:HRPOpt", f"{BL}:BlackLittermanModel", f"{DA}:DiscreteAllocation"], ["all results"])
prop("C25", "Plots show the true values",
     "The covariance plot shows the matrix given (or its correlations) with the right tickers; the weights plot shows every weight under its own ticker in descending order; the dendrogram shows the clustering of an optimised hierarchical portfolio. The efficient-frontier plot of a mean-variance or critical-line optimiser shows only true frontier points - return and volatility of optimal portfolios under the user's bounds and constraints, one for each attainable value of the parameter (target return, target risk or risk aversion) in the order given, by default returns from that of the minimum-volatility portfolio to just below the maximum - and, if asked, each asset's own return and volatility. Plotting leaves the optimiser able to answer further requests of the same kind correctly, and changes no answer of a critical-line optimiser.",
     ["inputs", "configurations", "histories"], "weight vectors and matrices over small grids, both optimiser classes x parameter kind x parameter range x plot options x histories",
     "The tests check only that an axis with some artists is returned.",
     [f"{PL}:plot_covariance, plot_dendrogram, plot_efficient_frontier, plot_weights, _plot_cla, _plot_ef, _ef_default_returns_range, _ef_default_risk_range"], ["data of the drawn artists"])
prop("C26", "A copy of an optimiser is independent of the original and answers like it",
     "A copy of an optimiser taken at any point of its history holds the same weights, reports the same performance, and answers every later request as the original would have. Requests on, and constraints added to, the copy or the original never affect the other.",
     ["histories"], "every history of up to three operations before and after copying, interleaved on copy and original, for each convex optimiser",
     "The tests copy an unused or once-used object and look at one solution.",
     [f"{BO}:deepcopy, _solve_cvxpy_opt_problem, is_parameter_defined"], ["returned weights", "reported performance"])
prop("C27", "Custom objectives are optimised under the constraints",
     "A custom convex objective, alone or with additional objectives and constraints, yields weights that respect the bounds, the user's constraints and, unless switched off, sum to one, and no admissible portfolio is better; parameters of the objective are passed through by name. A custom objective minimised with the scipy back end, given as a function of the weights and positional or single arguments, with equality or inequality constraints and an optional initial guess, yields weights that respect bounds and constraints whenever some weights do, and that are optimal (to the accuracy of that back end) when the objective is convex and smooth. Convex requests that are not convex or have no admissible portfolio are refused. Repeated requests on one optimiser are answered correctly or refused, never with an earlier answer.",
     ["inputs", "configurations", "histories"], "objectives x bounds x constraints x argument forms x constraint switches against an independent optimum, every sequence of 3-4 custom requests on one optimiser",
     "The tests compare a few custom objectives with built-in ones on one data set.",
     [f"{BO}:convex_objective, nonconvex_objective, add_objective, add_constraint"], ["returned weights"])
prop("C28", "Every user constraint is honoured by every optimiser and request",
     "Every constraint the user adds before optimising - linear constraints in any spelling, vector limits, upper and lower sector limits over any (also partial or overlapping) mapping of tickers to sectors, turnover and concentration limits, caps on the norm or the variance of the weights - holds in the weights returned by every request of every optimiser (mean-variance including maximum Sharpe, semivariance, CVaR, CDaR), also with short positions, for string or integer tickers, with assets labelled by the expected returns or else by the columns of the returns; and no portfolio that satisfies them does better at the request. Requests whose constraints cannot be satisfied are refused. A satisfiable limit on a sector no asset belongs to has no effect or is refused, an unsatisfiable one is refused, and a constraint that is not a function is refused.",
     ["inputs", "configurations"], "constraint sets and sector maps x optimiser classes x every request x ticker kinds x label sources",
     "The tests add one sector map to one class and check two methods.",
     [f"{BO}:add_constraint, add_sector_constraints, _map_bounds_to_constraints", f"{EF}:max_sharpe, efficient_risk, efficient_return, max_quadratic_utility", f"{SV}:EfficientSemivariance", f"{CV}:EfficientCVaR", f"{CD}:EfficientCDaR"], ["returned weights", "exceptions"])

prop("C29", "Solver settings and verbosity are honoured and change nothing else",
     "For every convex optimiser, every request, and also after copying or an earlier request, the solver named at construction is the one that runs, for every problem solved on the way; its options reach it (one allowed iteration is refused as not solved); an unknown solver is refused rather than replaced; and every suitable solver gives the same portfolio. The same holds for the method of the scipy back end and the solver of the integer-programming allocation. Without verbose nothing is printed; with verbose something is, and results are unchanged; a verbose allocation report states each asset's allocated and desired weight, the root-mean-square error and the remaining funds of the returned allocation.",
     ["configurations", "histories"], "optimisers x requests x solvers x options x preparations, recorded at the boundary to the solver; output read at the file-descriptor level",
     "The tests set a solver once and never look at what ran, or at what is printed.",
     [f"{BO}:BaseConvexOptimizer, _solve_cvxpy_opt_problem, nonconvex_objective, deepcopy", f"{EF}:efficient_return, _max_return", f"{DA}:greedy_portfolio, lp_portfolio, _allocation_rmse_error"], ["solver invoked", "standard output", "returned weights"])
prop("C30", "The pipeline from prices to whole shares is right in every combination",
     "For every combination of return model, risk model, optimiser and request, the documented pipeline - estimate from a price table, optimise (mean-variance, critical line, hierarchical, Black-Litterman, semivariance, CVaR or CDaR on the price history), clean the weights, take the latest prices and allocate - gives estimates that equal their definitions, weights that are admissible and optimal for those estimates, the performance of those weights, and an allocation of exactly those weights, each labelled by the price table's columns. The price table is left unchanged.",
     ["configurations", "inputs"], "the full product of 4 return models x 8 risk models x 19 requests x 2 allocations on price tables with and without gaps, string and integer tickers",
     "The tests run each stage on its own with one fixed data set; how stages fit together is exercised in a few combinations only.",
     [f"{ER}:return_model, returns_from_prices", f"{RM}:risk_matrix", f"{EF}:EfficientFrontier", f"{CL}:CLA", f"{HR}:HRPOpt", f"{BL}:BlackLittermanModel", f"{DA}:DiscreteAllocation, get_latest_prices", f"{BO}:clean_weights"], ["all results"])
prop("C31", "Arguments outside their documented range are refused without effect",
     "Every constructor, request and function refuses arguments outside its documented range, with the documented exception where one is named: expected returns, covariances, returns, views, picking matrices, uncertainties, weights or prices in the wrong container, of the wrong size or with gaps, weight bounds that are neither a pair nor a collection per asset, a confidence level outside [0, 1), tau outside (0, 1], view confidences outside [0, 1] (at any position), non-positive risk aversion or portfolio value, a negative short ratio, non-numeric, negative or unattainable targets, a risk-free rate no asset exceeds, unknown linkage, shrinkage, repair, model or file kinds, requests a class does not offer, constraints that are not functions or come after an optimisation, and results asked for before they exist. Values inside the range, up to its ends, are accepted. A refused call leaves weights and reports as they were, and later valid requests are answered as if it had not been made.",
     ["inputs", "histories"], "every argument and pair of arguments of every constructor x values outside and inside the range; optimisers x state x every refused call and ordered pairs of them followed by a valid request",
     "The tests try one or two bad values for some arguments, never at the ends of the range, in pairs, or on an object that is in use.",
     [f"{BO}:_map_bounds_to_constraints, clean_weights, save_weights_to_file, add_constraint, add_objective, portfolio_performance", f"{EF}:EfficientFrontier", f"{SV}:EfficientSemivariance", f"{CV}:EfficientCVaR", f"{CD}:EfficientCDaR",
      f"{BL}:BlackLittermanModel", f"{DA}:DiscreteAllocation, get_latest_prices", f"{HR}:HRPOpt", f"{RM}:risk_matrix, fix_nonpositive_semidefinite", f"{ER}:return_model", f"{PL}:plot_efficient_frontier"], ["exceptions", "weights and reports afterwards"])

prop("C32", "The same data in another representation gives the same results",
     "No result depends on how the same numbers are presented: integers instead of floating-point numbers with the same values, single precision (to its accuracy; the critical-line algorithm excepted), arrays of any memory layout, read-only arrays, tables with named axes or assembled column by column, any kind of row index (numbers, dates, also descending, with a time zone, within a day, periods, text), any kind of asset label (text, also such as 'nan' or '0', numbers, dates, mixed), lists for tuples and tuples for lists, and Python or (where a number is accepted without a type check) numpy scalars as settings. Every entry point gives the same values, attached to the same assets.",
     ["inputs", "configurations"], "every spelling of every entry point (about 400, on tables and on arrays) x 18 representations x 6 kinds of labels, 180 calls on whole numbers x integer types, all calls in single precision, 120 settings x number types",
     "The tests use one table of floats with text labels and dates; what code does to dtypes, indexes and layouts cannot be seen there.",
     [f"{ER}:return_model, returns_from_prices, prices_from_returns, mean_historical_return, ema_historical_return, capm_return", f"{RM}:risk_matrix, fix_nonpositive_semidefinite, CovarianceShrinkage, cov_to_corr", f"{EF}:EfficientFrontier, _validate_expected_returns, _validate_cov_matrix",
      f"{CL}:__init__", f"{HR}:HRPOpt", f"{BL}:BlackLittermanModel", f"{DA}:DiscreteAllocation, get_latest_prices", f"{BO}:_map_bounds_to_constraints, set_weights, portfolio_performance"], ["all results", "exceptions"])

NOTES = {}
LEVEL = "model_checking"


def note(pid):
    return NOTES.get(pid, "Exhaustive within the bounds printed by the check and stated in its evidence file: every case of every family is executed on the real code and every step is compared with an independent reference or a certified optimality bound; nothing is sampled. Trusts the reference model in mc/, numpy and scipy (LP/eigenvalue routines) and the stated tolerances; says nothing beyond the bounds.")


def main():
    have = [p for p in P if os.path.exists(os.path.join(ROOT, "mc", "props", p["id"].lower() + ".py"))]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            for m in p["anchors"]["files"]:
                assert os.path.exists(os.path.join("/repo", m)), m
            f.write(json.dumps(p) + "\n")
    man = {"version": 1, "setup_cmd": "bash mc/setup.sh", "checks": [], "not_applicable": [],
           "notes": "One command per property: mc/check.sh <id> [family ...]; VERIF_TIER=thorough deepens the bounds. See DESIGN.md."}
    for p in have:
        man["checks"].append({"property": p["id"], "quick_cmd": f"bash mc/check.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough bash mc/check.sh {p['id']}",
                              "evidence_file": f"evidence/{p['id']}.json", "technique": technique(p), "level": LEVEL, "level_note": note(p["id"])})
    for p in P:
        if p not in have:
            man["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(have), "claimed")


def technique(p):
    if "histories" in p["quantifier"]["over"]:
        return "bounded exhaustive exploration of operation histories and inputs on the real code, each step compared with a reference model"
    return "bounded exhaustive enumeration of inputs and settings on the real code, each step compared with a reference model"


if __name__ == "__main__":
    main()
