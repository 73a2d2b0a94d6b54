#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if obs: a["observe_at"] = obs
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
S = "src/SALib/"

prop("C01", "Saltelli designs have the documented cross-sampled block structure",
 "For every problem, group assignment, sample size and order option, both Sobol' samplers return exactly N blocks of rows laid out as A, one A-with-group-g-from-B row per group, (with second order) one B-with-group-g-from-A row per group, then B, where groups are numbered by first appearance and all members of a group are exchanged together. A and B rows are two independent halves of one 2D-dimensional low-discrepancy set: every column of A and of B hits each of the N equal-probability strata exactly once when N is a power of two and the skip is a multiple of N, and no column of B repeats a column of A. A problem whose parameters all share one group is sampled as if ungrouped.",
 ["inputs", "configurations"], "all problems (D, partitions into groups, distributions), N, second-order flag, scramble flag, skip, seed",
 "Tests compare a few fixed shapes and one or two stored matrices (D<=4); which element of which row comes from A or B must hold for every partition into groups and N.",
 [S+"sample/sobol.py", S+"sample/saltelli.py", S+"util/__init__.py"],
 [("cross sampling loop", S+"sample/sobol.py:sample"), ("cross sampling loop (legacy)", S+"sample/saltelli.py:sample"), ("group membership matrix", S+"util/__init__.py:compute_groups_matrix")],
 [("block/row cursor", "position inside the current block of the design")], ["SALib.sample.sobol.sample", "SALib.sample.saltelli.sample"])

prop("C02", "Sobol' indices are the documented estimators of the design's blocks",
 "For every output vector laid out as a Saltelli design over G groups, S1, ST and S2 returned by the Sobol analysis equal the documented Saltelli-2010/2002 estimators evaluated on exactly the A, AB_g, BA_g and B rows of each block (up to floating-point rounding), G-long (G x G, upper triangle only for S2), one entry per group in order of first appearance. Any output vector whose length is not a whole positive number of blocks for the chosen order, or a confidence level outside (0,1), is rejected with an error. Each analysis of a design produced by the Sobol' samplers for the same problem uses the block length the sampler used.",
 ["inputs", "configurations"], "all integer/real output vectors, all G>=1, all N>=1, both order options, grouped and ungrouped problems",
 "Tests check the Ishigami indices within wide tolerances at two or three sizes; an indexing slip between blocks, groups and orders for other G, N is invisible to them.",
 [S+"analyze/sobol.py"],
 [("separation of outputs by block", S+"analyze/sobol.py:separate_output_values"), ("estimators", S+"analyze/sobol.py:first_order,total_order,second_order"), ("size rule", S+"analyze/sobol.py:analyze")],
 [("block/row cursor", "which output of the block is being consumed")], ["SALib.analyze.sobol.analyze"])

prop("C03", "Bootstrap confidence values are well-formed and reflect level and resampling",
 "For every analysis that reports confidence values (Sobol, eFAST, RBD-FAST, delta, DGSM, Morris), each value is non-negative, has one entry per reported index, and for a fixed seed scales across confidence levels exactly as the two-sided normal quantile; a level outside (0,1) is rejected. Resampling draws whole design units with replacement - Saltelli blocks, trajectories' elementary effects, base points, (X,Y) rows; as many as there are, half as many rows for eFAST and RBD-FAST - so that every kept Sobol resample is the estimate from some multiset of N blocks of the actual data, and each confidence value is that quantile times the spread of the index over the resamples (for Sobol exactly the sample standard deviation of the kept resamples). If all Sobol blocks, Morris trajectories or DGSM base points are identical copies, the confidence values are 0; if they differ and the resampled index varies, they are positive.",
 ["inputs", "configurations"], "all outputs, sample sizes, confidence levels in (0,1), numbers of resamples, seeds",
 "Tests only check that confidence values exist or fall in a broad range for one random seed; which resamples are reachable is a set that sampling cannot establish.",
 [S+"analyze/sobol.py", S+"analyze/fast.py", S+"analyze/rbd_fast.py", S+"analyze/delta.py", S+"analyze/dgsm.py", S+"analyze/morris.py"],
 [("Sobol resampling", S+"analyze/sobol.py:analyze"), ("FAST bootstrap", S+"analyze/fast.py:bootstrap"), ("RBD bootstrap", S+"analyze/rbd_fast.py:bootstrap"), ("Morris mu_star confidence", S+"analyze/morris.py:_compute_mu_star_confidence"), ("DGSM confidence", S+"analyze/dgsm.py:calc_dgsm"), ("delta/S1 bootstrap", S+"analyze/delta.py:bias_reduced_delta")],
 [("resample multiset", "which design units a bootstrap replicate drew")], ["analyze(...)['*_conf']", "sobol.analyze(..., keep_resamples=True)"])

prop("C04", "Morris samples are valid one-at-a-time trajectories on the level grid",
 "For every problem, number of trajectories and even number of levels p, the Morris sampler returns N consecutive trajectories of G+1 rows (G groups, or D parameters when ungrouped) in which every point lies on the p-level grid of the unit cube (mapped to the bounds/distributions) and successive rows change exactly the parameters of exactly one group, each group exactly once per trajectory, each of its parameters by exactly +/- p/(2(p-1)) of its range. No point leaves the bounds. Every grid point from which the step stays on the grid can occur, steps go both up and down, and groups can move in any order.",
 ["inputs", "configurations"], "all D, partitions into groups, N, even p>=2, bounds, distributions, seeds, optimised or not, both optimisers",
 "Tests check a few seeds at D=2..3 and p=4; the trajectory invariant must hold for every random draw, group partition and level count.",
 [S+"sample/morris/morris.py", S+"util/__init__.py"],
 [("trajectory generation", S+"sample/morris/morris.py:_generate_trajectory"), ("grid start point", S+"sample/morris/morris.py:_generate_x_star"), ("step size", S+"util/__init__.py:_compute_delta")],
 [("current point / set of groups already moved", "trajectory state")], ["SALib.sample.morris.sample"])

prop("C05", "Optimised Morris designs are whole trajectories chosen from the initial pool",
 "With optimal_trajectories = k, the result consists of k distinct-position whole trajectories of the pool of N trajectories that the same call without optimisation and the same seed returns, in pool order, unaltered. The exhaustive optimiser returns a subset whose total trajectory spread (sum over pairs of the summed point distances, in quadrature) is maximal among all k-subsets; the local optimiser returns the farthest pair for k = 2 and, for larger k, a subset at least as spread as every outcome of its search (for each i < k the most spread trajectory with its i farthest others, extended greedily to k; so in particular at least the best pair). k must be an integer with 2 <= k < N (and k <= 10 for the exhaustive optimiser); anything else is rejected.",
 ["inputs", "configurations"], "all pools (N, D, groups, p, seed), all k, local and brute-force optimisation",
 "Tests compare against stored choices on one or two six-trajectory pools; maximality and membership quantify over all pools and all subsets.",
 [S+"sample/morris/morris.py", S+"sample/morris/strategy.py", S+"sample/morris/local.py", S+"sample/morris/brute.py"],
 [("strategy and distance matrix", S+"sample/morris/strategy.py"), ("brute-force search", S+"sample/morris/brute.py"), ("local search", S+"sample/morris/local.py")],
 [("chosen trajectory index set", "subset under construction")], ["SALib.sample.morris.sample(optimal_trajectories=k)"])

prop("C06", "Morris measures are the exact statistics of each group's elementary effects",
 "For every valid design and output vector, the Morris analysis attributes to each parameter or group, per trajectory, exactly the one elementary effect of the step in which it moved (output change divided by the signed grid step; for groups of several parameters the absolute change; with scaled=True the output change per actual input change, multiplied by the ratio of the standard deviations of that parameter and of the outputs over the trajectory), and reports mu (mean), mu_star (mean absolute) and sigma (sample standard deviation) over trajectories, with sigma undefined (NaN) for groups of more than one parameter. Results are ordered by parameter, or by group in order of first appearance.",
 ["inputs", "configurations"], "all trajectory designs incl. sampler output, all outputs, groupings, even p, scaled or not",
 "Tests use two or three hand-made designs; attribution of a step to a factor depends on the move order and sign in each trajectory, which they barely vary.",
 [S+"analyze/morris.py"],
 [("elementary effects", S+"analyze/morris.py:_compute_elementary_effects"), ("statistics and groups", S+"analyze/morris.py:_compute_statistical_outputs")],
 [("effects per factor", "elementary effects attributed so far")], ["SALib.analyze.morris.analyze"])

prop("C07", "Latin hypercube samples hit every equal-probability stratum exactly once",
 "For every problem, N and seed, each parameter's N sampled values fall one in each of the N equal-probability strata of its (possibly non-uniform) distribution, at a position within the stratum that is itself random, in an order that is shuffled independently of other parameters (every pairing of strata can occur). With groups, all members of a group share the same unit-interval draw row by row, and distinct groups are drawn independently.",
 ["inputs", "configurations"], "all D, groupings, N, distributions, seeds",
 "Tests check one small seeded matrix; the stratification must hold for every draw and grouping.",
 [S+"sample/latin.py"], [("stratified draw and permutation", S+"sample/latin.py:sample")], None, ["SALib.sample.latin.sample"])

prop("C08", "Samples are scaled by each parameter's own quantile function",
 "For every sampler and every problem, column j of the returned sample equals the quantile function of parameter j's distribution (unif, logunif, triang with fractional peak, norm, truncnorm, lognorm, weibull with two or three bounds; default unif) with parameter j's bounds applied to the unit-interval design, hence is monotone in it and stays inside the distribution's support. Invalid specifications (lower >= upper where bounds are limits, non-positive logunif limits, width, scale, shape or standard deviation, peak outside [0,1), unknown distribution, wrong number of distributions) raise ValueError instead of yielding numbers.",
 ["inputs", "configurations"], "all bounds, distributions, column orders, unit values in (0,1) for unbounded supports and [0,1] otherwise",
 "Tests check moments of single distributions in fixed columns; mixing of distributions and bounds across columns is sampled at one or two points.",
 [S+"util/__init__.py", S+"util/util_funcs.py"],
 [("uniform scaling", S+"util/__init__.py:_scale_samples"), ("non-uniform scaling", S+"util/__init__.py:_nonuniform_scale_samples"), ("bound checks", S+"util/util_funcs.py:_check_bounds")],
 None, ["SALib.util.scale_samples", "SALib.sample.*.sample"])

prop("C09", "eFAST sampler and analysis agree on frequencies and recover harmonic variance",
 "The eFAST sample stacks D runs of N rows; in run i parameter i follows the search curve at the highest frequency floor((N-1)/(2M)) and the other parameters take, in their order, complementary frequencies spread evenly over 1..floor(highest/(2M)) (cycling when there are more parameters than values), so that M harmonics of each stay at or below half of the highest; each run visits the unit interval through the triangle-wave transform with one random phase from the whole circle per run, so every column is equidistributed. The analysis assigns the i-th run of N outputs to parameter i and returns S1 = the share of that run's variance at the first M harmonics of the highest frequency and ST = 1 - the share at frequencies up to half of it. N <= 4M^2 is rejected by sampler and analysis, as is an output length that does not split into D runs.",
 ["inputs", "configurations"], "all D, M, N > 4M^2, outputs built from known harmonics, phases",
 "Tests check Ishigami values at one size within loose tolerance; the frequency bookkeeping for each D, N, M is never checked.",
 [S+"sample/fast_sampler.py", S+"analyze/fast.py"],
 [("frequency assignment and search curve", S+"sample/fast_sampler.py:sample"), ("spectrum partition", S+"analyze/fast.py:compute_orders")], None,
 ["SALib.sample.fast_sampler.sample", "SALib.analyze.fast.analyze"])

prop("C10", "RBD-FAST orders outputs by each input and recovers harmonic variance",
 "For every given-data sample with more than 4M rows, the RBD-FAST analysis computes each parameter's S1 from the outputs re-ordered by that parameter alone (ascending through every second rank, then descending), as the share of variance at the first M harmonics with the documented bias correction (lambda = 2M/N), independent of row order, of strictly monotone transformations of that parameter, and of the other parameters' columns.",
 ["inputs", "configurations"], "all X without ties, all Y, all M, all row permutations",
 "Tests check Ishigami values at one size; the ordering contract needs every permutation.",
 [S+"analyze/rbd_fast.py"], [("permute outputs", S+"analyze/rbd_fast.py:permute_outputs"), ("spectrum share", S+"analyze/rbd_fast.py:compute_first_order"), ("bias correction", S+"analyze/rbd_fast.py:unskew_S1")], None,
 ["SALib.analyze.rbd_fast.analyze"])

prop("C11", "Fractional factorial designs are orthogonal fold-overs and effects are exact",
 "For every D, the fractional-factorial sample has K = smallest power of two >= D columns and 2K rows, every entry at its parameter's low or high bound, columns mutually orthogonal and balanced, and the second half the fold-over (low/high swapped) of the first; the K-D padding columns are named dummies appended after the user's parameters. The analysis returns for each parameter exactly half of mean(Y at high) - mean(Y at low) as main effect, dummies included, and, when second order is requested, one interaction effect per distinct pair of parameters with its pair name, exactly half the difference of the means over rows where the two agree and where they differ.",
 ["inputs", "configurations"], "all D in 1..512, bounds, outputs",
 "Tests check D=3 and D=4 only.",
 [S+"sample/ff.py", S+"analyze/ff.py"], [("contrast generation and padding", S+"sample/ff.py"), ("main and interaction effects", S+"analyze/ff.py")], None,
 ["SALib.sample.ff.sample", "SALib.analyze.ff.analyze"])

prop("C12", "DGSM designs perturb one input per row and DGSM values are exact",
 "The finite-difference sample has N blocks of D+1 rows: a base point followed by, for each parameter in order, the base point with only that parameter displaced by at most the relative step (and by a non-zero amount when the base coordinate is non-zero) and never outside its bounds. The DGSM analysis returns for each parameter vi = mean squared and vi_std = standard deviation of the squared difference quotients of exactly those rows, and dgsm = vi times the squared range (upper minus lower bound) over (variance of base outputs times pi squared).",
 ["inputs", "configurations"], "all D, N, delta, bounds, dists, outputs, seeds",
 "Tests check one Ishigami value.",
 [S+"sample/finite_diff.py", S+"analyze/dgsm.py"], [("perturbation", S+"sample/finite_diff.py:sample"), ("vi and dgsm", S+"analyze/dgsm.py")], None,
 ["SALib.sample.finite_diff.sample", "SALib.analyze.dgsm.analyze"])

prop("C13", "PAWN statistics are exact Kolmogorov-Smirnov distances per input slice",
 "For every sample, output and slice count S, PAWN splits each input at its quantiles 0, 1/S, ..., 1 into S slices, each containing its lower but not its upper edge, and reports, per parameter, minimum, mean, median, maximum, standard deviation and coefficient of variation of the two-sample Kolmogorov-Smirnov distances between the outputs in each populated slice and all outputs; every value of KS lies in [0,1] and minimum <= median, mean <= maximum. For grouped problems each statistic is the mean over the group's members, one entry per group in order of first appearance.",
 ["inputs", "configurations"], "all X, Y, S >= 1 with populated slices, groupings",
 "Tests only check that results exist and one known ordering.",
 [S+"analyze/pawn.py"], [("slicing and KS", S+"analyze/pawn.py:analyze")], None, ["SALib.analyze.pawn.analyze"])

prop("C14", "RSA reports exact per-bin Cramer-von Mises distances and marks empty bins",
 "For every sample, output, bin count and target, regional sensitivity analysis splits the conditioning axis (target 'X': each input in turn, comparing the outputs; target 'Y': the output, comparing each input's values) at its quantiles 0, 1/bins, ..., 1 (each bin containing its upper edge, the first also its lower) and returns one row per bin and one column per parameter holding the two-sample Cramer-von Mises statistic between the compared values inside and outside the bin; NaN exactly where either side has fewer than two rows or the outputs inside the bin are constant. For grouped problems each column is the mean over the group's members, one per group in order of first appearance.",
 ["inputs", "configurations"], "all X, Y, bins >= 1, both targets, groupings",
 "Tests check table shapes and one slice.",
 [S+"analyze/rsa.py"], [("binning and test", S+"analyze/rsa.py:rsa"), ("group mean", S+"analyze/rsa.py:analyze")], None, ["SALib.analyze.rsa.analyze"])

prop("C15", "Discrepancy indices are normalised 2-D discrepancies of (input, output) pairs",
 "For every sample and output, the discrepancy analysis returns one value per parameter: the chosen discrepancy (WD, CD, MD, L2-star) of the two-column set of that input and the output, each min-max scaled to the unit square by the parameter bounds and the output's observed range, divided by the total so that the values are non-negative and sum to 1. For grouped problems the values are averages over members, one per group in order of first appearance, labelled by group.",
 ["inputs", "configurations"], "all X within bounds, Y, four methods, groupings",
 "Tests check the ranking for one model only.",
 [S+"analyze/discrepancy.py"], [("scaling and normalising", S+"analyze/discrepancy.py:analyze")], None, ["SALib.analyze.discrepancy.analyze"])

prop("C16", "Delta analysis: first-order term is exact, results aligned and degenerate-safe",
 "For every given-data sample, the delta analysis' S1 for a parameter is the between-class variance of the output over equal-count classes of that parameter's ranks, relative to the total variance, evaluated on a with-replacement resample of the rows (so a value in [0,1] that some multiset of N rows yields), depends on that parameter only through its ranks, and the delta values lie in [0,1] up to the resampling correction. The stratified resamples ('balanced' over bins of the parameter, 'step' over its positive values) give every bin its equal quota; results carry delta, delta_conf, their raw, balanced and step variants and S1, S1_conf as the chosen method implies. Degenerate inputs (a constant parameter, too few populated bins, too few zeros or positives) are reported as missing values with a note for exactly the affected parameter while all other parameters are still analysed; every result has one entry per parameter in problem order.",
 ["inputs", "configurations"], "all X, Y incl. constant columns, class counts, methods, seeds",
 "Tests check the ranking for Ishigami and one constant column.",
 [S+"analyze/delta.py"], [("class partition and S1", S+"analyze/delta.py:sobol_first"), ("delta", S+"analyze/delta.py:calc_delta"), ("bias reduction", S+"analyze/delta.py:bias_reduced_delta")], None, ["SALib.analyze.delta.analyze"])

prop("C17", "A problem specification never shows results from another sample or model run",
 "In every sequence of sample, set-samples, evaluate (serial or parallel), set-results and analyze (serial or parallel) calls on a problem specification, the results it exposes were produced from the samples it exposes (replacing samples discards results) and the analysis it exposes was computed from the exposed samples and results (replacing either discards it). Analysing without results, setting results before samples, samples with a wrong number of columns, results with a wrong number of rows or outputs, and analysing a single parameter or group raise; a failing set or analyze call leaves the previously exposed samples, results and analysis unchanged. Chained calls return the same object and multi-output results are analysed per named output column.",
 ["histories"], "all finite call sequences over the workflow API, including failing calls",
 "Tests exercise the straight-line workflow and two error cases; staleness depends on the history of calls.",
 [S+"util/problem.py"], [("sample/set/evaluate/analyze", S+"util/problem.py:ProblemSpec")],
 [("samples, results, analysis versions", "which sample version the results came from, and which results the analysis came from")], ["ProblemSpec.samples/results/analysis"])

prop("C18", "Parallel execution gives the same values as serial execution",
 "For every model, sample size, number of outputs and processor count, evaluating in parallel (or on distributed servers) returns the same result array in the same row order as evaluating serially, with the extra arguments passed to every call; analysing several outputs in parallel returns for each named output the same indices as analysing it serially; and the Sobol analysis with parallel execution returns the same indices, confidence values, kept resamples and data frames as without it for the same seed.",
 ["schedules", "inputs", "configurations"], "all chunkings (rows not divisible by processes, more processes than rows), completion orders, outputs",
 "Tests run one even split on one machine; uneven splits and completion orders are not explored.",
 [S+"util/problem.py", S+"analyze/sobol.py"], [("chunking and collection", S+"util/problem.py:evaluate_parallel,_collect_results"), ("per-output pool", S+"util/problem.py:analyze_parallel"), ("task list", S+"analyze/sobol.py:create_task_list,Si_list_to_dict")],
 [("chunk queue", "chunks pending / done / collected")], ["ProblemSpec.evaluate(nprocs)", "ProblemSpec.analyze(nprocs)", "sobol.analyze(parallel=True)"])

prop("C19", "A given seed fully determines samples and analyses, whatever ran before",
 "For every sampler and every analysis that accepts a seed, two calls with equal arguments and the same integer seed (including 0), or equally seeded fresh generators where generators are accepted, return identical numbers regardless of the calls made in between, of the state of the global random generator, of other objects' use of random numbers, and of the process they run in. Different seeds give different random samples, and samplers leave the global random generator untouched when given a seed.",
 ["histories", "inputs"], "all interleavings of seeded calls with any other library calls; all seeds >= 0",
 "Tests compare two consecutive calls for a couple of samplers with one non-zero seed.",
 [S+"util/util_funcs.py", S+"analyze/", S+"sample/"], [("seed handling", S+"util/util_funcs.py:handle_seed"), ("analysis seeding", S+"analyze/*.py:analyze")],
 [("random stream owner", "which generator a call draws from")], ["sample(..., seed)", "analyze(..., seed)"])

prop("C20", "Sampling and analysis do not alter the caller's data",
 "No analysis modifies the input matrix, the output vector or the problem definition it was given, and no sampler modifies the problem's names, bounds, groups or distributions (documented additions excepted: the sample_scaled flag, a default groups entry, the dummy padding of fractional factorial designs, which extends the problem given but not lists shared with other problems, and the results and emulator HDMR publishes on a ProblemSpec). Consequently running any analysis before another never changes the other's result.",
 ["histories", "inputs"], "all sequences of sampler/analysis calls sharing problem, X and Y objects (contiguous or not, read-only or not)",
 "Tests always build fresh inputs and never compare them afterwards.",
 [S+"sample/", S+"analyze/", S+"util/__init__.py"], [("in-place scaling", S+"util/__init__.py:_scale_samples"), ("term naming", S+"analyze/hdmr.py, enhanced_hdmr.py"), ("dummy padding", S+"sample/ff.py:extend_bounds")],
 [("abstract contents of the shared problem/X/Y objects", "must equal their value at creation")], ["caller-held problem, X, Y"])

prop("C21", "Parameter files are read into exactly the problem they describe",
 "Every parameter file with rows name, lower, upper[, group[, distribution]] separated by comma, space, tab or semicolon, quoted or not, with any mix of comment lines and blank lines, is read into a problem whose names, bounds, groups and distributions list its rows in order; a group of NA or a missing or empty group defaults to the parameter's own name, a missing or empty distribution to uniform, and groups or distributions that carry no information become None. A file that puts all of several parameters in one group, or with a row without a name and two numeric bounds, is rejected.",
 ["inputs"], "all files in the format: row counts, delimiters, comments, optional columns, numeric notations",
 "Tests read five sample files.",
 [S+"util/util_funcs.py"], [("parser", S+"util/util_funcs.py:read_param_file")], [("row cursor and accumulated lists", "parser state")], ["SALib.util.read_param_file"])

prop("C22", "Command line runs reproduce the API result for the same options",
 "For every sampling method, running it from the command line with a parameter file and options writes a file that, read back, equals what the library call with the corresponding arguments returns for the same seed (to the requested precision and delimiter); for every analysis method, the command line prints the indices that the library call with the corresponding arguments returns for the chosen output column, delimiter and seed. Every documented option reaches the method, whether invoked through the salib command or as a module, and no option is required that the documentation gives a default for.",
 ["configurations", "inputs"], "all methods x options x delimiters x columns x seeds",
 "Tests check a handful of invocations, mostly that they exit successfully or match a stored value.",
 [S+"scripts/salib.py", S+"sample/common_args.py", S+"analyze/common_args.py"], [("command line dispatch", S+"scripts/salib.py:main"), ("per-method option handling", "each sampler/analyser module: cli_parse, cli_action")], None, ["salib command output files and stdout"])

prop("C23", "Tabular results pair every value with the right parameter, pair or group",
 "For every analysis and problem (any number of parameters from 2, grouped or not), converting the result to data frames yields rows labelled with parameter names - or group names in order of first appearance when grouped, or all unordered pairs of them for second order - and every cell equals the entry of the result for that label. No label is missing, duplicated, or paired with another parameter's value. The same holds for each output of a multi-output problem specification.",
 ["inputs", "configurations"], "all analyses x D >= 2 x groupings x orders",
 "Tests check frames for D=3 Ishigami problems; the pairing depends on D, group partition and method.",
 [S+"util/results.py", S+"analyze/*.py"], [("generic frame", S+"util/results.py:ResultDict.to_df"), ("Sobol frames", S+"analyze/sobol.py:to_df"), ("Morris frame", S+"analyze/morris.py"), ("RSA frame", S+"analyze/rsa.py:to_df"), ("FF frame", S+"analyze/ff.py:to_df"), ("HDMR frames", S+"analyze/hdmr.py:to_df")], None, ["ResultDict.to_df()", "ProblemSpec.to_df()"])

prop("C24", "HDMR decompositions account consistently for every component term",
 "For every given-data sample, the HDMR analyses report one entry per component function up to the requested order, named by its parameters in combination order, with ST of a parameter = the sum of S over all terms that contain it (missing for interaction terms) and totals equal to the sum over terms; on a full factorial grid with a basis that can represent the outputs, S is the exact functional-ANOVA variance share of the term, S = Sa + Sb term by term with Sb = 0. With bootstrapping, each *_conf value is the normal quantile times the standard deviation of the replicates' values and select counts the replicates whose F-test found the term significant. The emulator returns, at any points, the sum of the component functions averaged over the replicates (hdmr adds the mean of the outputs handed to it), and reproduces the outputs the basis can represent. The problem passed in keeps its parameter names.",
 ["inputs", "configurations"], "all D, maximum orders, basis options, samples of sufficient size, seeds",
 "Tests check two stored models; the term bookkeeping for other D and orders is not reached.",
 [S+"analyze/hdmr.py", S+"analyze/enhanced_hdmr.py"], [("term bookkeeping", S+"analyze/hdmr.py"), ("term bookkeeping", S+"analyze/enhanced_hdmr.py")], None, ["SALib.analyze.hdmr.analyze", "SALib.analyze.enhanced_hdmr.analyze"])

prop("C25", "Unscrambled Sobol' points follow the digital sequence, with correct skipping",
 "The sequence generator returns the first N points of the Sobol' digital sequence with Joe-Kuo direction numbers, and the unscrambled Sobol' designs of both samplers and the base points of the finite-difference sampler are its consecutive points starting right after the skipped points: base point i of a Sobol' run with skip s equals point s+i of a run without skip (with the same seed also when scrambled), and every aligned run of 2^m points is equidistributed in each of the 2D dimensions. More dimensions than there are direction numbers (21201) are refused. The two samplers reject invalid (negative or non-integer) skips and warn exactly when N or a given positive skip is not a power of two, N lies in a higher power-of-two range than the skip, or (legacy sampler) the skip is zero; the design is returned all the same.",
 ["inputs", "configurations"], "all dimensions up to 40, N, skips",
 "Tests check two 2-D prefixes.",
 [S+"sample/sobol_sequence.py", S+"sample/directions.py", S+"sample/saltelli.py", S+"sample/sobol.py"], [("Gray-code generator", S+"sample/sobol_sequence.py:sample"), ("skip handling", S+"sample/saltelli.py:sample")],
 [("Gray-code register per dimension", "current digits")], ["SALib.sample.saltelli.sample", "SALib.sample.sobol.sample(scramble=False)"])

prop("C26", "Analyses respect renaming, reordering and rescaling symmetries",
 "For every analysis, permuting the parameters (columns, names, bounds, groups and the design rows that belong to them) permutes the reported indices correspondingly - Sobol S2 for pairs that keep their order, confidence values of methods that draw parameter by parameter only for the parameter listed first, fractional factorial excepted; renaming parameters or groups changes only labels; reordering whole design units (blocks, trajectories, base points, rows) changes no point estimate; measuring an input in other units changes no index; and replacing the output Y by aY+b (a non-zero) leaves normalised indices unchanged (Sobol, eFAST, RBD-FAST, PAWN, RSA, delta, discrepancy, dgsm, HDMR; for a < 0 excepting RSA on target Y and the L2-star discrepancy), scales Morris mu and factorial effects by a, Morris mu_star, sigma and mu_star_conf by |a|, and vi, vi_std and dgsm_conf by a squared.",
 ["inputs"], "all permutations, affine maps, problems, outputs",
 "Metamorphic relations over all permutations are not tested at all.",
 [S+"analyze/"], [("per-method index computation", S+"analyze/*.py:analyze")], None, ["analyze(...)"])

prop("C27", "Malformed requests are rejected instead of producing numbers",
 "Requests outside a method's documented domain - Morris: fewer than two levels, an optimised trajectory count below 2, not below N, not an integer, or above 10 for the exhaustive search; a group list or distribution list of the wrong length; eFAST: N <= 4M^2; outputs whose length does not fit the design or the inputs; confidence levels outside (0,1); invalid bounds; seeds that are negative, fractional or text for methods that draw random numbers; HDMR settings outside their documented ranges; unknown distribution, plot or method options - raise an error, and every request inside the domain succeeds with finite results for finite, non-degenerate data.",
 ["inputs", "configurations"], "all argument combinations just inside and just outside each documented limit",
 "Tests probe single points; off-by-one limits are not bracketed.",
 [S+"sample/", S+"analyze/", S+"util/"], [("argument validation", "each sample()/analyze() entry")], None, ["exceptions raised by the public API"])

prop("C28", "Bundled test functions compute their published formulas row by row",
 "For every input matrix, each bundled test function (Ishigami with its coefficients, Sobol-G with its shift/shape options, the linear models, Oakley-O'Hagan) returns one output per row computed from that row alone by its published formula; the lake problem's recurrence yields the published trajectory of concentrations and its objectives; and the reference sensitivity indices supplied (Sobol-G S1, ST, partial and total variance) agree with the analytic values for the given coefficients. Out-of-range or mis-typed inputs that the documentation forbids are rejected. The bundled parameter files describe the inputs of these functions.",
 ["inputs"], "all input rows and coefficient vectors",
 "Tests check a few points.",
 [S+"test_functions/"], [("models", S+"test_functions/*.py")], None, ["SALib.test_functions.*.evaluate"])

prop("C29", "Plots show the values and labels held by the analysis",
 "For every analysis result, the bar chart, the Morris charts and the heat map draw one bar, point or cell per parameter/group (and pair or output), whose drawn height, position or colour value equals the corresponding result value - error bars equal the confidence values - and whose label names that parameter; Morris bars are sorted by the chosen measure with labels and error bars sorted alongside, and its covariance plot shows mu_star against sigma, or against the confidence value where sigma is missing. Sample histograms count each parameter's own column, RSA curves and HDMR panels show the result's own rows and components, and every output of a multi-output specification gets its own charts. Plotting never modifies the result.",
 ["inputs", "configurations"], "all results, sort orders, D, groups, multi-output specifications",
 "Tests check that plotting runs.",
 [S+"plotting/"], [("bar chart", S+"plotting/bar.py:plot"), ("Morris charts", S+"plotting/morris.py"), ("heat map", S+"plotting/heatmap.py")], None, ["matplotlib axes contents"])

prop("C30", "A request means the same in every form it can be written in",
 "For every sampler, analysis and test function with options: leaving an option out gives exactly the result of spelling out its documented default (and, where the documentation says what a missing value stands for - legacy Sobol' skips, delta resample size, HDMR subsample - of spelling out that); arguments by position in the documented order, by keyword in any order, through the plain function, through sample/evaluate/analyze of a problem specification or through its convenience methods, and with the problem as a dict, a problem specification or with tuples or arrays as its lists, give identical results; a request with an unknown, repeated, surplus or missing argument is refused; options not documented as mere switches of output change the result; print_to_console only writes to the console, and nothing is written without it; and the layout of the arrays in memory (row or column order, strides, views, read-only) does not matter, while an output given as a one-column matrix is refused or means the vector it holds, and several columns are refused.",
 ["inputs", "configurations"], "all methods, all subsets and orders of options, calling forms, memory layouts",
 "Tests call each method in one or two fixed forms with C-ordered arrays.",
 [S+"sample/", S+"analyze/", S+"test_functions/", S+"util/problem.py"], [("signatures and defaults", "each sample()/analyze()/evaluate() entry"), ("argument forwarding", S+"util/problem.py:ProblemSpec._method_creator, sample, evaluate, analyze")], None, ["public API results, exceptions and console output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
