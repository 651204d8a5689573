NOTE = ('Runtime monitor: every observed result of the real code, built from the current tree with ASan+UBSan, is compared with an independent '
        'long-double reference, on exact-size buffers with varying prefill. Shows absence of violations on the generated inputs only; trusts the compiler, BLAS/LAPACK and the reference. ')
prop('A01', 'Matrix algebra equals the textbook definition for every shape',
     'For matrices of every shape, every public product, sum, transpose, Kronecker, element-wise, decomposition, inverse, determinant, SVD and linear-solve operation '
     'returns, up to floating-point tolerance, the value its mathematical definition gives; operands that are not outputs are left unchanged, '
     'and a shape mismatch is reported and never read or written out of bounds.',
     'all shapes (square, wide, tall, single row/column), all scalars alpha/beta, all transposition flags, all finite contents',
     'the unit tests use one fixed numeric example per routine, mostly square or 2x3; strides, alpha/beta and transposed paths for other shapes are never seen',
     ['include/matrix.h', 'src/matrix/matrix.cpp', 'src/matrix/matrix_sym.cpp', 'src/matrix/decompositions.cpp', 'src/matrix/vmatrix.cpp'],
     [('column-major storage and BLAS/LAPACK argument mapping', 'src/matrix/matrix.cpp')], note=NOTE)
prop('A02', 'Matrix access, statistics and missing-data handling follow the elements',
     'Reading, writing, copying, sorting, searching and sub-setting elements, rows, columns and blocks of a matrix affect exactly the addressed elements; row/column '
     'statistics (sum, mean, variance, covariance, correlation, min/max, standardization and its inverse) equal their definitions, and when missing values are skipped they are computed from exactly the '
     'non-missing (or pairwise complete) observations. Selecting columns of a data set and removing incomplete rows, or locating the common non-missing range of time series, keeps exactly the complete data in the original order, and an object reused for another selection gives the result a fresh one would. '
     'Comparisons within a tolerance and searches treat missing values as requested, iterators and owners of data address the elements, triangular fills, random fills (reproducible from a seed) and texts hold exactly the elements, for floating-point and integer elements.',
     'all shapes, all positions of NaN/infinite entries, all index selections, reuse of the same object',
     'the tests exercise one example each and never NaN patterns at the borders, non-square shapes or a second use of the same object',
     ['include/matrix.h', 'src/matrix/matrix.cpp', 'src/matrix/dataset.cpp'],
     [('column-major indexing and NaN-skipping loops', 'src/matrix/matrix.cpp')], over=('inputs', 'histories'), note=NOTE)
prop('A03', 'A model search visits every candidate exactly once and accounts for each',
     'For a set of partitions of the variables, requested sizes, fixed partitions and (for searchers that require it) a target requirement, a search estimates each combination that takes '
     'at most one item from each partition, has the requested size, includes every fixed partition and (if required) contains a target exactly once and no other combination; '
     'the announced count equals the searched count, every model that fails is counted once under its own message, failures never stop the search, results of every successful model are stored for exactly the variables and targets it contains, '
     'and after a cancellation request no further model is started by a searcher that has seen it.',
     'all partitions, sizes, fixed partitions, target counts, failure patterns, cancellation points, sequential and parallel runs',
     'tests run a few searches with singleton partitions and check that some results exist',
     ['include/math/statistics/inference/searchers.h', 'src/ldt_statistics/modeling/search/searcher.cpp', 'src/ldt_statistics/modeling/search/modelset.cpp'],
     [('partition index odometer and CheckForEmpty/target filter', 'src/ldt_statistics/modeling/search/searcher.cpp')], over=('inputs', 'histories', 'schedules'), note=NOTE)
prop('A04', 'Combined search summaries equal a brute-force recomputation from all models',
     'Whatever the number of searchers and whether they ran in parallel, the combined results for every metric, target and item - best-k models in order of the metric, the list of all models, inclusion weights, weighted cdf values, '
     'mixture mean/variance/skewness/kurtosis, extreme bounds, expected/searched counts and failure counts - equal what a direct computation over all evaluated models gives.',
     'all streams of evaluated models, weights of any magnitude (including underflow to zero), ties, every distribution of models over searchers',
     'tests only assert that a result exists or compare two runs of the same code',
     ['src/ldt_statistics/modeling/search/summary.cpp', 'src/ldt_statistics/modeling/search/modelset.cpp', 'include/array.h', 'include/math/statistics/running.h'],
     [('running weighted moments, ordered best lists, merging of per-searcher summaries', 'src/ldt_statistics/modeling/search/summary.cpp')], over=('inputs', 'histories', 'schedules'), note=NOTE)
prop('A05', 'SUR estimates, inference, projections and checks equal closed-form least squares',
     'For regression data of any shape, a system of regressions estimated without restrictions, with a full-column-rank restriction matrix, or with an iterative significance search returns the coefficients, fitted values, residuals, residual covariance (divided by N), coefficient covariance, '
     'standard errors, t statistics, p-values, log-likelihood, R2 and (unrestricted) AIC/SIC/HQIC and condition number of the closed-form solution; projections have the closed-form mean and variance; rows with missing data are removed first; '
     'singular regressors are reported as an error; a model is rejected exactly when a model check (observations, degrees of freedom, AIC, SIC, R2, condition number) is violated; the input data is not modified and a reused object gives the result of a fresh one.',
     'all well-conditioned data, sizes, restriction matrices, significance thresholds and iteration limits, missing patterns, check limits',
     'tests compare a few fixed data sets; restricted models, significance searches, missing rows and check limits are hardly covered',
     ['src/ldt_statistics/modeling/linear/sur.cpp', 'src/ldt_statistics/modeling/linear/sur_extended.cpp', 'src/ldt_statistics/modeling/linear/sur_projection.cpp', 'include/math/statistics/inference/models/sur.h'],
     [('work-array layout, Kronecker structure and restriction matrix', 'src/ldt_statistics/modeling/linear/sur.cpp')], over=('inputs', 'histories'), note=NOTE)
prop('A06', 'SUR out-of-sample scores equal re-estimating every simulated split',
     'For a given seed, the sign, MAE, MAPE, RMSE, RMSPE and CRPS scores that a SUR simulation reports per target are the averages over all test observations of all valid splits of the scores of an independently estimated closed-form model on the training part of each split (back-transformed by Box-Cox if requested); '
     'the counts of valid iterations and forecasts are exact, invalid iterations (condition number limit) are recorded and excluded, the run is rejected exactly when more iterations are invalid than allowed, the data is not modified, and repeating the run with the same seed repeats the result.',
     'all data, split ratios and fixed sizes, numbers of iterations, seeds, metric subsets and orders, condition-number limits',
     'tests only check for a positive number',
     ['src/ldt_statistics/modeling/linear/sur_simulation.cpp', 'src/ldt_statistics/data_split.cpp', 'src/ldt_statistics/scoring/scoring.cpp'],
     [('accumulation per metric row and target column', 'src/ldt_statistics/modeling/linear/sur_simulation.cpp')], over=('inputs', 'histories'), note=NOTE)
prop('A07', 'A SUR search reports for each model what estimating that model alone gives',
     'For every data set (including missing values), endogenous groups, exogenous partitions, targets, metrics and model checks, a SUR search (sequential or parallel) reports exactly the models that satisfy the checks, each once, with the AIC/SIC and out-of-sample metrics that estimating and simulating the model alone gives, for every target in the model and no other; '
     'invalid models are counted as failures; and the best coefficients reported per target and exogenous variable are the estimates and variances of that variable in the best models.',
     'all data, groups, partitions, sizes, metrics, model checks, Box-Cox parameters, sequential and parallel runs',
     'tests compare at most one model of one search with a direct estimation',
     ['src/ldt_statistics/modeling/linear/sur_modelset.cpp', 'src/ldt_statistics/modeling/search/searcher.cpp', 'src/ldt_statistics/modeling/search/summary.cpp'],
     [('mapping of model columns to targets, items and data columns', 'src/ldt_statistics/modeling/linear/sur_modelset.cpp')], over=('inputs', 'schedules'), note=NOTE)
prop('A08', 'Discrete choice estimates, probabilities and scores equal maximum likelihood',
     'For binary and ordered logit and probit models of any size, with or without observation weights, the coefficients, thresholds, coefficient covariance (inverse of the observed information), standard errors, z statistics, p-values, log-likelihood, AIC, SIC, class weights and (binary) condition number '
     'are those of the weighted maximum likelihood solution, integer weights act as repetitions, predicted class probabilities follow the model and sum to one; the extended model first removes incomplete rows, and its projections, predicted probabilities, Brier score, AUC and frequency-cost ratio are those of that solution; '
     'an empty class or a size mismatch is reported, the data is not modified and a reused object gives the result of a fresh one.',
     'all data for which the maximum exists, all weights including zero, class counts 2..5, all missing patterns, ROC options and cost tables',
     'tests compare a few fixed data sets; weights, thresholds, missing rows and reuse are hardly covered',
     ['src/ldt_statistics/modeling/discrete/discrete_choice.cpp', 'src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp', 'include/math/statistics/inference/models/discrete_choice.h', 'src/ldt_math/optimization/newton.cpp'],
     [('log-likelihood, gradient and Hessian in shared work arrays, maximized by Newton', 'src/ldt_statistics/modeling/discrete/discrete_choice.cpp')], over=('inputs', 'histories'), note=NOTE)
prop('A09', 'Discrete choice searches and simulations equal re-estimating every model',
     'For a given seed, the Brier score, AUC, frequency-cost ratios and frequency table of a binary-choice simulation are those of maximum likelihood models estimated on the training part of every stratified random split and scored on the test part, with exact counts of valid iterations, and a simulation is rejected exactly when more splits fail than allowed; '
     'a discrete choice search (binary or ordered, logit and/or probit, weights, missing values, sequential or parallel) reports exactly the models that satisfy the checks (observations, degrees of freedom, AIC, SIC), each once, with the in-sample AIC, SIC, AUC, Brier and cost metrics and the out-of-sample metrics that estimating and simulating the model alone gives; '
     'failures are counted, and the best coefficients per exogenous variable are the estimates and variances of the best models. The data is not modified.',
     'all data, partitions, sizes, metrics in any order, model checks, weights, seeds, split ratios and fixed sizes, sequential and parallel runs',
     'tests check one search against one direct estimation or only for a positive number',
     ['src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp', 'src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp', 'src/ldt_statistics/data_split.cpp'],
     [('offsets of metrics, weights and seeds per model', 'src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp')], over=('inputs', 'schedules'), note=NOTE)
prop('A10', 'ROC areas, frequency costs, CRPS and weights follow their definitions',
     'For all labels and scores, including ties, weights, costs per observation, partial ranges of the false positive rate and the pessimistic variant, the ROC area equals the weighted share of correctly ordered pairs (ties count half, or zero if pessimistic; partial areas are normalized by the width of the range), the points of the curve are monotone from (0,0) to (1,1), '
     'and the area is invariant to a monotone transformation of the scores; frequency-cost sums, counts and ratios use for each observation the first row of each table whose threshold is not below the probability of the observed class, and invalid tables are rejected; CRPS of normal and log-normal predictions equals its integral; '
     'metric values are converted to weights monotonically in the direction of the metric and converted back to the same value; trapezoid areas equal their definition.',
     'all labels, scores, ties, weights, costs, ranges and tables',
     'tests check a few curves of about ten points',
     ['src/ldt_statistics/scoring/roc.cpp', 'src/ldt_statistics/scoring/frequency_cost.cpp', 'src/ldt_statistics/scoring/scoring.cpp', 'include/math/statistics/scoring.h', 'include/math/functionx.h'],
     [('curve built from sorted scores with ties collapsed', 'src/ldt_statistics/scoring/roc.cpp')], note=NOTE)
prop('A11', 'VARMA sizes, polynomials, estimates and forecasts follow the model',
     'For every set of orders, seasonal orders, number of equations and exogenous variables, the lags, differencing polynomial and parameter counts are those of the model (seasonal and other lags never repeated); differencing is inverted exactly; the AR, MA and infinite MA polynomials follow the coefficients. '
     'Pure autoregressions equal least squares; models with a moving average part or linear restrictions (zeros, the final form, or any affine map of free parameters) report residuals, residual covariance, log-likelihood and information criteria that belong to the reported coefficients on the reported sample, satisfy the restrictions, are never worse than the starting point, stay in the requested bounds and, '
     'when convergence is reported at an interior point, are a minimum whose inverse curvature is the reported covariance. Forecast means and variances for every horizon and end of the sample equal the recursion and the MA representation of the (undifferenced) model, the data are never modified and buffers of the announced size suffice.',
     'all orders, seasons, equations, exogenous variables, restrictions, sample ends, horizons and reuse of the estimator',
     'tests check a few published examples with low orders; seasonal overlap, restrictions, shorter samples, explosive models and reuse are not exercised',
     ['include/math/statistics/inference/models/varma.h', 'src/ldt_statistics/modeling/time_series/varma/varma.cpp', 'src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp', 'src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp', 'src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp', 'src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp'],
     [('conditional likelihood of the coefficients with zero pre-sample innovations', 'src/ldt_statistics/modeling/time_series/varma/varma.cpp')], over=('inputs', 'histories'), note=NOTE)
prop('A12', 'VARMA simulations and searches equal re-estimating every model and sample',
     'For every order, number of equations and exogenous variables, horizons and metrics, the scores of a VARMA out-of-sample simulation (sign, direction, MAE, MAPE, RMSE, RMSPE, CRPS, back-transformed by Box-Cox if requested) are the averages over all simulated ends of the sample and horizons of the scores of the forecasts of a model estimated on that shorter sample only, '
     'with exact counts of valid simulations, failures and kept details; a simulation is rejected exactly when more samples fail than allowed. The extended model uses the longest complete sample of its data, reports missing data, and its estimates and forecasts (with the exogenous values after the sample) are those of the model on that sample. '
     'A VARMA search (sequential or parallel) reports exactly the models of the requested orders and groups that satisfy the checks (observations, degrees of freedom, AIC, SIC, bounds of predictions at all horizons), each once, with the AIC, SIC, simulation metrics and forecasts (means and variances) that estimating the model alone gives. The data is not modified.',
     'all orders, data with leading and trailing missing values and different ends, horizons, metrics in any order, checks, use of previous estimates, sequential and parallel runs',
     'tests only check for finite or positive numbers',
     ['src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp', 'src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp', 'src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp', 'src/matrix/dataset.cpp'],
     [('positions of sample ends, horizons and exogenous data in shared storage', 'src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp')], over=('inputs', 'schedules'), note=NOTE)
prop('A13', 'Arrays, running moments and polynomials follow their definitions',
     'For every array (with missing values anywhere, empty, constant, weighted or not) its valid range, linear interpolation of interior gaps, partitions, minimum/maximum and their first positions, first/last values, Box-Cox transformation and inverse, mean, population variance, skewness and excess kurtosis equal the definition over the available values; '
     'running moments combined over any partition, order and weights (values one by one or as summaries) equal the moments of all values; degrees, products, powers (also truncated to a maximum length) of polynomials and matrix polynomials, and the power-series inverse of matrix polynomials equal direct convolution. Nothing outside the given buffers is accessed.',
     'all finite arrays, missing patterns, weights, partitions, combination orders, degrees, powers and lengths',
     'tests use a few fixed arrays without edge cases',
     ['src/array.cpp', 'include/array.h', 'include/math/statistics/running.h', 'src/ldt_math/polynomials/polynomial.cpp', 'src/ldt_math/polynomials/mpolynomial.cpp', 'include/math/polynomial.h'],
     [('single-pass update and pairwise combination of moments', 'include/array.h')], over=('inputs', 'histories'), note=NOTE)
prop('A14', 'Derivatives and optimizers find the minimum, inside the bounds',
     'For smooth strictly convex functions of any dimension and starting point: numerical first and second derivatives agree with the exact ones; Newton with line search, L-BFGS-B and Nelder-Mead end at a point that is never worse than the (projected) starting point, report the value (and gradient) of that point, stop within the iteration limit, and on normal termination the point is a minimum up to the tolerance; '
     'Newton solves a quadratic problem in one step; L-BFGS-B neither evaluates nor returns a point outside the bounds; Nelder-Mead returns the best visited point also when the function throws or is NaN or infinite in some region, and its one-dimensional form respects its bounds.',
     'all convex problems, starting points, bounds (none, one side, both), tolerances, iteration limits and reused buffers',
     'tests minimize a few fixed functions from fixed points',
     ['src/ldt_math/derivative.cpp', 'src/ldt_math/optimization/newton.cpp', 'src/ldt_math/optimization/lmbfgsb.cpp', 'src/ldt_math/optimization/nelder_mead.cpp', 'include/math/optimization.h'],
     [('Richardson table, Wolfe line search, simplex updates', 'src/ldt_math/optimization/newton.cpp')], over=('inputs', 'histories'), note=NOTE)

prop('A15', 'Principal components are the eigen-decomposition and replace data in models',
     'For every data matrix (more or fewer rows than columns, constant columns, with or without centering, scaling, removal of constant columns and forecasts): the directions are orthonormal and diagonalize the (scaled) covariance, variances are ordered and their ratios add to one, components and forecasts are the standardized data projected on the directions, with the training mean and standard deviation; '
     'the number of components for a cutoff rate is the smallest whose cumulative ratio exceeds it, bounded by the given maximum; invalid options are rejected. Selecting components for a model keeps the ignored first columns and replaces the others, and SUR, discrete choice and VARMA models with components (of endogenous or exogenous data, with missing observations and new exogenous data) give the estimates and forecasts of the same model given the selected components directly. The given data is not modified by these models.',
     'all shapes, scalings, constant columns, options (exact count, cutoff, maximum, ignored columns), missing rows, horizons',
     'tests compare one decomposition with stored numbers',
     ['src/ldt_statistics/pca.cpp', 'include/math/statistics/pca.h', 'src/ldt_statistics/modeling/linear/sur_extended.cpp', 'src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp', 'src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp'],
     [('sizes in shared storage when components replace columns', 'src/ldt_statistics/pca.cpp')], note=NOTE)
prop('A16', 'Frequencies form an ordered line: steps, distances, order and text agree',
     'For every frequency (cross-section, year-based including multi-year, daily, multi-daily, weekly, multi-weekly, restricted weeks, hours/minutes/seconds or x times a day, lists of texts and dates): n steps give the n-th following (or preceding) period of the calendar; steps can be split and undone; the distance between two periods is the number of steps; comparisons follow this order; clones are independent; '
     'the class and the period are parsed back from their text; comparing different classes is rejected; week ranges know their length, their days and the distance to them. An arbitrary text is rejected with an error or gives a usable frequency, without reading outside it, and positions outside 1..(partition count) are rejected.',
     'all classes, start points, steps in both directions, texts (valid, mutated, arbitrary)',
     'tests use a few dates per class',
     ['src/frequency/f_base.cpp', 'src/frequency/f_week_based.cpp', 'src/frequency/f_day_based.cpp', 'src/frequency/f_year_based.cpp', 'src/frequency/f_list.cpp', 'src/frequency/f_cross_section.cpp', 'include/frequency.h'],
     [('floor division across partitions and restricted weeks', 'src/frequency/f_day_based.cpp')], over=('inputs', 'histories'), note=NOTE)
prop('A17', 'Variables keep each observation in its period: align, trim, convert, text',
     'For every variable over any frequency: its end is its start plus its length; trimming keeps exactly the observations between the first and last available ones with their periods; interpolation fills only interior gaps, linearly, and counts them; its text is parsed back to an equal variable (name, data, frequency, fields) and variables that differ in anything are not equal. '
     'Aligning variables gives every variable the common period, each observation at its own date and NaN elsewhere, and mixing frequency classes is rejected. Converting daily data to weekly, multi-daily, x times a year or month-based frequencies aggregates exactly the observations of each period, in order and once, starting at the period of the first observation; converting a list of dates (first observation of data at first item of the list) or a restricted week to daily keeps the dates and puts NaN in the other days; unsupported conversions are rejected; sources are not modified.',
     'all classes, starts, lengths, missing patterns, partitions, aggregate functions',
     'tests convert a few short series',
     ['src/variable/variable.cpp', 'src/variable/variables.cpp', 'include/variable.h', 'src/array.cpp'],
     [('period of each day and boundaries of groups', 'src/variable/variable.cpp')], over=('inputs', 'histories'), note=NOTE + ' Known findings: restricted weeks that start inside their range, and the start of multi-daily conversions from the end with an incomplete first group (both encoded by existing tests).')
prop('A18', 'Distributions: density, CDF, quantile, moments, samples agree',
     'For normal, log-normal, uniform, chi-squared, t, exponential, F, gamma, beta, discrete uniform, Poisson, geometric, Bernoulli and binomial distributions with any valid (finite) parameters: density (mass) and its logarithm, distribution function (a step function for discrete ones, 0 and 1 outside the support) and quantile equal the reference values; a quantile is the point (the smallest one, for discrete distributions) where the distribution function reaches the probability; '
     'mean, variance, standard deviation, skewness, excess kurtosis, minimum and maximum equal the theoretical values (NaN or infinite if not defined), a reported median halves the probability, a reported mode maximizes the density, and properties read by code or by API equal the methods; supports and plots of mass functions list each point once with its mass; samples are reproducible from the seed, inside the support and follow the distribution function; invalid parameters are rejected.',
     'all families, parameters (small, large, degenerate), points, probabilities and seeds',
     'tests compare a few points with stored numbers',
     ['src/ldt_statistics/distributions/distributions_uni.cpp', 'include/math/statistics/distributions.h', 'src/api.cpp'],
     [('branches at the borders of support and for discrete distributions', 'src/ldt_statistics/distributions/distributions_uni.cpp')], note=NOTE)
prop('A19', 'Lambda distribution, mixtures, empirical quantiles and histograms are coherent',
     'Generalized lambda distribution (FKML): for all parameters the quantile and the density at a quantile equal their definitions, the support equals the limits of the quantile, the reported moments equal the integrals of the quantile function (NaN where they do not exist), the region of the shape matches them, and a fit to given mean, variance, skewness and kurtosis reproduces mean and variance, respects the restriction of the fit type and is not worse than its starting point. '
     'Mixtures of any continuous or discrete distributions: density (mass), its logarithm and the distribution function are the weighted averages of those of the parts, also far outside the support; the four moments equal those of the averages; supports and mass tables of discrete mixtures list each point once; samples follow the mixture and repeat for a seed; mixed kinds where a mass is asked, different sizes and non-positive weights are rejected. '
     'The empirical distribution of 103 quantiles (increasing) returns the given quantiles, interpolates between them, continues both tails, its distribution function inverts its quantile function and has limits 0 and 1; combining several gives the quantiles of the weighted average of their distribution functions. Histograms place every value in exactly one bin: counts add up to the length, edges are increasing and equally spaced (or those given), outliers beyond given limits are counted at the ends.',
     'all shape parameters (negative, zero, infinite), mixtures of all families with any positive weights, quantile tables, probabilities, data, bin counts and limits',
     'tests compare a few points with stored numbers',
     ['src/ldt_statistics/distributions/distribution_gld.cpp', 'src/ldt_statistics/distributions/mixture.cpp', 'src/ldt_statistics/distributions/empirical103.cpp', 'src/ldt_statistics/distributions/histogram.cpp', 'include/math/statistics/distributions.h'],
     [('ranges of supports, tail segments and combination by inversion', 'src/ldt_statistics/distributions/empirical103.cpp')], note=NOTE)
prop('A20', 'Descriptive statistics, filters, least squares, ranks and correlations',
     'For arrays and matrices of any length: mean, variance, skewness and kurtosis of a sample, sums of squares, quantiles (monotone, by linear interpolation of the sorted data), regressions on a trend, autoregressive and moving-average filters and seasonal decomposition with given trend equal their definitions in one pass or two, also for long samples; '
     'ranks are positions in the sorted column; ordinary and generalized least squares give the minimizing coefficients, projections, residuals and residual cross-product, and size mismatches or singular regressors are reported; '
     'covariance and Pearson and Spearman correlation matrices of a matrix, or between two matrices, are symmetric and in range and equal the value computed from the observations common to each pair, with the number of them, and are NaN (or the conventional value of constant columns) where fewer than two remain. Inputs are not modified.',
     'all lengths, shapes, missing patterns, duplicated and constant columns, filters and seasonal counts',
     'tests compare one data set per function',
     ['src/ldt_statistics/statistics/descriptive.cpp', 'src/ldt_statistics/statistics/statistics.cpp', 'src/ldt_statistics/correlation.cpp', 'include/math/statistics/statistics.h', 'include/math/statistics/correlation.h', 'src/matrix/matrix.cpp'],
     [('pairwise complete observations and divisors', 'src/ldt_statistics/correlation.cpp')], note=NOTE)
prop('A21', 'Clustering joins the nearest clusters; cuts, tables and groups follow the tree',
     'For every distance matrix (with ties, zeros or infinite entries) and linkage (single, complete, weighted and unweighted average, Ward): each merge joins two current clusters that are nearest to each other at the distance given by the linkage, each node counts its items and lies not below its parts, and without ties the tree is the one of joining the globally nearest pair; NaN distances are rejected. '
     'Cutting the dendrogram to k groups gives k non-empty sorted groups that partition the items and are clusters of the tree, undoing the highest (or latest recorded) merges; the merge table in the format of R lists every merge once after its parts in the order of heights, with valid references. '
     'Column distances (Euclidean, Manhattan, maximum, correlation and absolute correlation, Pearson or Spearman) are symmetric, non-negative and equal the values from the common observations; grouping columns of data uses these, flags NaN distances, and removes a column exactly if an earlier column of its group is nearer than the threshold, also when the object is used again.',
     'all distance matrices, linkages, group counts, data with missing values and constant columns, thresholds, reuse',
     'tests compare one dendrogram and one grouping',
     ['src/ldt_statistics/clustering/hcluster.cpp', 'src/ldt_statistics/clustering/group_data.cpp', 'src/ldt_statistics/clustering/distance.cpp', 'include/math/statistics/clustering.h'],
     [('nearest-neighbour chain and Lance-Williams updates', 'src/ldt_statistics/clustering/hcluster.cpp')], over=('inputs', 'histories'), note=NOTE + ' Known finding: the cut follows the order in which the merges are recorded (encoded by an existing test), which is not always the order of heights.')
prop('A22', 'Random data splits are partitions of the rows with the requested sizes',
     'For every data set, training ratio or fixed size and random state: each shuffle divides the rows in a training and a test sample so that every row is in exactly one of them unchanged, sizes are the requested ones, every row is equally likely to be in the training sample, and both parts stay valid when the object is used again. '
     'For discrete data (first column is the class) each class is divided in the same proportion so that every class is in the training sample; impossible sizes and classes with too few rows are rejected before any row is read or written outside its array.',
     'all row counts, class frequencies, ratios, fixed sizes and seeds',
     'tests check the sizes of one split',
     ['src/ldt_statistics/data_split.cpp', 'include/math/statistics/data_split.h'],
     [('rounding of group sizes and row bookkeeping', 'src/ldt_statistics/data_split.cpp')], over=('inputs', 'histories'), note=NOTE)
prop('A23', 'Parallel search: no data race, same results, live progress, prompt cancel',
     'For every model search (user-defined searchers, SUR, discrete choice, VARMA), any number of threads and any interleaving: no two threads access the same memory without synchronization when one writes, neither between the searching threads nor between them and a thread that reads the progress; '
     'the parallel search gives the results of the sequential one: announced and searched counts, failures with their messages, all kept models with metrics, weights, means and variances, best models, inclusion weights, cdfs, mixtures and extreme bounds; searchers never share a work area and the data is not modified. '
     'While it runs, the announced number is constant and the number of estimated models never decreases or exceeds it; after a cancellation request each thread finishes at most the model it is in, the search ends, and what it kept is a part of the complete results with unchanged values.',
     'all schedules of 2-8 threads with random delays, all search settings, cancellation at any time',
     'tests run searches in parallel at most once and look at one number; races depend on the schedule',
     ['src/ldt_statistics/modeling/search/modelset.cpp', 'src/ldt_statistics/modeling/search/searcher.cpp', 'src/ldt_statistics/modeling/search/searcher_reg.cpp', 'src/ldt_statistics/modeling/linear/sur_modelset.cpp', 'src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp', 'src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp', 'include/math/statistics/inference/searchers.h'],
     [('parallel loop over searchers with shared options and counters', 'src/ldt_statistics/modeling/search/modelset.cpp')], over=('inputs', 'schedules', 'histories'),
     note='Runtime monitor: the library is compiled with ThreadSanitizer and run on an OpenMP runtime of std::threads (so every synchronization is seen) with random thread counts, delays and yields; results are compared with a sequential run of the same problem. LAPACK internals are represented by the ranges the main routines read and write. Known finding: the cancellation flag is a plain bool.')
RNOTE = 'Runtime monitor: both R packages are built from the working tree with AddressSanitizer and UndefinedBehaviorSanitizer and driven by R scripts with independent oracles in R. Trust: base R numerics (lm, qr, solve, glm, distribution functions), Rcpp.'
prop('A24', 'R estimations report the right numbers under the right names',
     'For get.data, estim.sur, estim.bin, estim.varma and the accessors of estimated models (coef, residuals, fitted, predict, logLik, AIC, BIC, endogenous, exogenous, leverage and Cook\'s distances) in R, for any data set (matrix, data frame, formula, unnamed), weights, Box-Cox transformation, intercept, new data, missing values, restrictions, principal components, orders and seeds: '
     'the data table holds each endogenous, weight, intercept and exogenous column in this order with its name, transformed as asked, and new rows; coefficients, standard deviations, tests, residuals, covariance, metrics and projections equal those of an independent computation with the rows that are complete, each under the name of its own equation and variable, whatever equations are selected; restricted, searched and component coefficients are under their own names; predictions are for the new rows and return to the original scale with the transformation; '
     'simulation metrics are those of the requested sample sizes, horizons (in any order) and seed, and repeat for a seed; details of a VARMA simulation reproduce its metrics; integer inputs give the results of the same real inputs, and results do not change when the garbage collector of R runs at any allocation.',
     'all data kinds, shapes, names, settings and seeds',
     'tests compare a few calls with stored numbers',
     ['Rpackage/R/data.R', 'Rpackage/R/sur.R', 'Rpackage/R/bin.R', 'Rpackage/R/varma.R', 'Rpackage/R/g.regression.R', 'Rpackage/R/options.R', 'Rpackage/src/r_sur.cpp', 'Rpackage/src/r_dc.cpp', 'Rpackage/src/r_varma.cpp', 'Rpackage/src/r_ldt.cpp'],
     [('positions of names, weights and intercept in shared tables', 'Rpackage/R/data.R'), ('objects built for R while its collector runs', 'Rpackage/src/r_ldt.cpp')], over=('inputs', 'histories'), note=RNOTE)
prop('A25', 'R searches enumerate exactly the asked models and report their estimations',
     'For search.sur, search.bin and search.varma in R with any partitions (by index or name), sizes, fixed partitions, inner groups, targets, metrics with any minimum per target, model checks, weights, transformations, missing values and parallel flag: the announced and searched number is that of the models the combinations define, failures (with counts per message that add up) are exactly the models that cannot be estimated or are rejected by the checks; '
     'every reported model is one of them, its metric equals that of its own estimation with estim.sur, estim.bin or estim.varma, and its weight follows from the metric and the given minimum; all models, the best ones in order, inclusion counts and mean weights, best items with mean and variance, cdfs, extreme bounds and mixture moments of coefficients or predictions equal those computed from these estimations; nothing is reported that was not asked; bounds on predictions reject exactly the models outside; '
     'summary with test = TRUE re-estimates every reported model without a difference; a stepwise search (search.steps) searches in each step all sizes of that step among the requested number of best variables of the step before (the fixed ones kept) and reports the best models, counts and failures of all steps together; results do not change when the garbage collector of R runs at any allocation.',
     'all search settings over random data',
     'tests compare a few searches with some of their own re-estimations',
     ['Rpackage/R/search.R', 'Rpackage/R/sur.R', 'Rpackage/R/bin.R', 'Rpackage/R/varma.R', 'Rpackage/R/steps.R', 'Rpackage/R/options.R', 'Rpackage/R/g.summary.R', 'Rpackage/src/r_sur.cpp', 'Rpackage/src/r_dc.cpp', 'Rpackage/src/r_varma.cpp', 'Rpackage/src/r_ldt.cpp', 'src/ldt_statistics/modeling/search/searcher_reg.cpp'],
     [('indices of shared data columns turned into names and groups', 'Rpackage/R/search.R'), ('unprotected vectors of results', 'Rpackage/src/r_ldt.cpp')], over=('inputs', 'histories'), note=RNOTE)
prop('A26', 'The R package tdata handles frequencies, variables and conversions exactly',
     'For the R package tdata: every frequency constructor (f.*) gives a frequency whose text and class id follow from its values and parse back to it (as.frequency); next.freq, minus.freqs, get.seq and get.seq0 move, count and list exactly that many periods forwards and backwards; invalid values, frequencies outside a list and mixed classes are rejected with an error. '
     'A variable keeps its data, start, name and fields in as.numeric, length, row names, data frame and text; bind.variables aligns any variables by period, drops or interpolates missing values, adjusts leads and lags relative to the first variable, adds horizon rows for exogenous variables and reports what it did. '
     'convert.to.* (dates to daily, daily to week, multi-day, year and year fractions, intra-day frequencies to daily or coarser) puts each observation in the group its date defines and aggregates each group by the given R function or named statistic (mean, sum, first, last, min, max, median, quartiles, population or sample (n-1) variance and standard deviation), and refuses conversions that are not supported. '
     'remove.na.strategies lists every removal of columns and rows that leaves no missing value, ordered by the given count function; get.longrun.growth gives the growth of the trimmed series by its definition, discrete or continuous, with NA where it does not exist.',
     'all classes of frequencies, variables, missing patterns and aggregations',
     'tests compare single periods, one binding and a few conversions',
     ['Rpackage_F/R/frequency.R', 'Rpackage_F/R/generics_f.R', 'Rpackage_F/R/variable.R', 'Rpackage_F/R/convert.R', 'Rpackage_F/R/helpers.R', 'Rpackage_F/src/r_frequency.cpp', 'Rpackage_F/src/r_variable.cpp', 'Rpackage_F/src/r_convert.cpp', 'include/array.h'],
     [('positions of lists of frequencies and data passed by reference', 'Rpackage_F/src/r_variable.cpp'), ('grouping by dates relative to the start of a week', 'Rpackage_F/R/convert.R')], over=('inputs', 'histories'), note=RNOTE + ' Known finding: start of multi-daily conversions from the end with an incomplete first group (encoded by an existing test).')
prop('A27', 'R statistics equal their definitions and leave their inputs unchanged',
     'In R: s.weight.from.metric and s.metric.from.weight are inverse and better metrics get larger weights, exactly exp(-(metric-minimum)/2) for AIC, SIC, Brier and the error metrics (percentages divided by 100), the metric itself for AUC, sign and direction, and one minus it for costs. s.roc gives the points and area of the (weighted, cost-sensitive, partial, pessimistic) ROC curve. '
     's.gld.quantile and s.gld.density.quantile follow the FKML formulas and s.gld.from.moments finds parameters of the requested type with the requested mean and variance. s.combine.stats4 gives the moments (excess kurtosis) of the pooled weighted sample. s.pca gives the directions, standard deviations, variance ratios and projections of new data of the centered and scaled matrix and names its constant columns. '
     's.distance, s.cluster.h and s.cluster.h.group give pairwise distances (Euclidean, Manhattan, maximum, Pearson or Spearman correlation, complete pairs for missing data), the dendrogram of each linkage with sorted heights, and a partition of the columns into that many clusters of the tree, with those closer than the threshold to an earlier member removed. '
     'rand.mnormal samples have the requested shape, mean and covariance and repeat for a seed. No function changes its arguments, and invalid names, sizes or values are errors.',
     'all metrics, labels, scores, weights, shapes, linkages and options',
     'tests compare one or two stored results per function',
     ['Rpackage/R/statistics.R', 'Rpackage/R/options.R', 'Rpackage/src/r_statistics.cpp', 'Rpackage/src/r_clustering.cpp', 'Rpackage/src/r_ldt.cpp'],
     [('vectors of R used in place', 'Rpackage/src/r_clustering.cpp'), ('options read by name from a list', 'Rpackage/src/r_ldt.cpp')], over=('inputs',), note=RNOTE)
prop('A28', 'Tables, printed texts and plots show the numbers of the objects',
     'In R, coefs.table of any estimated models has one column per model and requested endogenous variable and one row per requested explanatory variable and information key, each cell being the formatted coefficient, sign, standard error and stars (by the p-value at 1, 5, 10 percent; (r) if restricted) or the metric, covariance or count of that model, and blank where a model lacks the variable, whatever texts are renamed or cut. '
     'print of an estimation gives the model name with its orders, and per equation the coefficients, standard errors, statistics, p-values, stars, restrictions and metrics; print of a search gives the counts, failures with shares, best models, inclusion and the significant coefficients by best items, bounds, cdf and mixtures. '
     'plot of an estimation draws and returns, for each type and equation, the fitted values, residuals, quantiles, leverages and Cook\'s distances and labels the documented points; fan.plot draws the quantile bands, the median, actual values and limits for normal and log-normal distributions and Box-Cox transformations, for any rows and quantiles; predict and plot of VARMA predictions show actual values, means, variances, periods and simulations of the chosen variable.',
     'all estimated models, searches, predictions and options of display',
     'no test looks at tables, texts or plots',
     ['Rpackage/R/g.prints.R', 'Rpackage/R/g.plots.R', 'Rpackage/R/g.regression.R', 'Rpackage/R/sur.R', 'Rpackage/R/bin.R', 'Rpackage/R/varma.R'],
     [('matching of formatted and original names', 'Rpackage/R/g.prints.R'), ('columns of quantile bands', 'Rpackage/R/g.plots.R')], over=('inputs',), note=RNOTE + ' Plots are read from the display list of the graphics device, not from pixels.')
prop('A29', 'The C interface gives values, errors, texts and objects a caller can own',
     'Every function of the C interface returns normally: on failure it gives its neutral value (NaN, null, -1 or untouched output) and a terminated error message that fits 2048 characters, and on success the message is empty. A frequency created from its text and class reports its class, steps, distances and the same text and class; '
     'a text or data buffer that is too short is not touched and the required size is reported, and one of that size is filled and never exceeded. A copy of any frequency (lists included) is independent of the original: each can be moved and used after the other is disposed, everything created is disposed once in any order, and repeated life cycles (also failing ones) take no more memory. '
     'Combining two variables gives, from the first to the last available period of either, the second one\'s observation or, if it is missing, the first one\'s, the start frequency, the length and the largest relative difference (percentage of the first one); inputs are not changed and mixed frequencies are rejected. CRPS of normal and log-normal forecasts equal their closed forms in terms of the variance.',
     'all frequencies, texts, buffer sizes, variables, orders of disposal, failing calls',
     'no test calls the C interface',
     ['src/api.cpp', 'include/api.h', 'src/frequency/f_list.cpp', 'src/variable/variables.cpp'],
     [('error buffer and ownership of items of lists', 'src/api.cpp')], over=('inputs', 'histories'), note=NOTE + ' The error buffer is shared by all threads by design; concurrent calls are not judged.')
prop('A30', 'No result depends on what a work or storage array contained before',
     'The estimators (SUR, discrete choice, VARMA), their projections, simulations and searches, the optimizers, decompositions, regressions, principal components, clustering, scores and statistics take arrays of work and storage of the announced sizes from the caller, with any contents. '
     'They never use an element of these arrays (or of memory they allocate) before setting it: no branch, address or returned element is decided by a value nobody has set. So a computation gives the same result in fresh memory, in an array used by another computation, on any thread and in any order of the models of a search, and every element of a returned matrix is set.',
     'all inputs of these computations, all earlier contents of the arrays, all orders of models in a search',
     'tests use arrays fresh from the allocator, which are mostly zero, and rarely compare two runs',
     ['src/ldt_math/optimization/lmbfgsb.cpp', 'src/ldt_statistics/modeling/time_series/varma/varma.cpp', 'src/ldt_statistics/modeling/linear/sur.cpp', 'src/ldt_statistics/modeling/discrete/discrete_choice.cpp', 'src/ldt_statistics/modeling/search/modelset.cpp', 'src/matrix/matrix.cpp'],
     [('work arrays shared by the models of a search', 'src/ldt_statistics/modeling/search/modelset.cpp'), ('subspace minimization of L-BFGS-B', 'src/ldt_math/optimization/lbfgsb/subalgorithms.c')], over=('inputs', 'histories'),
     tech='runtime monitoring under Valgrind memcheck: definedness of every element tracked from work arrays marked as never set',
     note='Memcheck tracks definedness bit by bit through the real code, BLAS and LAPACK; an unset element whose value cannot change any branch or observed output is not reported. Shows absence of violations on the generated inputs only.')
