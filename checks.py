CHECKS = {
 'A01': dict(rule='random matrices of 1..7 rows/columns, all products/decompositions against long-double reference algebra; a case is distinct by operation family, shape and scalars',
   runs=[dict(harness='matrix.cpp', group='base', scale=3, sections=['products', 'elementwise', 'decomp', 'svd', 'qr'])], require=['section.products', 'section.decomp', 'section.svd', 'qr']),
 'A02': dict(rule='random matrices with missing/infinite values; distinct by operation family, shape, number of missing values and options',
   runs=[dict(harness='matrix.cpp', group='base', scale=3, sections=['access', 'stats', 'missing', 'dataset', 'standardized', 'values', 'columns'])], require=['equal_values', 'equals', 'searches', 'texts', 'triangular', 'fills', 'symmetric_values', 'columns', 'standardized_again', 'section.access', 'section.stats', 'section.missing', 'section.dataset']),
 'A03': dict(rule='random partitions (1..6 partitions of 1..4 items, any order across partitions), sizes, fixed partitions, inner groups; distinct by partition count, size, fixed count, target filter and number of combinations',
   runs=[dict(harness='search.cpp', group='search', scale=1.5, sections=['enumerate', 'regsearch', 'cancelling'], env={'OMP_NUM_THREADS': '4'})], require=['section.enumerate', 'section.regsearch', 'section.cancelling', 'combinations_visited', 'models_estimated']),
 'A04': dict(rule='random streams of evaluated models pushed through 1..4 real searchers, run sequentially or in parallel; distinct by number of searchers, parallel flag, weight shape, keep options, sizes and failure rate',
   runs=[dict(harness='search.cpp', group='search', scale=1.5, sections=['summaries'], env={'OMP_NUM_THREADS': '4'})], require=['bests_checked', 'inclusions_checked', 'cdfs_checked', 'mixtures_checked', 'bounds_checked']),
 'A05': dict(rule='random regression data, 1..4 equations and 1..5 regressors, unrestricted, restricted, significance search, missing rows and model checks; distinct by section, sizes and options',
   runs=[dict(harness='sur.cpp', group='linear', scale=4, sections=['estimate', 'restricted', 'sigsearch', 'extended'])], require=['section.estimate', 'section.restricted', 'significance_searches', 'models_rejected_by_checks']),
 'A06': dict(rule='random regression data, split sizes, seeds and metrics; distinct by sizes, iterations, split and metrics',
   runs=[dict(harness='sur.cpp', group='linear', scale=4, sections=['simulate'])], require=['simulated_forecasts']),
 'A07': dict(rule='random whole searches over SUR models; distinct by numbers of variables, targets, groups, metrics and the model check in force',
   runs=[dict(harness='sur.cpp', group='linear', scale=4, sections=['modelset'], env={'OMP_NUM_THREADS': '4'})], require=['models_compared', 'coefficients_compared']),
 'A08': dict(rule='random discrete choice data (binary and ordered, logit and probit, weights, missing rows, forecasts, ROC and cost options); distinct by model, sizes and options',
   runs=[dict(harness='dc.cpp', group='discrete', scale=5, sections=['ml', 'extended'])], require=['models_binary-logit', 'models_binary-probit', 'models_ordered-logit', 'models_ordered-probit', 'insample_scores', 'repetition_relations']),
 'A09': dict(rule='random binary/ordered searches and out-of-sample simulations; distinct by model, sizes, metrics, split and checks',
   runs=[dict(harness='dc.cpp', group='discrete', scale=5, sections=['simulate', 'modelset'], env={'OMP_NUM_THREADS': '4'})], require=['simulated_splits', 'failed_splits', 'rejected_simulations', 'models_compared', 'coefficients_compared']),
 'A10': dict(rule='random scores with ties, weights, per-observation costs, partial ranges, cost tables, predictive distributions; distinct by sizes and options',
   runs=[dict(harness='scoring.cpp', group='stats', scale=5, sections=['roc', 'cost', 'crps', 'weights', 'area'])], require=['auc_values', 'cost_tables', 'crps_values', 'weights_checked']),
 'A11': dict(rule='random orders, seasons, equations, exogenous variables, restrictions, sample ends, horizons; distinct by specification',
   runs=[dict(harness='varma.cpp', group='time_series', scale=6, sections=['sizes', 'var', 'ma'])], require=['ma_representations', 'var_models', 'ma_models', 'optima_checked', 'covariances_checked', 'forecasts', 'linear_restrictions', 'affine_restrictions']),
 'A12': dict(rule='random orders, seasons, data with missing ends, horizons, metrics, checks and groups; distinct by specification',
   runs=[dict(harness='varma2.cpp', group='time_series', scale=2.5, sections=['extended', 'simulate', 'simulatee', 'modelset'], env={'OMP_NUM_THREADS': '4'})], require=['scores_compared', 'simulations', 'extended_forecasts', 'models_compared', 'search_forecasts', 'details_compared', 'rejected', 'horizons_unsorted']),
 'A13': dict(rule='random arrays with missing values, weights, partitions and combination orders; random (matrix) polynomials and lengths; distinct by content',
   runs=[dict(harness='math.cpp', group='base', scale=40, sections=['array', 'poly'])], require=['arrays', 'moments_checked', 'summaries_combined', 'polynomials', 'scaled_weights']),
 'A14': dict(rule='random strictly convex functions, starts, bounds, tolerances and iteration limits; distinct by problem',
   runs=[dict(harness='math.cpp', group='base', scale=40, sections=['deriv', 'newton', 'lbfgs', 'nelder'])], require=['derivatives', 'minima', 'nelder_one']),
 'A15': dict(rule='random data with constant and nearly dependent columns, options of selection and models on components; distinct by sizes and options',
   runs=[dict(harness='pca.cpp', group='all', scale=5, sections=['pca', 'cutoff', 'model', 'sur', 'dc', 'varma'])], require=['decompositions', 'cutoffs', 'cutoffs_exact', 'used_again', 'selections', 'sur_models', 'dc_models', 'varma_models']),
 'A16': dict(rule='random frequencies of all classes, steps and texts (valid, mutated, arbitrary); distinct by class and steps',
   runs=[dict(harness='freq.cpp', group='base', scale=4, sections=['laws', 'invalid'])], require=['frequencies', 'mixed', 'accepted', 'rejected']),
 'A17': dict(rule='random variables over all frequency classes, missing patterns, starts and lengths; distinct by class, size and conversion',
   runs=[dict(harness='freq.cpp', group='base', scale=4, sections=['variable', 'align', 'convert'])], require=['variables', 'aligned', 'conversions']),
 'A18': dict(rule='14 families of distributions with random (small, large, integer) parameters, points at, inside and outside the support; distinct by family and parameters',
   runs=[dict(harness='dist.cpp', group='stats', src=['src/api.cpp'], scale=4, sections=['values', 'moments', 'sampling', 'degenerate', 'invalid'])], require=['densities', 'cdfs', 'quantiles', 'moments', 'medians', 'modes', 'supports', 'samples', 'degenerate', 'rejected']),
 'A19': dict(rule='random parameters of the lambda distribution, mixtures of 14 families, tables of 103 quantiles, data and bins; distinct by family and parameters',
   runs=[dict(harness='mix.cpp', group='stats', src=['src/api.cpp'], scale=4)], require=['gld_points', 'gld_moments', 'fits', 'mixture_points', 'mixture_moments', 'mixture_supports', 'mixture_samples', 'empirical_points', 'combinations', 'histograms', 'variable_histograms']),
 'A20': dict(rule='random arrays and matrices with missing values, duplicated and constant columns; distinct by function, shape and options',
   runs=[dict(harness='stat.cpp', group='stats', scale=4, sections=['moments', 'filters', 'decomposition', 'rank', 'regression', 'correlation'])], require=['moments', 'quantiles', 'filters', 'decompositions', 'ranks', 'regressions', 'pearson', 'spearman']),
 'A21': dict(rule='random distance matrices (points, blocks, ties, zeros, infinite) and data, all linkages and distances; distinct by size, kind and linkage',
   runs=[dict(harness='clus.cpp', group='stats', scale=4)], require=['distances', 'merges', 'dendrograms', 'trees', 'cuts', 'merge_tables', 'groupings', 'groupings_removed', 'infinite']),
 'A22': dict(rule='random data, class frequencies, ratios, fixed sizes and seeds; distinct by sizes',
   runs=[dict(harness='stat.cpp', group='stats', scale=10, sections=['split'])], require=['splits', 'rejected_splits', 'uniformity']),
 'A23': dict(rule='random searches of four kinds run with 2-8 threads, random delays and yields, polled and cancelled; distinct by the observed order in which threads proceed',
   runs=[dict(harness='par.cpp', extra=['omp_shim.cpp', 'plain_report.c'], group='all', san='tsan', scale=2)], require=['self_races_seen', 'parallel_user', 'parallel_sur', 'parallel_dc', 'parallel_varma', 'results_compared', 'progress_changes', 'cancelled_early', 'perturbations']),
 'A24': dict(rule='random data sets, equations, weights, transformations, missing rows, restrictions, components, orders and seeds used through the R package; distinct by kind and sizes',
   runs=[dict(harness='r_estim.R', group='all', shards=8, scale=8)], require=['data_number', 'data_names', 'data_formula', 'data_unnamed', 'data_lambdas', 'data_missing', 'data_new', 'data_new_missing', 'data_appended', 'lambda_ml', 'sur_full', 'sur_zero', 'sur_general', 'sur_zero_sum', 'sur_search', 'sur_projections', 'sur_missing_rows', 'standardized_residuals', 'cooks_distances', 'coef_without_zeros', 'sur_simulations', 'pca_estimations', 'pca_projections', 'pca_on_y', 'bin_logit', 'bin_probit', 'bin_weighted', 'bin_costs', 'bin_missing_rows', 'bin_projections', 'bin_simulations', 'bin_options', 'bin_simulations_missing', 'varma', 'varma_residuals', 'varma_params', 'varma_predictions', 'varma_predict', 'varma_ma', 'varma_ma_restricted', 'varma_simulations', 'vsim_details', 'integer_inputs', 'tortured_estimations']),
 'A25': dict(rule='random searches through the R package (SUR, binary, VARMA): partitions, groups, sizes, metrics, checks, items; distinct by these settings',
   runs=[dict(harness='r_search.R', group='all', shards=8, scale=8)], require=['sur_searches', 'sur_models', 'bin_searches', 'bin_models', 'varma_searches', 'varma_models', 'models_failed', 'models_rejected_by_checks', 'all_checked', 'best_checked', 'inclusion_checked', 'items_checked', 'bounds_checked', 'mixtures_checked', 'minimums_per_target', 'partitions_by_name', 'partitions_by_index', 'inner_by_name', 'models_inside_bounds', 'models_outside_bounds', 'summaries', 'sur_significance', 'sur_lambdas', 'sur_missing', 'bin_missing', 'bin_missing_target', 'bin_weighted', 'bin_weighted_evaluation', 'bin_probit', 'intercept_moved', 'varma_lambdas', 'models_without_simulation', 'parallel', 'tortured_searches', 'steps_sur', 'steps_bin', 'steps_varma', 'steps_reduced', 'steps_rejected', 'steps_impossible', 'steps_lambdas', 'steps_weights']),
 'A26': dict(rule='random frequencies of all classes, invalid values, variables with missing values, sets of variables, daily and intra-day series and data with missing values used through the R package tdata; distinct by kind and sizes',
   runs=[dict(harness='r_tdata.R', group='all', packages=['tdata'], shards=8, scale=10)], require=['frequencies', 'class_cs', 'class_y', 'class_q', 'class_m', 'class_z', 'class_x', 'class_w', 'class_d', 'class_i', 'class_ho', 'class_mi', 'class_se', 'class_da', 'class_Ls', 'class_Ld', 'mixed', 'outside_rejected', 'rejected', 'variables', 'binds', 'bind_adjusted', 'bind_interpolated', 'bind_horizon', 'convert_weekly', 'convert_multidaily', 'convert_year', 'convert_days', 'convert_dates', 'convert_week', 'convert_unsupported', 'strategies', 'growth', 'growth_na']),
 'A27': dict(rule='random metrics and weights, scores and labels, moments, matrices, distances and data used through the R package; distinct by kind and sizes',
   runs=[dict(harness='r_stat.R', group='all', shards=8, scale=10)], require=['weights', 'metric_aic', 'metric_sic', 'metric_brier', 'metric_mae', 'metric_rmse', 'metric_crps', 'metric_mape', 'metric_rmspe', 'metric_auc', 'metric_sign', 'metric_direction', 'metric_frequencyCost', 'rocs', 'roc_costs', 'roc_pessimistic', 'roc_plain', 'roc_partial', 'gld', 'gld_fits', 'combines', 'pca', 'pca_projected', 'pca_constant', 'distances', 'distance_correlation', 'distance_absCorrelation', 'distance_euclidean', 'distance_manhattan', 'distance_maximum', 'clusters', 'linkage_single', 'linkage_complete', 'linkage_uAverage', 'linkage_wAverage', 'linkage_ward', 'groups', 'group_removed', 'samples']),
 'A28': dict(rule='random estimated models, searches, predictions and display options; distinct by kind, sizes and options',
   runs=[dict(harness='r_show.R', group='all', shards=8, scale=8)], require=['tables', 'table_sign', 'table_sign_star', 'table_coef', 'table_coef_star', 'table_coef_star_std', 'tables_renamed', 'tables_cut', 'tables_combined', 'tables_restricted', 'diagnostics', 'plot_1', 'plot_2', 'plot_3', 'plot_4', 'plot_5', 'plot_6', 'diagnostics_sur', 'diagnostics_bin', 'diagnostics_varma', 'fans', 'fan_normal', 'fan_log-normal', 'fan_gradient', 'fan_lambda', 'fan_actual', 'predictions', 'prediction_simulations', 'prints', 'print_sur', 'print_bin', 'print_varma', 'prints_restricted', 'searches', 'search_bounds', 'search_cdfs', 'search_items', 'search_mixtures', 'search_failed']),
 'A29': dict(rule='random frequencies, variables, tables, sizes of buffers, orders of disposal and invalid texts; distinct by frequency and function',
   runs=[dict(harness='api.cpp', group='stats', src=['src/api.cpp'], scale=3)], require=['frequencies', 'lists', 'copies_alone', 'disposed', 'strings', 'short_buffers', 'errors', 'long_messages', 'scores', 'combined', 'mixed', 'life_cycles']),
 'A30': dict(rule='the workloads of the estimators, simulations, searches, optimizers, decompositions and statistics with every work and storage array marked as never set; distinct as in these workloads',
   runs=[dict(harness='varma2.cpp', group='all', san='memcheck', scale=0.12),
     dict(harness='math.cpp', group='all', san='memcheck', scale=0.4),
     dict(harness='dc.cpp', group='all', san='memcheck', scale=0.15),
     dict(harness='sur.cpp', group='all', san='memcheck', scale=0.4),
     dict(harness='varma.cpp', group='all', san='memcheck', scale=0.1),
     dict(harness='pca.cpp', group='all', san='memcheck', scale=0.5),
     dict(harness='stat.cpp', group='all', san='memcheck', scale=0.5),
     dict(harness='scoring.cpp', group='all', san='memcheck', scale=0.5),
     dict(harness='clus.cpp', group='all', san='memcheck', scale=0.5),
     dict(harness='matrix.cpp', group='all', san='memcheck', scale=0.4, sections=['products', 'decomp', 'svd', 'qr', 'stats', 'missing', 'dataset', 'standardized'])],
   require=['elements_unset', 'section.extended', 'section.simulate', 'section.simulatee', 'section.modelset', 'section.lbfgs', 'section.nelder', 'section.ml', 'section.ma', 'section.var', 'section.pca', 'section.regression', 'section.roc', 'section.svd']),
}
