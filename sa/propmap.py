"""Which functions carry which property (generous: a function may carry several)."""

RFUN = {
 'C04': ['find_lfun_IS', 'find_lfun_SR', 'find_lfun_AGQ', 'find_lfun_Laplace', 'find_lfun_glmm_internal', 'find_lfun_glmm',
         'find_devfun_laplace_1', 'compute_normal_approx', 'find_log_weights', 'find_log_integrand', 'transform_normal',
         'find_eta', 'find_XBeta', 'find_LambdatThetaZt', 'find_epsilon_1', 'find_delta_1', 'find_gamma_1', 'find_M',
         'find_laplace_divergence', 'find_response_weights'],
 'C05': ['find_XBeta', 'find_LambdatThetaZt', 'find_lfun_SR', 'find_lfun_IS', 'find_lfun_AGQ', 'find_lfun_Laplace', 'glmm',
         'coef_fixed.glmmFit', 'coef_random.glmmFit', 'coef.glmmFit', 'vcov.glmmFit', 'summary.glmmFit',
         'print.summaryGlmmFit', 'print.glmmFit', 'optimize_glmm', 'find_lfun_glmm', 'find_lfun_glmm_internal',
         'compute_normal_approx', 'find_delta_1', 'find_epsilon_1'],
 'C06': ['find_response_weights', 'find_XBeta', 'find_LambdatThetaZt', 'find_eta', 'find_log_integrand', 'find_local_term',
         'find_epsilon_1', 'find_M', 'find_lfun_SR', 'find_lfun_IS', 'find_lfun_AGQ', 'find_lfun_Laplace', 'find_log_weights',
         'find_lfun_glmm_internal', 'find_lfun_glmm', 'find_devfun_laplace_1', 'compute_normal_approx', 'parse_formula',
         'parse_subformula', 'find_factorization_terms', 'find_modfr_glmm', 'glmm', 'find_delta_1'],
 'C07': ['find_control_with_defaults', 'find_lfun_glmm', 'find_lfun_glmm_internal', 'find_lfun_Laplace', 'find_lfun_AGQ',
         'find_lfun_SR', 'find_lfun_IS', 'check_if_order_implemented', 'glmm', 'check_modfr_SR', 'is_canonical',
         'find_approximation_name', 'optimize_glmm'],
 'C08': ['find_M', 'find_epsilon_1', 'find_delta_1', 'find_gamma_1', 'find_laplace_divergence', 'compute_normal_approx',
         'find_devfun_laplace_1', 'find_lfun_Laplace', 'find_LambdatThetaZt', 'find_XBeta', 'find_response_weights', 'glmm'],
 'C09': ['find_lfun_IS', 'find_log_weights', 'transform_normal', 'find_log_integrand', 'find_eta', 'find_XBeta',
         'find_LambdatThetaZt', 'find_response_weights', 'compute_normal_approx', 'find_lfun_glmm_internal'],
 'C10': ['[fr', '*fr', '/fr', '+fr', '-fr', 'is_modfr', 'has_reTrms', 'parse_sub'],
 'C11': ['concatenate_Matrix', 'concatenate_frames', 'attach_subframes', 'has_reTrms', 'has_re', 'find_modfr_glmm'],
 'C12': ['find_dim_sub', 'find_indices', 'find_vars_with_index', 'find_indices_subform', 'find_index_i', 'matrix_indexing',
         'flatten_formula', 'multi_to_flat', 'flatten_vars', 'find_dim_in_dir', 'subset_dim', 'parse_sub', 'find_pairs',
         'extract_to_flatten', '[fr'],
 'C13': ['find_subexpr', 'find_var_rhs', 'split_formula', 'drop_index', 'find_subvar', 'find_vars', 'add_subexpr',
         'match_subform_subexpr', 'parse_sub', 'find_modfr_glmm', 'modify_subexpr', 'find_sub_status', 'extract_to_flatten',
         'fixFormulaObject', 'flatten_formula', 'attach_subframes', 'parse_subformula', 'has_re'],
 'C14': ['parse_formula', 'parse_subformula', 'set_lme4_control', 'find_devfun_laplace_1', 'find_modfr_glmm', 'glmm',
         'find_lfun_AGQ', 'find_lfun_Laplace', 'find_lfun_glmm', 'find_lfun_glmm_internal', 'fixFormulaObject', 'has_re',
         'parse_sub', 'compute_normal_approx', 'attach_subframes'],
 'C15': ['find_active', 'find_cliques', 'add_obs_C', 'add_obs', 'find_local_term', 'find_factorization_terms', 'find_lfun_SR'],
 'C16': ['find_lfun_SR', 'check_modfr_SR'],
 'C19': [],      # everything in R/Rcpp*.R
 'C20': ['check_weights', 'check_modfr_SR', 'check_if_order_implemented', 'optimize_glmm', 'match_subform_subexpr',
         'find_lfun_glmm_internal', 'find_lfun_glmm', 'find_lfun_AGQ', 'find_lfun_Laplace', 'find_lfun_SR', 'find_lfun_IS',
         'find_dim_sub', 'find_indices_subform', 'find_index_i', 'find_dim_in_dir', 'matrix_indexing', '[fr', '*fr', '/fr', '+fr', '-fr',
         'find_modfr_glmm', 'parse_sub', 'glmm', 'add_obs', 'add_obs_C', 'modify_subexpr', 'find_sub_status', 'is_canonical',
         'find_LambdatThetaZt', 'find_XBeta', 'find_control_with_defaults', 'find_M', 'find_epsilon_1', 'parse_formula', 'parse_subformula',
         'find_factorization_terms', 'find_local_term', 'find_subvar', 'flatten_vars', 'extract_to_flatten', 'find_var_rhs',
         'multi_to_flat', 'find_indices', 'fixFormulaObject', 'subset_dim', 'concatenate_frames', 'attach_subframes', 'compute_normal_approx'],
 'C21': ['optimize_glmm', 'glmm'],
 'C22': ['glmmFit', 'summaryGlmmFit', 'find_approximation_name', 'print_subformula', 'print.glmmFit', 'summary.glmmFit',
         'print.summaryGlmmFit', 'coef_random.glmmFit', 'coef_fixed.glmmFit', 'coef.glmmFit', 'vcov.glmmFit', 'glmm'],
}

# called by users (exported, S3 methods) or directly by the tests
OBSERVABLES = {'glmm', 'find_lfun_glmm', 'find_modfr_glmm', 'set_lme4_control', 'coef.glmmFit', 'vcov.glmmFit', 'summary.glmmFit',
               'print.glmmFit', 'print.summaryGlmmFit', 'has_re', 'split_formula', 'find_dim_sub', 'modify_subexpr',
               'find_indices_subform', 'extract_to_flatten', 'parse_formula', 'parse_subformula', 'match_subform_subexpr',
               'find_subvar', 'concatenate_frames', 'multi_to_flat'}

# C++: base names of the files (sources or headers) whose functions carry the property
CFUN = {
 'C01': ['Binomial', 'Family', 'FamilyBase', 'FamilyGivenMean', 'Link', 'LinkBase', 'LogitLink', 'ProbitLink'],
 'C03': ['GLMMBelief', 'NormalBelief', 'MultiNormal', 'MixedContinuousBelief', 'ContinuousBelief', 'ContinuousBeliefBase', 'SparseBelief',
         'matrixHelper', 'subsetEigen', 'Quadratic', 'BeliefBase', 'Parameters', 'CoversBelief'],
 'C04': ['GLMMBelief', 'ClusterGraph', 'MixedContinuousBelief', 'ContinuousBelief', 'SparseBelief', 'NormalBelief', 'Parameters'],
 'C05': ['accessParameters', 'GLMMBelief', 'Parameters'],
 'C06': ['GLMMBelief', 'Family', 'Link', 'MixedContinuousBeliefVector', 'accessParameters', 'Parameters', 'FamilyGivenMean'],
 'C15': ['MixedContinuousBeliefVector', 'GLMMBelief', 'NormalBelief', 'BeliefBase', 'ContinuousBelief'],
 'C16': ['ClusterGraph', 'Graph', 'itemsHelper', 'dependenceGraph', 'adjacency_list_alt', 'MixedContinuousBelief', 'BeliefBase', 'CoversBelief'],
 'C17': ['IntegratedFunction', 'QuadratureRule', 'MultiNormal', 'subsetEigen', 'MixedContinuousBelief', 'ContinuousBelief', 'Parameters'],
 'C18': ['SparseGrid', 'Point', 'Basis', 'BasisLevel', 'SparseGridTransform', 'SparseStore', 'Quadratic', 'counting', 'SparseBelief', 'matrixHelper',
         'MixedContinuousBelief'],
 'C19': ['RcppR6', 'accessParameters', 'RcppR6_post', 'RcppR6_support'],
 'C23': ['GLMMBelief', 'MixedContinuousBelief', 'MixedContinuousBeliefVector', 'IntegratedFunction', 'SparseStore', 'SparseGrid', 'SparseGridTransform', 'BasisLevel', 'Basis',
         'MultiNormal', 'NormalBelief', 'Quadratic', 'QuadratureRule', 'subsetEigen', 'matrixHelper', 'itemsHelper', 'counting', 'Point', 'ClusterGraph', 'Graph', 'Binomial',
         'ProbitLink', 'SparseBelief', 'ContinuousBelief', 'BeliefBase', 'Family'],
 'C20': ['itemsHelper', 'ClusterGraph', 'Link', 'Family', 'FamilyGivenMean', 'NormalBelief', 'GLMMBelief', 'BeliefBase', 'MixedContinuousBelief',
         'Binomial', 'Graph', 'accessParameters', 'Parameters', 'QuadratureRule', 'SparseGrid', 'CoversBelief'],
}

# C++ functions whose own value is the specified one, whoever calls them
COBSERVABLES = {'integrate1D', 'integrate1DVector', 'integrate1DMatrix', 'isSubset', 'getRelativeItems', 'computeLogNormalizingConstant',
                'Point', 'QuadratureRule'}
