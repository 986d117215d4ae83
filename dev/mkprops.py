"""Writes properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))


p('C01', 'Family log-density and its first four derivatives are exact',
  'For the binomial family with a logit or probit link, the log-density returned for a linear predictor, response and weights is the weighted binomial log-likelihood (up to a constant free of the linear predictor), and what is returned as its first to fourth derivatives are exactly its derivatives with respect to the linear predictor, away from the points where the mean is clamped. An unknown family or link name is refused with an error.',
  ['inputs', 'configurations'], 'every linear predictor, response, weight vector; every family/link pair and every order of derivative',
  'Tests compare a handful of linear predictors and the first derivatives against numerical differentiation; an error at third or fourth order, or for weights other than 1, is out of their reach.',
  ['src/Family.cpp', 'src/Binomial.cpp', 'src/LogitLink.cpp', 'src/ProbitLink.cpp', 'src/Link.cpp', 'src/FamilyGivenMean.cpp'],
  [('Family::evaluate*', 'src/Family.cpp'), ('Binomial::evaluate*', 'src/Binomial.cpp'), ('LogitLink::computeMean*', 'src/LogitLink.cpp'), ('ProbitLink::computeMean*', 'src/ProbitLink.cpp'), ('Link::initialize, FamilyGivenMean::initialize', 'src/Link.cpp')])
p('C02', 'Finite linear predictors give finite log-densities and derivatives',
  'For every finite linear predictor of magnitude up to 1e100, every response between 0 and 1 and every finite non-negative weight, the binomial log-density and each of its derivatives is a finite number: neither infinite nor NaN. In particular the mean is kept strictly between 0 and 1 before its logarithm or reciprocal is taken.',
  ['inputs'], 'all linear predictors in [-1e100, 1e100], responses in [0,1], weights in [0,1e6]',
  'The optimiser visits linear predictors no test samples; overflow needs magnitudes above 700 for logit, about 8 for probit.',
  ['src/Binomial.cpp', 'src/LogitLink.cpp', 'src/ProbitLink.cpp', 'src/Family.cpp'],
  [('Binomial::checkMean clamps the mean', 'src/Binomial.cpp'), ('LogitLink::computeMean written without overflow', 'src/LogitLink.cpp'), ('Family calls checkMean before use', 'src/Family.cpp')])
p('C03', 'Every term of the factorised density has the exact value and derivatives',
  'A term of the factorised density built from a block of observations has, for all random effects, fixed effects and variance parameters, the value of the conditional log-density of those observations, with linear predictor equal to fixed part plus random part; a term built from a mean and precision has the value of that normal log-density; a term representing a product or quotient has the sum or difference of its parts. The gradient and Hessian supplied with each of them are exactly those of the value.',
  ['inputs', 'configurations'], 'all parameter values, all argument values, all ways of multiplying and dividing terms over subsets of items',
  'No unit test evaluates a term of the factorisation or its derivatives directly; they are only seen through the final likelihood of four small models.',
  ['src/GLMMBelief.cpp', 'src/NormalBelief.cpp', 'src/MultiNormal.cpp', 'src/MixedContinuousBelief.cpp', 'src/ContinuousBelief.cpp', 'src/SparseBelief.cpp', 'src/matrixHelper.cpp', 'src/subsetEigen.cpp'],
  [('GLMMBelief::evaluate*', 'src/GLMMBelief.cpp'), ('MultiNormal::evaluate*', 'src/MultiNormal.cpp'), ('MixedContinuousBelief::evaluate*', 'src/MixedContinuousBelief.cpp')])
p('C04', 'Evaluating the log-likelihood has no memory and changes nothing',
  'The approximated log-likelihood is a function of its parameter alone: its value does not depend on which parameters were evaluated before, and evaluating it changes neither the model frame, the data nor the user\'s workspace, nor draws random numbers. Only constructing the importance sampling log-likelihood draws random numbers.',
  ['histories', 'inputs'], 'every sequence of evaluations, of any method, interleaved in any order, on shared model frames',
  'Tests evaluate at most a few parameter values in one order; stale caches show only for particular sequences.',
  ['R/loglikelihood.R', 'R/IS.R', 'R/laplace.R', 'R/hol.R', 'src/GLMMBelief.cpp', 'src/ClusterGraph.cpp'],
  [('lfun closures assign only locals', 'R/loglikelihood.R'), ('copies handed to lme4', 'R/loglikelihood.R:find_devfun_laplace_1'), ('cached products refreshed when theta or beta change', 'src/GLMMBelief.cpp:setTheta/setBeta'), ('cluster graph copied before calibration', 'src/ClusterGraph.cpp:computeLogNormalizingConstant')])
p('C05', 'Parameters are laid out as variance parameters, then fixed effects, everywhere',
  'Wherever a parameter vector is read or written (every approximation, the optimiser, the fitted object and its methods) its first entries are the variance parameters and the remaining ones the fixed effects, in the order of the columns of the design matrix. This holds for any number of either, including no fixed effects at all.',
  ['inputs', 'configurations'], 'every number of variance parameters and fixed effects (also 0), every method and every accessor',
  'Tests use models with one or two variance parameters and at least one fixed effect.',
  ['R/IS.R', 'R/loglikelihood.R', 'R/fit.R', 'R/glmmFit.R', 'R/optimization.R'],
  [('find_XBeta, find_LambdatThetaZt', 'R/IS.R'), ('lfun in find_lfun_SR', 'R/loglikelihood.R'), ('glmm', 'R/fit.R'), ('coef_fixed, coef_random, print, summary', 'R/glmmFit.R'), ('optimize_glmm', 'R/optimization.R')])
p('C06', 'All approximations use the same response, weights, offset and family',
  'Every approximation method evaluates the same model: the same response (also when given as two columns or a factor), the same prior weights, offset, design matrices and the family and link the user asked for. Their log-likelihoods differ only by approximation error and a constant that does not depend on the parameters.',
  ['inputs', 'configurations'], 'every model frame (with or without weights, offset, two-column or factor response), family, link and method',
  'Tests cover few combinations of method with offset, weights and response type.',
  ['R/IS.R', 'R/hol.R', 'R/splitframe.R', 'R/loglikelihood.R', 'R/model_frames.R'],
  [('find_response_weights, find_XBeta', 'R/IS.R'), ('find_local_term', 'R/splitframe.R'), ('find_epsilon_1', 'R/hol.R'), ('calibration parameters', 'R/loglikelihood.R:find_lfun_SR')])
p('C07', 'The method and control settings asked for are the ones used',
  'The method named by the user selects the approximation, each control setting given reaches the approximation it belongs to, documented defaults apply otherwise, unknown or inapplicable settings are warned about, and an unknown or missing method is an error. The optional quality check of the first-order Laplace approximation runs exactly when asked for with that method and order, and warns exactly when the divergence exceeds the threshold.',
  ['inputs', 'configurations'], 'every method, every list of control settings',
  'Tests exercise some control lists; the space of combinations is not enumerated.',
  ['R/control.R', 'R/loglikelihood.R', 'R/laplace.R', 'R/fit.R', 'R/utility.R'],
  [('find_control_with_defaults', 'R/control.R'), ('find_lfun_glmm_internal', 'R/loglikelihood.R'), ('find_lfun_Laplace, check_if_order_implemented', 'R/laplace.R'), ('glmm', 'R/fit.R')])
p('C08', 'Second-order Laplace correction and divergence follow their definitions',
  'The normal approximation used everywhere has the conditional mode as mean and the negative Hessian at the mode as precision. The second-order Laplace correction is -kappa4/8 + (2 kappa23^2 + 3 kappa13^2)/24 computed from third and fourth derivatives of the conditional log-density at that mode, and the divergence reported is half the squared length of the gradient of that correction in the metric of the estimated variance.',
  ['inputs', 'configurations'], 'every model, parameter value, response and weights',
  'Tests compare a single correction value with a stored number.',
  ['R/hol.R', 'R/loglikelihood.R', 'R/laplace.R'],
  [('find_epsilon_1, find_M, find_delta_1, find_laplace_divergence', 'R/hol.R'), ('compute_normal_approx', 'R/loglikelihood.R'), ('find_lfun_Laplace', 'R/laplace.R')])
p('C09', 'The importance sampling estimator is unbiased for the likelihood',
  'The importance sampling log-likelihood is the log of the average of integrand over proposal density, at draws from the normal approximation with the stated number of samples: the points are the mode plus standard normal draws transformed to have the precision of the approximation, the proposal density is that of exactly this distribution, and the integrand is the conditional density times the standard normal density of the random effects. The average is computed without overflow, and the draws are made once per likelihood.',
  ['inputs', 'configurations'], 'every model, parameter value and number of samples',
  'Being random, it is only tested loosely on one model with one random effect.',
  ['R/IS.R'],
  [('find_lfun_IS, find_log_weights, transform_normal, find_log_integrand, find_eta', 'R/IS.R')])
p('C10', 'Arithmetic on model frames acts alike on fixed and random effects',
  'Adding, subtracting, scaling, dividing and indexing model frames does to every part of the frame (the fixed design matrix, and the random design matrices in both their stored forms) exactly what it would do to the linear predictor they define. Frames of different shape, or with and without random effects, are refused.',
  ['inputs', 'programs'], 'every expression built from indexing, +, -, *, / over model frames, every data vector used as multiplier',
  'Tests cover few expressions, mostly on frames without random effects.',
  ['R/model_frames.R'],
  [('`[fr`, `*fr`, `/fr`, `+fr`, `-fr`', 'R/model_frames.R')])
p('C11', 'Concatenating model frames keeps every block in its place',
  'The frame of a model with several substituted terms is the block concatenation of their frames: fixed columns side by side, random effects stacked, block-diagonal relative covariance factor, and every index (into the parameters, of the row blocks, of the grouping factors) shifted by the size of what precedes it.',
  ['inputs', 'configurations'], 'any number of frames, with or without random effects, of any size',
  'Tests concatenate at most two frames, of simple structure.',
  ['R/model_frames.R'],
  [('concatenate_frames, concatenate_Matrix, attach_subframes', 'R/model_frames.R')])
p('C12', 'Multi-dimensional indexing of a substituted variable selects the right entries',
  'Indexing a substituted variable by one or several factors or integers picks, for every observation, the row of the expanded frame that belongs to that combination of levels. Inconsistent dimensions, indices absent from the data, factors with differing or the wrong number of levels, and unsupported index types are refused with an error.',
  ['inputs', 'programs'], 'every number of indices and levels, factor or numeric, and every formula that uses them',
  'Tests use one or two indices with small numbers of levels.',
  ['R/indexing.R', 'R/utility.R', 'R/subformula.R'],
  [('find_indices_subform, find_index_i, find_dim_sub, multi_to_flat, flatten_vars', 'R/indexing.R'), ('find_dim_in_dir', 'R/utility.R'), ('parse_sub', 'R/subformula.R')])
p('C13', 'Sub() terms are separated, matched and expanded faithfully',
  'Every Sub() term of the formula is matched with the one subformula of its substituted variable and replaced by the frame it denotes, the other terms of the formula being kept unchanged; expressions that are not linear in the substituted variable, terms without or with several substituted variables, and variables with several terms are refused. Expressions containing constants, functions of data and nested brackets are handled by structural recursion that visits every subexpression.',
  ['inputs', 'programs'], 'every formula and every list of subformulas',
  'The formulas form an infinite language of which tests sample a dozen.',
  ['R/subformula.R', 'R/modify_subexpr.R', 'R/model_frames.R', 'R/utility.R'],
  [('split_formula, match_subform_subexpr, add_subexpr, parse_sub, find_modfr_glmm', 'R/subformula.R'), ('modify_subexpr, find_sub_status, extract_to_flatten', 'R/modify_subexpr.R')])
p('C14', 'Data, weights, offset and lme4 settings reach lme4 on every route',
  'On every route by which a model frame or deviance function is built (with or without random effects, weights, offset, substituted terms) the data, family, prior weights, offset and the lme4 control settings the user gave are passed on to lme4 unchanged, and missing values are refused rather than silently dropped.',
  ['inputs', 'configurations'], 'every combination of weights, offset, subformula and control settings',
  'The routes multiply; tests visit a few, and rarely with non-default lme4 settings.',
  ['R/model_frames.R', 'R/control.R', 'R/loglikelihood.R', 'R/subformula.R', 'R/fit.R'],
  [('parse_formula, parse_subformula', 'R/model_frames.R'), ('set_lme4_control', 'R/control.R'), ('find_devfun_laplace_1', 'R/loglikelihood.R'), ('find_modfr_glmm', 'R/subformula.R')])
p('C15', 'The factorisation accounts for every observation and random effect once',
  'The terms handed to the sequential reduction approximation form an exact factorisation of the integrand: each observation enters exactly one term, which involves all the random effects it depends on; each random effect has exactly one standard normal term; and each term carries matching subsets of design matrices, covariance factor, response, weights and offset. An observation that fits no term is an error.',
  ['inputs', 'configurations'], 'every model frame',
  'Only the resulting likelihood of a few balanced models is tested.',
  ['R/splitframe.R', 'src/MixedContinuousBeliefVector.cpp'],
  [('find_active, add_obs, add_obs_C, find_local_term, find_factorization_terms', 'R/splitframe.R'), ('appendGLMMBelief, appendNormalBelief', 'src/MixedContinuousBeliefVector.cpp')])
p('C16', 'Sequential reduction uses a valid cluster tree and message schedule',
  'Eliminating the random effects one at a time yields clusters and separators with the running intersection property, each term is multiplied into exactly one cluster that contains it, and passing messages forward multiplies the receiving cluster by the new separator term and divides it by the old one. The normalising constant is obtained from the last cluster by integrating out all its remaining items, and improper intermediate results raise an error.',
  ['inputs', 'schedules', 'configurations'], 'every dependence graph (any number of random effects and cliques), every elimination order the heuristic chooses',
  'Tests reach few graphs: nested and small crossed structures.',
  ['src/ClusterGraph.cpp', 'src/Graph.cpp', 'src/MixedContinuousBelief.cpp', 'src/itemsHelper.cpp', 'inst/include/dependenceGraph.h'],
  [('initializeInternal, populateBelief, passMessage, calibrateInternal, computeLogNormalizingConstant', 'src/ClusterGraph.cpp'), ('Graph', 'src/Graph.cpp'), ('operator*=, operator/=, margin, integrate', 'src/MixedContinuousBelief.cpp'), ('item set operations', 'src/itemsHelper.cpp')])
p('C17', 'Integration is adaptive Gauss-Hermite, with exact derivatives',
  'Integrating one random effect out of a term uses Gauss-Hermite nodes and weights of the requested order, centred at the conditional mean and scaled by the conditional standard deviation given by the normal approximation. The gradient and Hessian of the log of the integral returned with it are exactly the derivatives of that log-integral under the quadrature rule, up to how the centring itself moves.',
  ['inputs', 'configurations'], 'every term, dimension, integrated position, number of quadrature points',
  'Derivatives of integrated terms are not tested at all.',
  ['src/IntegratedFunction.cpp', 'src/QuadratureRule.cpp', 'src/MultiNormal.cpp', 'src/subsetEigen.cpp'],
  [('IntegratedFunction', 'src/IntegratedFunction.cpp'), ('QuadratureRule, integrate1D*', 'src/QuadratureRule.cpp')])
p('C18', 'The sparse grid stores and returns one consistent interpolant',
  'The points of the sparse grid are enumerated exactly once, in the order in which coefficients are stored; interpolation reproduces the stored function at the grid points (up to the bound by its largest stored value), and the first and second derivatives returned are those of the interpolant, including the change of variable and the quadratic correction. The correction added before storing is the one subtracted when reading.',
  ['inputs', 'configurations'], 'every dimension, level, stored function and evaluation point',
  'No test reaches the sparse grid classes directly; dimensions and levels in the likelihood tests are tiny.',
  ['src/SparseGrid.cpp', 'src/Point.cpp', 'src/Basis.cpp', 'src/BasisLevel.cpp', 'src/SparseGridTransform.cpp', 'src/SparseStore.cpp', 'src/Quadratic.cpp', 'src/counting.cpp'],
  [('Point::advance, setIndex', 'src/Point.cpp'), ('SparseGrid::hierarchize, interpolate*', 'src/SparseGrid.cpp'), ('BasisLevel', 'src/BasisLevel.cpp'), ('SparseStore, SparseGridTransform, Quadratic', 'src/SparseStore.cpp')])
p('C19', 'The R interface and the compiled code agree on every entry point',
  'Every compiled entry point called from R is registered under the same name with the same number of arguments, passed in the same order and converted to the type the compiled function expects, and each R wrapper reaches the operation of the same meaning (a getter reads and a setter writes the same field; the d-th derivative method returns the d-th derivative).',
  ['programs', 'inputs'], 'all entry points, wrappers and their arguments',
  'A swapped pair of same-typed arguments or two setters crossed give plausible numbers; tests use few of the entry points.',
  ['R/RcppExports.R', 'R/RcppR6.R', 'src/RcppExports.cpp', 'src/RcppR6.cpp', 'src/accessParameters.cpp', 'inst/include/glmmsr/RcppR6_post.hpp'],
  [('.Call wrappers', 'R/RcppExports.R'), ('R6 classes', 'R/RcppR6.R'), ('registration table', 'src/RcppExports.cpp'), ('entry points', 'src/RcppR6.cpp')])
p('C20', 'Invalid input is rejected, and errors are neither swallowed nor lost',
  'Non-integer weights, unsupported families and links, impossible orders of approximation, parameters of the wrong length, too complex models, inconsistent indexing and items missing from a term are each refused by an error raised before a result is computed from them. An error inside the likelihood at the starting value stops the fit, one met later during optimisation counts as an infinitely bad value, and no exception is constructed without being thrown.',
  ['inputs', 'fault_sequences'], 'all inputs of the kinds listed and every point of the optimisation',
  'Tests check some messages; that no path avoids a check cannot be tested.',
  ['R/utility.R', 'R/laplace.R', 'R/loglikelihood.R', 'R/optimization.R', 'R/subformula.R', 'R/indexing.R', 'R/model_frames.R', 'src/itemsHelper.cpp', 'src/ClusterGraph.cpp', 'src/Link.cpp', 'src/FamilyGivenMean.cpp'],
  [('check_weights, check_modfr_SR', 'R/utility.R'), ('check_if_order_implemented', 'R/laplace.R'), ('tryCatch in optimize_glmm', 'R/optimization.R'), ('findRelativeItem', 'src/itemsHelper.cpp')])
p('C21', 'The optimiser maximises the log-likelihood it was given',
  'Fitting minimises minus twice the approximated log-likelihood over the admissible region (no variance parameter beyond 5), starting from the previous fit if one is given and from the default otherwise, and returns the minimiser in the original coordinates with twice the inverse Hessian as its variance. Failure to converge and near-singular variance are warned about, and what is printed while fitting does not affect the result.',
  ['inputs', 'configurations'], 'every log-likelihood function, starting value and verbosity',
  'Tests fit a few models and compare rounded estimates.',
  ['R/optimization.R', 'R/fit.R'],
  [('optimize_glmm', 'R/optimization.R'), ('glmm', 'R/fit.R')])
p('C22', 'Reported estimates, standard errors and tests describe the fit',
  'Coefficients, variance matrix, standard errors, z values, p values, names and the printed tables of a fit are all taken from the same estimate and variance: standard errors are square roots of the diagonal, z is estimate over standard error, p is two-sided normal, and every number stands beside the name of its own parameter. The printed family, link, formula, approximation and numbers of observations and groups are those of the fit.',
  ['inputs', 'configurations'], 'every fitted object: any number of variance parameters and fixed effects',
  'Tests look at coefficient names of one fit.',
  ['R/glmmFit.R', 'R/fit.R'],
  [('summary.glmmFit, coef.glmmFit, vcov.glmmFit, print methods', 'R/glmmFit.R')])
p('C23', 'The compiled code neither reads uninitialised nor dangling memory',
  'No evaluation in the compiled code reads a member or element that was never set, an element outside its container, or a temporary or captured variable that is no longer alive. This holds for every size of model, including terms with no items, no fixed effects and zero sparse levels.',
  ['inputs', 'configurations'], 'every model size and parameter',
  'Reads of uninitialised or stale memory usually give plausible values in tests.',
  ['src/GLMMBelief.cpp', 'src/MixedContinuousBelief.cpp', 'src/IntegratedFunction.cpp', 'src/SparseStore.cpp', 'src/BasisLevel.cpp', 'src/Family.cpp', 'src/MultiNormal.cpp', 'src/subsetEigen.cpp'],
  [('constructors initialise members', 'src/*.cpp'), ('auto-typed Eigen expressions refer to live operands', 'src/Family.cpp, src/IntegratedFunction.cpp'), ('lambdas outlived by what they capture', 'src/MixedContinuousBelief.cpp'), ('initial theta sized by what is read', 'src/GLMMBelief.cpp')])
p('C24', 'The sequential reduction approximation converges as sparse levels increase',
  'As the number of sparse levels grows, the sequential reduction log-likelihood converges to the exact log-likelihood, and at moderate levels agrees with adaptive quadrature to the accuracy users expect.',
  ['inputs', 'configurations'], 'every model for which the exact likelihood exists',
  'Tests compare a few values of the level on one or two models.',
  ['src/SparseStore.cpp', 'src/ClusterGraph.cpp'], [('sparse grid storage', 'src/SparseStore.cpp')])
p('C25', 'The optimiser reaches the global maximum and terminates',
  'Fitting terminates within its iteration limit at the global maximum of the approximated log-likelihood whenever it reports convergence.',
  ['inputs', 'histories'], 'every log-likelihood surface and starting value',
  'Tests fit a few well-behaved models.',
  ['R/optimization.R'], [('optim with BFGS', 'R/optimization.R')])
p('C26', 'Spline basis and eigen-decompositions stay numerically well-conditioned',
  'The spline coefficients, matrix square roots and inverses used to store a term remain accurate to several digits at every level and for every normal approximation that occurs.',
  ['inputs', 'configurations'], 'all levels and precision matrices',
  'Tests see levels up to 3.',
  ['src/BasisLevel.cpp', 'src/SparseGridTransform.cpp'], [('colPivHouseholderQr', 'src/BasisLevel.cpp')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
