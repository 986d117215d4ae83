from seeds_r import PRE, CROSS
from seeds_c import HEAD
SEEDS = {}
SEEDS['c02-clamp3'] = dict(property='C02', edits=[('src/Family.cpp',
'''  auto mean = link_.computeMean(linearPredictor);
  familyGivenMean_.checkMean(mean);
  auto meanD1 = link_.computeMeanDerivative(linearPredictor);
  auto meanD2 = link_.computeMeanSecondDerivative(linearPredictor);
  auto meanD3 = link_.computeMeanThirdDerivative(linearPredictor);

''', '''  auto mean = link_.computeMean(linearPredictor);
  auto meanD1 = link_.computeMeanDerivative(linearPredictor);
  auto meanD2 = link_.computeMeanSecondDerivative(linearPredictor);
  auto meanD3 = link_.computeMeanThirdDerivative(linearPredictor);

''')],
 needs='the third derivative at a linear predictor large enough for the mean to be 0 or 1 after rounding', breaks='the third derivative is NaN for large linear predictors',
 cpp=HEAD + '''
#include "Family.h"
int main() {
  Family probit("binomial", "probit"), logit("binomial", "logit");
  for(double eta : {-60., -45., 3., 45., 60.})
    for(double y : {0., 1.}) {
      Eigen::ArrayXd e(1), r(1), w(1); e << eta; r << y; w << 1;
      for(auto f : {probit, logit})
        if(!std::isfinite(f.evaluateThirdDerivative(e, r, w)(0))) { std::printf("%g %g\\n", eta, y); return 1; }
    }
  return 0;
}
''')
SEEDS['c04-norm'] = dict(property='C04', edits=[('src/GLMMBelief.cpp',
'  if(beta.size() != beta_.size() || beta != beta_) {\n',
'  if(beta.size() != beta_.size() || beta.squaredNorm() != beta_.squaredNorm()) {\n')],
 needs='two evaluations in a row at fixed effects that differ, but have the same length (a change of sign, or of order)',
 breaks='the value at the second depends on the first',
 cpp=HEAD + '''
#include "GLMMBelief.h"
#include "accessParameters.h"
int main() {
  std::vector<int> items = {0};
  Eigen::MatrixXd X(2, 2); X << 1, 0.5, 1, -2;
  Eigen::MatrixXd Zt(1, 2); Zt << 1, 1;
  Eigen::SparseMatrix<double> L(1, 1); L.insert(0, 0) = 1;
  Eigen::VectorXi Lind(1); Lind << 0;
  Eigen::ArrayXd y(2), w(2); y << 0, 1; w << 1, 1;
  Parameters p = makeParametersR();
  p.GLMMTheta = Eigen::VectorXd::Constant(1, 0.7);
  Eigen::VectorXd u(1), b1(2), b2(2); u << 0.4; b1 << 0.3, -1.1; b2 << -1.1, 0.3;
  GLMMBelief fresh(items, X, Zt, L, Lind, y, w), used(fresh);
  p.GLMMBeta = b1; used.evaluate(u, p);
  p.GLMMBeta = b2;
  double a = fresh.evaluate(u, p), b = used.evaluate(u, p);
  if(a != b) { std::printf("%g %g\\n", a, b); return 1; }
  return 0;
}
''')
SEEDS['c05-nofixed'] = dict(property='C05', edits=[('R/glmmFit.R',
'''  which_fixed <- p_theta + seq_len(p_beta)
  estim_fixed <- fit$estim[which_fixed]
''', '''  which_fixed <- (p_theta + 1):p
  estim_fixed <- fit$estim[which_fixed]
''')],
 needs='printing the summary of a model without fixed effects', breaks='variance parameters are taken for fixed effects',
 demo=PRE + CROSS + '''
modfr <- find_modfr_glmm(y ~ 0 + (1 | g) + (1 | h), data = dat, family = binomial)
x <- glmmsr:::summary.glmmFit(glmmsr:::glmmFit(list(estim = c(0.9, 0.4), Sigma = diag(2) / 10, modfr = modfr, method = "Laplace", control = list(order = 1))))
out <- try(capture.output(print(x)), silent = TRUE)
if(inherits(out, "try-error")) fail(out)
if(any(grepl("0.9", out[-seq_len(grep("Fixed effects", out))]))) fail(out)
''')
SEEDS['c05-vcov'] = dict(property='C05', edits=[('R/glmmFit.R',
'''  covmat <- object$Sigma
  rownames(covmat) <- par_names
  colnames(covmat) <- par_names
  covmat
''', '''  covmat <- object$Sigma
  p_theta <- length(object$modfr$reTrms$theta)
  rownames(covmat) <- par_names
  colnames(covmat) <- par_names
  p_beta <- length(par_names) - p_theta
  # fixed effects first, as for other models
  if(p_beta > 1 && p_theta > 1) {
    order_pars <- c(p_beta + seq_len(p_theta), seq_len(p_beta))
    covmat <- covmat[order_pars, order_pars]
  }
  covmat
''')],
 needs='a model with more than one fixed effect and more than one variance parameter', breaks='the order of the parameters in vcov differs from that in coef',
 demo=PRE + CROSS + '''
modfr <- find_modfr_glmm(y ~ x + (1 | g) + (1 | h) + (1 | k), data = dat, family = binomial)
S <- crossprod(matrix(rnorm(25), 5)) + diag(5)
f <- glmmsr:::glmmFit(list(estim = 1:5 / 10, Sigma = S, modfr = modfr, method = "Laplace", control = list(order = 1)))
if(!identical(rownames(vcov(f)), names(coef(f)))) fail("names", rownames(vcov(f)))
if(!near(vcov(f), S)) fail("values")
''')
SEEDS['c06-islink'] = dict(property='C06', edits=[('R/IS.R',
'''  family <- modfr$family
''', '''  family <- modfr$family
  # the inverse links of R protect against overflow at the price of speed
  if(family$family == "binomial")
    family$linkinv <- plogis
''')],
 needs='importance sampling for a binomial model with another link than the logit', breaks='importance sampling uses another link function than was asked for',
 demo=PRE + CROSS + '''
modfr <- find_modfr_glmm(y ~ x + (1 | g), data = dat, family = binomial(link = "probit"))
l <- find_lfun_glmm(modfr, method = "IS", control = list(nIS = 2000))
q <- find_lfun_glmm(modfr, method = "AGQ", control = list(nAGQ = 21))
p1 <- c(0.5, 0.3, -0.4); p2 <- c(0.5, 1.5, 0.8)
d <- (l(p1) - l(p2)) - (q(p1) - q(p2))
if(abs(d) > 0.3) fail("log-likelihoods differ by", d)
''')
SEEDS['c19-cross'] = dict(property='C19', edits=[('src/RcppR6.cpp',
'''int calibration_parameters__n_quadrature_points__get(glmmsr::RcppR6::RcppR6<Parameters> obj_) {
  return getParametersNQuadraturePoints(*obj_);''',
'''int calibration_parameters__n_quadrature_points__get(glmmsr::RcppR6::RcppR6<Parameters> obj_) {
  return getParametersNSparseLevels(*obj_);''')],
 needs='reading the number of quadrature points of parameters with another number of sparse levels', breaks='a field of the R object reads another field',
 demo=PRE + '''
p <- glmmsr:::calibration_parameters()
p$n_sparse_levels <- 3
p$n_quadrature_points <- 15
if(p$n_quadrature_points != 15 || p$n_sparse_levels != 3) fail(p$n_quadrature_points, p$n_sparse_levels)
''')
SEEDS['c20-missing'] = dict(property='C20', edits=[('src/itemsHelper.cpp',
'''    relativeItems.push_back(findRelativeItem(*i, items));
''', '''    relativeItems.push_back(std::lower_bound(items.begin(), items.end(), *i) - items.begin());
''')],
 needs='a term with an item that the other term does not contain, or items out of order', breaks='an item that is missing is not refused',
 cpp=HEAD + '''
#include "itemsHelper.h"
int main() {
  std::vector<int> items = {1, 4, 6}, missing = {4, 5};
  try { findRelativeItems(missing, items); } catch(const std::domain_error&) { return 0; }
  std::printf("not refused\\n");
  return 1;
}
''')
SEEDS['c23-calibrated'] = dict(property='C23', edits=[('src/ClusterGraph.cpp',
'''    populateBelief(cluster, multiply, beliefs);
  
  
  isCalibrated_ = false;
}
''', '''    populateBelief(cluster, multiply, beliefs);
}
''')],
 needs='a cluster graph made in memory that was used for something else before', breaks='whether the graph is calibrated is read without having been set',
 cpp=HEAD + '''
#include <cstring>
#include <new>
#include "ClusterGraph.h"
#include "MixedContinuousBelief.h"
int main() {
  std::vector<MixedContinuousBelief> beliefs;
  alignas(64) static unsigned char store[sizeof(ClusterGraph)];
  for(int k = 0; k < 3; ++k) {
    std::memset(store, k, sizeof(store));
    beliefs.clear();
    beliefs.push_back(MixedContinuousBelief(std::vector<int>{0, 1}));
    beliefs.push_back(MixedContinuousBelief(std::vector<int>{1, 2}));
    ClusterGraph* g = new(store) ClusterGraph(beliefs);
    bool calibrated = g->isCalibrated();
    g->~ClusterGraph();
    if(calibrated) { std::printf("%d\\n", k); return 1; }
  }
  return 0;
}
''')
