from seeds_r import PRE, CROSS
SEEDS = {}
HEAD = '''
#include <cmath>
#include <cstdio>
#include <iostream>
#include <stdexcept>
#include <vector>
'''
SEEDS['c03-structzero'] = dict(property='C03', edits=[('src/GLMMBelief.cpp',
'''      i.valueRef() = theta(Lind_(index));
''',
'''      // structural zeros stay zero
      if(i.value() != 0)
	i.valueRef() = theta(Lind_(index));
''')],
 needs='correlated random effects, whose off-diagonal variance parameter has starting value 0, fitted with sequential reduction',
 breaks='the covariance parameter of correlated random effects is ignored',
 demo=PRE + '''
set.seed(3)
n <- 60
dat <- data.frame(y = rbinom(n, 1, 0.4), x = rnorm(n), g = factor(sample(7, n, TRUE)))
modfr <- find_modfr_glmm(y ~ x + (1 + x | g), data = dat, family = binomial)
l <- find_lfun_glmm(modfr, method = "SR", control = list(nSL = 2))
la <- find_lfun_glmm(modfr, method = "Laplace")
p1 <- c(0.8, 0.9, 0.5, 0.2, -0.3); p2 <- c(0.8, -0.9, 0.5, 0.2, -0.3)
d <- (l(p1) - l(p2)) - (la(p1) - la(p2))
if(abs(d) > 0.1 * abs(la(p1) - la(p2)) + 0.02) fail("covariance parameter ignored", l(p1), l(p2), la(p1), la(p2))
''')
SEEDS['c17-sigma'] = dict(property='C17', edits=[('src/IntegratedFunction.cpp',
'''     double varianceConditional = variance11 - 
       (variance21.transpose() * cross_)(0, 0);
''',
'''     double varianceConditional = variance11 - variance21(0) * cross_(0);
''')],
 needs='integrating out of a term in at least three random effects', breaks='the quadrature nodes are not scaled by the conditional standard deviation',
 cpp=HEAD + '''
#include "IntegratedFunction.h"
int main() {
  Eigen::VectorXd mean(3); mean << 0.3, -0.2, 0.5;
  Eigen::MatrixXd prec(3, 3); prec << 2, 0.5, 0.7, 0.5, 3, -0.4, 0.7, -0.4, 1.5;
  MultiNormal normal(mean, prec);
  auto f = [&](const Eigen::VectorXd& x) { return normal.evaluate(x); };
  auto g = [&](const Eigen::VectorXd& x) { return normal.evaluateDerivative(x); };
  auto h = [&](const Eigen::VectorXd& x) { return normal.evaluateSecondDerivative(x); };
  for(int k = 0; k < 3; ++k) {
    IntegratedFunction I(k, f, g, h, normal);
    Eigen::VectorXd x(2); x << 0.1, 0.9;
    double v = I.evaluate(x, QuadratureRule(1)), w = normal.integrate(k).evaluate(x);
    // exact for a normal density, whatever the number of points (constants to 9 digits)
    if(std::abs(v - w) > 1e-6) { std::printf("%d %g %g\\n", k, v, w); return 1; }
  }
  return 0;
}
''')
SEEDS['c18-bound'] = dict(property='C18', edits=[('src/SparseGrid.cpp',
'''  double maximumStoredValue;
''', '''  double maximumStoredValue = 0;
'''), ('src/SparseGrid.cpp',
'''    if((i ==0) || (value > maximumStoredValue))
''', '''    if(value > maximumStoredValue)
''')],
 needs='a stored function that is negative at every grid point', breaks='the interpolant is not bounded by the largest stored value',
 cpp=HEAD + '''
#include "SparseGrid.h"
int main() {
  Basis basis(3);
  for(int s = 1; s < 8; ++s) {
    auto f = [s](const Eigen::VectorXd& x) { return -5 - std::cos(s * x(0)) - 0.3 * x(1) * x(1); };
    SparseGrid grid(f, 2, basis);
    double top = -1e300;
    Point p(2);
    for(int i = 0; i < grid.size(); ++i) { top = std::max(top, f(p.getGridPoint(basis))); if(i < grid.size() - 1) p.advance(); }
    for(double a = -6; a < 6; a += 0.1) for(double b = -6; b < 6; b += 0.3) {
      Eigen::VectorXd x(2); x << a, b;
      if(grid.interpolate(x, basis) > top + 1e-9) { std::printf("%g %g\\n", grid.interpolate(x, basis), top); return 1; }
    }
  }
  return 0;
}
''')
SEEDS['c18-skipzero'] = dict(property='C18', edits=[('src/SparseGrid.cpp',
'''	ret += coefficients_[i] * point.computeBasisDerivative(x, basis);
''', '''	if(coefficients_[i] == 0)
	  continue;
	ret += coefficients_[i] * point.computeBasisDerivative(x, basis);
''')],
 needs='a sparse grid with a coefficient that is exactly zero', breaks='the derivative is not that of the interpolant',
 cpp=HEAD + '''
#include "SparseGrid.h"
int main() {
  Basis basis(3);
  auto f = [](const Eigen::VectorXd& x) { return x(0) > 0 ? -x(0) * x(0) : -2 * x(0) * x(0) - x(1) * x(1); };
  SparseGrid grid(f, 2, basis);
  double e = 1e-6;
  for(double a = -2.03; a < 2; a += 0.17) for(double b = -2.01; b < 2; b += 0.19) {
    Eigen::VectorXd x(2); x << a, b;
    Eigen::VectorXd g = grid.interpolateDerivative(x, basis);
    if(g.norm() == 0) continue;   // at the bound
    for(int i = 0; i < 2; ++i) {
      Eigen::VectorXd u = x, v = x; u(i) += e; v(i) -= e;
      double n = (grid.interpolate(u, basis) - grid.interpolate(v, basis)) / (2 * e);
      double n2 = (grid.interpolate(u, basis) - grid.interpolate(x, basis)) / e;
      if(std::abs(n - n2) < 1e-3 && std::abs(n - g(i)) > 1e-2) { std::printf("%g %g %d %g %g\\n", a, b, i, n, g(i)); return 1; }
    }
  }
  return 0;
}
''')
SEEDS['c01-proportion'] = dict(property='C01', edits=[('src/Binomial.cpp',
'''  return ( weights * ( response * log(mean) + (1 - response) * log(1 - mean) ) ).sum();
''', '''  // one logarithm for each observation
  return ( weights * log((response > 0.5).select(mean, 1 - mean)) ).sum();
''')],
 needs='a response that is a proportion strictly between 0 and 1', breaks='the log-density is that of the rounded response',
 demo=PRE + '''
f <- glmmsr:::extended_family("binomial", "logit")
v <- function(y, e) f$evaluate(e, y, 4)
if(!near(v(0.25, 0.3) - v(0.25, -0.4), 4 * (0.25 * (plogis(0.3, log = TRUE) - plogis(-0.4, log = TRUE)) + 0.75 * (plogis(-0.3, log = TRUE) - plogis(0.4, log = TRUE))))) fail("wrong log-density for a proportion")
''')
SEEDS['c19-grow'] = dict(property='C19', edits=[('src/accessParameters.cpp',
'''  Basis newBasis(nSparseLevels);
  parameters.sparseBasis = newBasis;
''', '''  // a basis of more levels than needed will do
  if(nSparseLevels > parameters.sparseBasis.getLevelMax() || nSparseLevels == 0) {
    Basis newBasis(nSparseLevels);
    parameters.sparseBasis = newBasis;
  }
''')],
 needs='setting a smaller number of sparse levels than before on the same object', breaks='the number of sparse levels is not the one set',
 demo=PRE + '''
p <- glmmsr:::calibration_parameters()
p$n_sparse_levels <- 4
p$n_sparse_levels <- 2
if(p$n_sparse_levels != 2) fail("levels not set", p$n_sparse_levels)
''')
SEEDS['c16-improper'] = dict(property='C16', edits=[('src/MixedContinuousBelief.cpp',
'''  if(!std::isnormal(evalNormalAtMean)) {
''', '''  if(std::isnan(evalNormalAtMean)) {
''')],
 needs='an intermediate normal approximation with singular precision', breaks='an improper intermediate result is accepted',
 cpp=HEAD + '''
#include "MixedContinuousBelief.h"
int main() {
  std::vector<int> items = {0, 1};
  MixedContinuousBelief b(items);
  Eigen::MatrixXd P(2, 2); P << 1, 1, 1, 1;
  b.setNormalApprox(Eigen::VectorXd::Zero(2), P);
  if(b.isProper(Parameters())) { std::printf("accepted\\n"); return 1; }
  return 0;
}
''')
SEEDS['c15-double'] = dict(property='C15', edits=[('R/splitframe.R',
'''    cliques_ext[[i]] <- add_obs_C(cliques[[i]], act, obs_rem)
''', '''    cliques_ext[[i]] <- add_obs_C(cliques[[i]], act, obs)
''')],
 needs='a block of observations whose random effects are a subset of those of another block', breaks='observations are counted twice in the factorisation',
 demo=PRE + '''
act <- list(c(1, 2), 1, c(1, 2), c(2, 3))
e <- glmmsr:::add_obs(list(c(1, 2), 1, c(2, 3)), act, 1:4)
all_obs <- sort(unlist(lapply(e, function(x) x$obs_C)))
if(!identical(as.integer(all_obs), 1:4)) fail("observations", all_obs)
''')
SEEDS['c21-allparams'] = dict(property='C21', edits=[('R/optimization.R',
'if(any(abs(param[1:p_theta]) > 5)) {', 'if(any(abs(param) > 5)) {')],
 needs='a fixed effect of absolute value more than 5', breaks='the search is confined to fixed effects of absolute value at most 5',
 demo=PRE + '''
lfun <- function(p) -(p[1] - 1)^2 - (p[2] - 8)^2 / 10
o <- suppressWarnings(glmmsr:::optimize_glmm(lfun, p_beta = 1, p_theta = 1, verbose = 0L))
if(!near(o$estim, c(1, 8), 1e-3)) fail("maximum not found", o$estim)
''')
SEEDS['c09-diag'] = dict(property='C09', edits=[('R/IS.R',
'''  log_det_prec <- determinant(as.matrix(normal_approx$precision), logarithm = TRUE)$modulus
''', '''  log_det_prec <- sum(log(Matrix::diag(normal_approx$precision)))
''')],
 needs='random effects that are dependent given the data (crossed or correlated)', breaks='the proposal density is wrong, and with it the likelihood',
 demo=PRE + CROSS + '''
modfr <- find_modfr_glmm(y ~ x + (1 | g) + (1 | h), data = dat, family = binomial)
dev <- glmmsr:::find_devfun_laplace_1(modfr, set_lme4_control())
na <- glmmsr:::compute_normal_approx(c(1, 1.2, 0, 0.3), dev)
z <- matrix(rnorm(3 * length(na$mean)), ncol = 3)
lw <- glmmsr:::find_log_weights(z, function(u) rep(0, ncol(u)), na)
P <- as.matrix(na$precision)
u <- as.matrix(na$mean + solve(chol(P)) %*% z) - na$mean
want <- apply(u, 2, function(v) -(-length(v) / 2 * log(2 * pi) + sum(log(diag(chol(P)))) - sum(v * (P %*% v)) / 2))
if(!near(lw, want)) fail("proposal density")
''')

SEEDS['c08-diag'] = dict(property='C08', edits=[('R/hol.R',
'KL <- 0.5 * sum(delta_1 * crossprod(Sigma_1, delta_1))', 'KL <- 0.5 * sum(delta_1^2 * diag(Sigma_1))')],
 needs='correlated estimates', breaks='the divergence ignores covariances of the estimates',
 demo=PRE + CROSS + '''
modfr <- find_modfr_glmm(y ~ x + (1 | g), data = dat, family = binomial)
dev <- glmmsr:::find_devfun_laplace_1(modfr, set_lme4_control())
S <- matrix(c(1, 0.6, 0.3, 0.6, 2, -0.5, 0.3, -0.5, 1.5), 3)
fit <- list(estim = c(0.9, 0.1, 0.2), Sigma = S)
d <- glmmsr:::find_delta_1(fit$estim, modfr, dev)
if(!near(glmmsr:::find_laplace_divergence(fit, modfr, dev), 0.5 * sum(d * (S %*% d)))) fail("divergence")
''')
SEEDS['c13-brackets'] = dict(property='C13', edits=[('R/subformula.R',
'parse(text = substr(subvar, 5, nchar(subvar) - 1))[[1]]', 'parse(text = sub(")", "", sub("Sub(", "", subvar, fixed = TRUE), fixed = TRUE))[[1]]')],
 needs='a Sub() term with brackets inside that is not closed by them', breaks='the expression of the term is misread',
 demo=PRE + '''
s <- glmmsr:::split_formula(y ~ 0 + Sub((ab[p1] - ab[p2]) * z))$subexprs[[1]]
if(!identical(s, quote((ab[p1] - ab[p2]) * z))) fail("misread", deparse(s))
''')
