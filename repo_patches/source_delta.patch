From b82c04b8440417bdc0fbb5a9b2885aa339042be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 01/24] fix: centre the quadrature on the conditional mean of
 the normal approximation

The conditional mean of X1 given X2 = x is mu1 + S12 S22^-1 (x - mu2);
the sign was reversed, so the nodes were moved away from the integrand.
---
 src/IntegratedFunction.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/IntegratedFunction.cpp b/src/IntegratedFunction.cpp
index 409ff99..8e8af1e 100644
--- a/src/IntegratedFunction.cpp
+++ b/src/IntegratedFunction.cpp
@@ -95,7 +95,7 @@ double IntegratedFunction::findConditionalMean(const Vector& x) const
 {
   double mu = mean1_;
   if(x.size() > 0)
-    mu -= cross_.dot(x - mean2_);
+    mu += cross_.dot(x - mean2_);
   
   return mu;
 }
@@ -131,7 +131,7 @@ Vector IntegratedFunction::integrateDerivativeNoLog
     Vector derivative =  derivativeFunction_(xExt) * value;
     Vector derivativeRem = getVectorWithout(integrateOver_,
 					    derivative);
-    Vector correction = -cross_ * derivative(integrateOver_);
+    Vector correction = cross_ * derivative(integrateOver_);
     Eigen::ArrayXd ret = (derivativeRem + correction).array();
     return ret;
   };
@@ -163,8 +163,8 @@ Matrix IntegratedFunction::integrateSecondDerivativeNoLog
     double secondDerivative11 = secondDerivative(integrateOver_,
 						 integrateOver_);
     Matrix ret = secondDerivative22;
-    ret -= cross_ * secondDerivative12.transpose();
-    ret -= secondDerivative12 * cross_.transpose();
+    ret += cross_ * secondDerivative12.transpose();
+    ret += secondDerivative12 * cross_.transpose();
     ret += cross_ * cross_.transpose() * secondDerivative11;
     Eigen::ArrayXXd retArray = ret.array();
     return retArray;
-- 
2.43.0


From 8efbc009a1d9a3c0f7f840261c3eb6aaf82c5879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 02/24] fix: logit mean and its derivatives were NaN for large
 linear predictors

---
 src/LogitLink.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/LogitLink.cpp b/src/LogitLink.cpp
index a82d8c5..e9892dd 100644
--- a/src/LogitLink.cpp
+++ b/src/LogitLink.cpp
@@ -6,35 +6,39 @@ LogitLink::LogitLink()
 
 Eigen::ArrayXd LogitLink::computeMean(const Eigen::ArrayXd& linearPredictor) const
 {
-  return exp(linearPredictor) / (1 + exp(linearPredictor)); 
+  // written so that exp(linearPredictor) overflowing doesn't give NaN
+  return 1 / (1 + exp(-linearPredictor));
 }
 
+// The derivatives are in terms of p, the mean, and q = 1 - p,
+// each computed without cancellation or overflow.
+
 Eigen::ArrayXd LogitLink::computeMeanDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
-  return exp(linearPredictor) / pow(1. + exp(linearPredictor), 2);
+  Eigen::ArrayXd p = computeMean(linearPredictor);
+  Eigen::ArrayXd q = computeMean(-linearPredictor);
+  return p * q;
 }
 
 Eigen::ArrayXd LogitLink::computeMeanSecondDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
-  return exp(linearPredictor) * (1 - exp(linearPredictor)) / pow(1. + exp(linearPredictor), 3);
+  Eigen::ArrayXd p = computeMean(linearPredictor);
+  Eigen::ArrayXd q = computeMean(-linearPredictor);
+  return p * q * (q - p);
 }
 
 Eigen::ArrayXd LogitLink::computeMeanThirdDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
- 
-  auto numerator = exp(linearPredictor) *
-    (-4 * exp(linearPredictor) + exp(2 * linearPredictor) + 1.);
-  auto denominator = pow(1. + exp(linearPredictor), 4);
-  return numerator / denominator;
+  Eigen::ArrayXd p = computeMean(linearPredictor);
+  Eigen::ArrayXd q = computeMean(-linearPredictor);
+  return p * q * (1 - 6 * p * q);
 }
 
 Eigen::ArrayXd LogitLink::computeMeanFourthDerivative(const Eigen::ArrayXd& linearPredictor) const
 {
-  auto numerator = - exp(linearPredictor) *
-    (11 * exp(linearPredictor) - 11 * exp(2*linearPredictor)
-     + exp(3 * linearPredictor) - 1.);
-  auto denominator = pow(1. + exp(linearPredictor), 5);
-  return numerator / denominator;
+  Eigen::ArrayXd p = computeMean(linearPredictor);
+  Eigen::ArrayXd q = computeMean(-linearPredictor);
+  return p * q * (q - p) * (1 - 12 * p * q);
 }
 
 std::string LogitLink::getName() const
-- 
2.43.0


From 998a1fba0ed8e6b73067fb7fc28c142e43ffbbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 03/24] fix: GLMMBelief read past the end of its initial theta

theta_ had one entry for each item, but Lind_ may refer to more parameters
than that, as with correlated random effects (3 parameters, 2 items).
---
 src/GLMMBelief.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GLMMBelief.cpp b/src/GLMMBelief.cpp
index a790f0e..d21a292 100644
--- a/src/GLMMBelief.cpp
+++ b/src/GLMMBelief.cpp
@@ -70,7 +70,8 @@ void GLMMBelief::setBeta(const Eigen::VectorXd& beta)
 
 void GLMMBelief::initializeParameterDependents()
 {
-  theta_ = Eigen::VectorXd::Zero(numItems_);
+  // as many parameters as Lind_ refers to, which may be more than numItems_
+  theta_ = Eigen::VectorXd::Zero(Lind_.size() > 0 ? Lind_.maxCoeff() + 1 : 0);
   beta_ = Eigen::VectorXd::Zero(numFixed_);
   setLambdatThetaZt(theta_);
   XBeta_ = X_ * beta_;
-- 
2.43.0


From 2e3e70b1536dc0e9ea763814cd417739e77fc172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 04/24] fix: findRelativeItem constructed an exception without
 throwing it

---
 src/itemsHelper.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/itemsHelper.cpp b/src/itemsHelper.cpp
index 3362b54..9ecba03 100644
--- a/src/itemsHelper.cpp
+++ b/src/itemsHelper.cpp
@@ -8,8 +8,7 @@ int findRelativeItem(int item, const std::vector<int>& items)
   if(relativeItem != items.end())
     return relativeItem - items.begin();
   else
-     std::domain_error("item not contained in items");
-  return 0;
+    throw std::domain_error("item not contained in items");
 }
 
 std::vector<int> findRelativeItems(const std::vector<int>& subset,
-- 
2.43.0


From 97d9fb7ead901b8a73fe3b695d448f279261d2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 05/24] fix: importance sampling proposal did not have the
 precision of the normal approximation

With precision = R'R, mean + R^{-1} z has that precision; t(R^{-1}) z does not.
---
 R/IS.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/IS.R b/R/IS.R
index 0fe8158..51bd91f 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -61,7 +61,7 @@ find_log_integrand<- function(pars, modfr)
 
 transform_normal <- function(z, normal_approx) {
   C <- solve(chol(normal_approx$precision))
-  normal_approx$mean + crossprod(C, z)
+  normal_approx$mean + C %*% z
 }
 
 find_log_weights <- function(z, log_integrand, normal_approx) {
-- 
2.43.0


From 8c2b76a49a0acd75bdbf7689cd42dc2839ee66e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 06/24] fix: glmm() ignored lme4_control when constructing the
 model frame

---
 R/fit.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/fit.R b/R/fit.R
index 6377e90..c09e533 100644
--- a/R/fit.R
+++ b/R/fit.R
@@ -51,7 +51,8 @@ glmm <- function(formula, subformula = NULL, data = NULL, family = gaussian,
   con <- find_control_with_defaults(control, method)
 
   modfr <- find_modfr_glmm(formula, subformula = subformula, data = data,
-                           family = family, weights = weights, offset = offset)
+                           family = family, weights = weights, offset = offset,
+                           lme4_control = lme4_control)
 
   if(has_reTrms(modfr)) {
     devfun_laplace_1 <- find_devfun_laplace_1(modfr, lme4_control)
-- 
2.43.0


From 564058b3a250febc83ac069711820cf71e4494a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 07/24] fix: models without fixed effects had spurious
 fixed-effect estimates

(p_theta+1):p counts down when p_beta = 0: coef, print and summary showed
entries that do not exist, and vcov and the importance sampling and
second-order Laplace log-likelihoods failed.
---
 R/IS.R      | 2 +-
 R/glmmFit.R | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/R/IS.R b/R/IS.R
index 51bd91f..0a67334 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -1,7 +1,7 @@
 find_XBeta <- function(pars, modfr) {
   n_fixed <- ncol(modfr$X)
   n_random <- length(modfr$reTrms$theta)
-  beta <- pars[(n_random + 1) : (n_random + n_fixed)]
+  beta <- pars[n_random + seq_len(n_fixed)]
   XBeta <- as.numeric(modfr$X %*% beta)
 }
 
diff --git a/R/glmmFit.R b/R/glmmFit.R
index e35c4e3..f82ba3a 100644
--- a/R/glmmFit.R
+++ b/R/glmmFit.R
@@ -71,7 +71,7 @@ print.glmmFit <- function(x, ...){
   p_beta <- ncol(x$modfr$X)
   p_theta <- length(x$modfr$reTrms$theta)
   p <- p_beta + p_theta
-  estim_fixed <- x$estim[(p_theta+1):p]
+  estim_fixed <- x$estim[p_theta + seq_len(p_beta)]
   names(estim_fixed) <- names_beta
   estim_random <- x$estim[1:p_theta]
   estim_random_df <- data.frame("Groups" = group_names,
@@ -152,7 +152,7 @@ print.summaryGlmmFit <- function(x, ...){
   cat("\n")
   cat("\n")
   cat("Fixed effects: \n")
-  which_fixed <- (p_theta+1):p
+  which_fixed <- p_theta + seq_len(p_beta)
   estim_fixed <- fit$estim[which_fixed]
   se_fixed <- x$se[which_fixed]
   z_fixed <- x$z[which_fixed]
@@ -179,7 +179,7 @@ coef_fixed.glmmFit <- function(x) {
   p <- p_beta + p_theta
 
   names_beta <- attr(x$modfr$X,"dimnames")[[2]]
-  which_fixed <- (p_theta+1):p
+  which_fixed <- p_theta + seq_len(p_beta)
   estim_fixed <- x$estim[which_fixed]
   names(estim_fixed) <- names_beta
 
-- 
2.43.0


From 8e59417efc5d7c4191564607484dd96170b4e09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 08/24] fix: offset was ignored by SR, IS and the second-order
 Laplace approximation

---
 NAMESPACE         | 1 +
 R/IS.R            | 4 ++++
 R/glmmsr.R        | 2 +-
 R/loglikelihood.R | 6 +++++-
 R/splitframe.R    | 5 +++++
 5 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/NAMESPACE b/NAMESPACE
index fd5b29c..354f281 100644
--- a/NAMESPACE
+++ b/NAMESPACE
@@ -21,6 +21,7 @@ importFrom(stats,gaussian)
 importFrom(stats,glm)
 importFrom(stats,lm)
 importFrom(stats,model.matrix)
+importFrom(stats,model.offset)
 importFrom(stats,model.response)
 importFrom(stats,model.weights)
 importFrom(stats,na.fail)
diff --git a/R/IS.R b/R/IS.R
index 0a67334..3e51321 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -3,6 +3,10 @@ find_XBeta <- function(pars, modfr) {
   n_random <- length(modfr$reTrms$theta)
   beta <- pars[n_random + seq_len(n_fixed)]
   XBeta <- as.numeric(modfr$X %*% beta)
+  offset <- model.offset(modfr$fr)
+  if(length(offset) > 0)
+    XBeta <- XBeta + offset
+  XBeta
 }
 
 find_LambdatThetaZt <- function(pars, modfr) {
diff --git a/R/glmmsr.R b/R/glmmsr.R
index c3b2dd4..e256857 100644
--- a/R/glmmsr.R
+++ b/R/glmmsr.R
@@ -26,7 +26,7 @@
 #' @importFrom Rcpp sourceCpp
 #' @importFrom methods as
 #' @importFrom stats dnorm drop.terms family formula gaussian glm lm model.matrix
-#'  model.response model.weights na.fail offset optim pnorm rnorm terms update.formula
+#'  model.offset model.response model.weights na.fail offset optim pnorm rnorm terms update.formula
 NULL
 
 #' A dataset simulated from a two-level model
diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index 8c6c721..f33d08f 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -40,6 +40,7 @@ find_lfun_SR <- function(modfr, devfun_lme4, nSL, nAGQ) {
 
   n_fixed <- ncol(modfr$X)
   n_random <- length(modfr$reTrms$theta)
+  has_offset <- length(model.offset(modfr$fr)) > 0
 
   factorization_terms <- find_factorization_terms(modfr)
   calibration_pars <- calibration_parameters()
@@ -64,7 +65,10 @@ find_lfun_SR <- function(modfr, devfun_lme4, nSL, nAGQ) {
            call. = FALSE)
     }
     calibration_pars$theta <- pars[1:n_random]
-    calibration_pars$beta <- pars[-(1:n_random)]
+    beta <- pars[-(1:n_random)]
+    if(has_offset)
+      beta <- c(beta, 1)
+    calibration_pars$beta <- beta
     normal_approx <- compute_normal_approx(pars, devfun_lme4)
     l_SR <- beliefs$compute_log_normalizing_constant(normal_approx$mean,
                                                      normal_approx$precision,
diff --git a/R/splitframe.R b/R/splitframe.R
index 2d5e74b..fbbdd34 100644
--- a/R/splitframe.R
+++ b/R/splitframe.R
@@ -31,6 +31,11 @@ find_local_term <- function(clique_ext, modfr) {
   C <- clique_ext$C
   obs_C <- clique_ext$obs_C
   X_C <- unname(modfr$X[obs_C, , drop = FALSE])
+  offset <- model.offset(modfr$fr)
+  if(length(offset) > 0) {
+    # an extra column, whose coefficient is always 1
+    X_C <- cbind(X_C, offset[obs_C], deparse.level = 0)
+  }
   Zt_C <- unname(as.matrix(modfr$reTrms$Zt[C, obs_C, drop = FALSE]))
   Lambdat_C <- modfr$reTrms$Lambdat[C, C, drop = FALSE]
   Lind_mat <- modfr$reTrms$Lambdat
-- 
2.43.0


From f8201fc8b469308ad2c2308a7bba66ea66ea444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 09/24] fix: SR, IS and second-order Laplace mishandled
 two-column and factor responses

The (successes, failures) matrix was used as if it were a vector of
proportions, and IS used a factor as it is.
---
 R/IS.R         | 25 +++++++++++++++++++++----
 R/hol.R        |  7 +++----
 R/splitframe.R | 22 +++-------------------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/R/IS.R b/R/IS.R
index 3e51321..8696baa 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -39,13 +39,30 @@ find_eta <- function(u, XBeta, LambdatThetaZt) {
 }
 
 
+# the response, as a vector of numbers, and the weights for each observation.
+# For binomial data, the response is the proportion of successes,
+# as in the initialize expression of the binomial family
+find_response_weights <- function(modfr) {
+  response <- model.response(modfr$fr)
+  weights <- model.weights(modfr$fr)
+  if(length(weights) == 0)
+    weights <- rep(1, NROW(response))
+  if(is.factor(response))
+    response <- (response != levels(response)[1L])
+  if(NCOL(response) == 2) {
+    trials <- response[, 1] + response[, 2]
+    response <- ifelse(trials == 0, 0, response[, 1] / trials)
+    weights <- weights * trials
+  }
+  list(response = as.numeric(response), weights = as.numeric(weights))
+}
+
 find_log_integrand<- function(pars, modfr)
 {
   family <- modfr$family
-  y <- model.response(modfr$fr)
-  weights <- model.weights(modfr$fr)
-  if(length(weights) == 0)
-    weights <- rep(1, length(y))
+  resp_weights <- find_response_weights(modfr)
+  y <- resp_weights$response
+  weights <- resp_weights$weights
 
   XBeta <- find_XBeta(pars, modfr)
   LambdatThetaZt <- find_LambdatThetaZt(pars, modfr)
diff --git a/R/hol.R b/R/hol.R
index 6ae7d7e..fd31a3a 100644
--- a/R/hol.R
+++ b/R/hol.R
@@ -14,10 +14,9 @@ find_epsilon_1 <- function(pars, modfr, devfun_laplace_1) {
   LambdatThetaZt <- find_LambdatThetaZt(pars, modfr)
   eta_hat <- find_eta(u_hat, XBeta, LambdatThetaZt)
 
-  response <- model.response(modfr$fr)
-  weights <- model.weights(modfr$fr)
-  if(length(weights) == 0)
-    weights <- rep(1, length(response))
+  resp_weights <- find_response_weights(modfr)
+  response <- resp_weights$response
+  weights <- resp_weights$weights
 
   gamma_3 <- -modfr_family$evaluate_d3(eta_hat, response, weights)
   gamma_4 <- -modfr_family$evaluate_d4(eta_hat, response, weights)
diff --git a/R/splitframe.R b/R/splitframe.R
index fbbdd34..d80c52f 100644
--- a/R/splitframe.R
+++ b/R/splitframe.R
@@ -41,25 +41,9 @@ find_local_term <- function(clique_ext, modfr) {
   Lind_mat <- modfr$reTrms$Lambdat
   Lind_mat@x <- as.numeric(modfr$reTrms$Lind)
   Lind_C <- as.integer(Lind_mat[C, C, drop = FALSE]@x) - 1
-  resp <- model.response(modfr$fr)
-  if(is.factor(resp)) {
-    resp <- (resp != levels(resp)[1L])
-  }
-  weights <- model.weights(modfr$fr)
-  if(is.null(weights)) {
-    weights_C <- rep(1, length(obs_C))
-  } else {
-    weights_C <- weights[obs_C]
-  }
-  if(NCOL(resp) == 1) {
-    resp_C <- resp[obs_C]
-    resp_C <- matrix(unname(resp_C), ncol = 1)
-  } else {
-    #####################
-    # FIXME: should convert to vector form
-    resp_C <- resp[obs_C, , drop = FALSE]
-    #####################
-  }
+  resp_weights <- find_response_weights(modfr)
+  weights_C <- resp_weights$weights[obs_C]
+  resp_C <- matrix(resp_weights$response[obs_C], ncol = 1)
   list(C = C, X = X_C, Zt = Zt_C, Lambdat = Lambdat_C,
        Lind = Lind_C, resp = resp_C, weights = weights_C)
 }
-- 
2.43.0


From f8dd06e457ec19f175700f7333545c32ed83d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 10/24] fix: concatenated model frames lost lower, Gp and flist
 of the second frame

---
 R/model_frames.R | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index 6563440..28b9f87 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -197,11 +197,14 @@ concatenate_frames <- function(modfr1, modfr2) {
       out$reTrms$Zt <- rbind(reTrms1$Zt, reTrms2$Zt)
       out$reTrms$theta <- c(reTrms1$theta, reTrms2$theta)
       out$reTrms$Lind <- c(reTrms1$Lind, reTrms2$Lind + length(reTrms1$theta))
-      out$reTrms$Gp <- c(0L, reTrms1$Gp[2] + reTrms2$Gp[2])
-      out$reTrms$lower <- c(reTrms1$lower, reTrms2$upper)
+      out$reTrms$Gp <- c(reTrms1$Gp, reTrms1$Gp[length(reTrms1$Gp)] + reTrms2$Gp[-1])
+      out$reTrms$lower <- c(reTrms1$lower, reTrms2$lower)
       out$reTrms$Lambdat <- concatenate_Matrix(reTrms1$Lambdat, reTrms2$Lambdat)
       # need "assign" attribute to print out groups correctly
-      attr(out$reTrms$flist, "assign") <- TRUE
+      out$reTrms$flist <- c(as.list(reTrms1$flist), as.list(reTrms2$flist))
+      attr(out$reTrms$flist, "assign") <-
+        c(attr(reTrms1$flist, "assign"),
+          length(reTrms1$flist) + attr(reTrms2$flist, "assign"))
       out$reTrms$cnms <- c(reTrms1$cnms, reTrms2$cnms)
       out$reTrms$Ztlist <- c(reTrms1$Ztlist, reTrms2$Ztlist)
     }
-- 
2.43.0


From 7233aeb14e55d70bc3efda758abcbf258ff3c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 11/24] fix: Sub() terms with no or several substituted
 variables were not rejected

---
 R/subformula.R | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/R/subformula.R b/R/subformula.R
index 623912b..ff457d3 100644
--- a/R/subformula.R
+++ b/R/subformula.R
@@ -105,11 +105,11 @@ match_subform_subexpr <- function(subforms, subexprs, data) {
   which_subvars <- lapply(subexprs, find_vars, vars = subvars)
   # check how many subvars involved in each subexpr
   n_subvars <- vapply(which_subvars, length, 1L)
-  if(any(n_subvars) > 1L) {
+  if(any(n_subvars > 1L)) {
     stop("Each Sub(.) should only involve a single substituted variable",
-      .call = FALSE)
-  } else if (any(n_subvars) == 0L) {
-    stop("Each Sub(.) should involve a substituted variable", .call = FALSE)
+      call. = FALSE)
+  } else if (any(n_subvars == 0L)) {
+    stop("Each Sub(.) should involve a substituted variable", call. = FALSE)
   }
   lapply(subforms, add_subexpr, subexprs = subexprs, which_subvars = which_subvars)
 }
-- 
2.43.0


From 583b994c55a1585357a56ad64750cf050b9153dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 12/24] fix: Sub() terms could not contain numeric constants

---
 R/modify_subexpr.R | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/modify_subexpr.R b/R/modify_subexpr.R
index 8537842..e699155 100644
--- a/R/modify_subexpr.R
+++ b/R/modify_subexpr.R
@@ -1,6 +1,6 @@
 find_sub_status <- function(x, subvar) {
-  if(is.logical(x)) {
-    x
+  if(is.atomic(x)) {
+    FALSE
   }
   else if(is.name(x)) {
     identical(as.character(x), subvar)
-- 
2.43.0


From 402a0a4b2504c5291b5b993427d15abb2b97fd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 13/24] fix: model frame arithmetic on random effects did not
 match that on fixed effects

Multiplying by a vector scaled the rows of Zt, which are not the
observations, and subsetting or adding reduced Ztlist to vectors.
---
 R/model_frames.R | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index 28b9f87..845f165 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -104,7 +104,7 @@ is_modfr <- function(x) {
   if(has_reTrms(modfr)) {
     reTrms <- modfr$reTrms
     out$reTrms$Zt <- reTrms$Zt[, i, drop = FALSE]
-    out$reTrms$Ztlist <- lapply(reTrms$Ztlist, "[", j = i, drop = FALSE)
+    out$reTrms$Ztlist <- lapply(reTrms$Ztlist, function(Zt) { Zt[, i, drop = FALSE] })
     out$reTrms$flist <- lapply(reTrms$flist, "[", j = i, drop = FALSE)
   }
   return(out)
@@ -123,8 +123,10 @@ is_modfr <- function(x) {
   out <- modfr
   out$X <- modfr$X * a
   if(has_reTrms(modfr)) {
-    out$reTrms$Zt <- modfr$reTrms$Zt * a
-    out$reTrms$Ztlist <- lapply(modfr$reTrms$Ztlist, `*`, e2 = a)
+    # observations are in the rows of X, but the columns of Zt
+    scale_columns <- function(Zt) { Matrix::t(Matrix::t(Zt) * a) }
+    out$reTrms$Zt <- scale_columns(modfr$reTrms$Zt)
+    out$reTrms$Ztlist <- lapply(modfr$reTrms$Ztlist, scale_columns)
   }
   return(out)
 }
@@ -160,7 +162,8 @@ is_modfr <- function(x) {
            call. = FALSE)
     }
     out$reTrms$Zt <- modfr1$reTrms$Zt + modfr2$reTrms$Zt
-    out$reTrms$Ztlist <- mapply("+", modfr1$reTrms$Ztlist, modfr2$reTrms$Ztlist)
+    out$reTrms$Ztlist <- mapply("+", modfr1$reTrms$Ztlist, modfr2$reTrms$Ztlist,
+                                 SIMPLIFY = FALSE)
     # what about flist?
   }
   return(out)
-- 
2.43.0


From 0be8181ef1424f774d34f54e511dbbcb9ed1d5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 14/24] fix: check_Laplace is documented as on by default, but
 it is off

---
 R/fit.R     | 2 +-
 man/glmm.Rd | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/R/fit.R b/R/fit.R
index c09e533..5234ad9 100644
--- a/R/fit.R
+++ b/R/fit.R
@@ -33,7 +33,7 @@
 #'   only used if \code{method = "Laplace"}. Defaults to 1.}
 #'   \item{\code{check_Laplace}}{should quality of first-order Laplace
 #'   approximation be checked? Only used  if \code{method = "Laplace"}
-#'   and \code{order = 1}. Defaults to TRUE.}
+#'   and \code{order = 1}. Defaults to FALSE.}
 #'   \item{\code{divergence_threshold}}{if \code{check_Laplace = TRUE},
 #'   warn about quality of inference using the first-order Laplace
 #'   approximation if measure of divergence from inference with
diff --git a/man/glmm.Rd b/man/glmm.Rd
index f2dd9f0..991f59d 100644
--- a/man/glmm.Rd
+++ b/man/glmm.Rd
@@ -76,7 +76,7 @@ The \code{control} argument is a list, used to specify further
   only used if \code{method = "Laplace"}. Defaults to 1.}
   \item{\code{check_Laplace}}{should quality of first-order Laplace
   approximation be checked? Only used  if \code{method = "Laplace"}
-  and \code{order = 1}. Defaults to TRUE.}
+  and \code{order = 1}. Defaults to FALSE.}
   \item{\code{divergence_threshold}}{if \code{check_Laplace = TRUE},
   warn about quality of inference using the first-order Laplace
   approximation if measure of divergence from inference with
-- 
2.43.0


From e89a9f223e36e9d56b9e5f2b76b2b574c7a9c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 15/24] fix: evaluating a log-likelihood overwrote the user's
 offset and the model frame

lme4 writes the current linear predictor into the offset vector it was given,
and theta and Lambdat likewise, so that the next log-likelihood found from
the same model frame used the wrong offset.
---
 R/loglikelihood.R | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/R/loglikelihood.R b/R/loglikelihood.R
index f33d08f..3311046 100644
--- a/R/loglikelihood.R
+++ b/R/loglikelihood.R
@@ -11,8 +11,16 @@ find_lfun_glmm <- function(modfr, method, control = NULL,
 }
 
 find_devfun_laplace_1 <- function(modfr, lme4_control) {
-  devfun_lme4 <- lme4::mkGlmerDevfun(fr = modfr$fr, X = modfr$X,
-                                     reTrms = modfr$reTrms, family = modfr$family,
+  # lme4 modifies these in place, so give it copies of its own
+  fr <- modfr$fr
+  if(length(fr[["(offset)"]]) > 0)
+    fr[["(offset)"]] <- fr[["(offset)"]] + 0
+  reTrms <- modfr$reTrms
+  reTrms$theta <- reTrms$theta + 0
+  reTrms$Lambdat@x <- reTrms$Lambdat@x + 0
+
+  devfun_lme4 <- lme4::mkGlmerDevfun(fr = fr, X = modfr$X,
+                                     reTrms = reTrms, family = modfr$family,
                                      control = lme4_control)
   lme4::updateGlmerDevfun(devfun_lme4, modfr$reTrms, nAGQ = 1)
 }
-- 
2.43.0


From 2657947073354be84435c284aa3a789400e6d6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 16/24] fix: with no sparse levels, knots were NaN converted to
 int

---
 src/BasisLevel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BasisLevel.cpp b/src/BasisLevel.cpp
index b566bde..321a840 100644
--- a/src/BasisLevel.cpp
+++ b/src/BasisLevel.cpp
@@ -76,7 +76,8 @@ void BasisLevel::initializeBandwidth(int levelMax)
      boost::math::normal standardNormal(0.0, 1.0);
      bandwidth_ = (scale_ * quantile(standardNormal, prob)) / 10;
   } else {
-    bandwidth_ = 0;
+    // there is only one knot, at 0: avoid dividing it by 0
+    bandwidth_ = 1;
   }
 }
 
-- 
2.43.0


From c7a8f9cc9efd69683070857bc8242e2b2e1ed8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 17/24] fix: importance sampling log-likelihood overflowed to
 Inf when weights vary widely

---
 R/IS.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/IS.R b/R/IS.R
index 8696baa..e9442cb 100644
--- a/R/IS.R
+++ b/R/IS.R
@@ -101,7 +101,7 @@ find_lfun_IS <- function(modfr, devfun_laplace, nIS) {
     normal_approx <- compute_normal_approx(pars, devfun_laplace)
     log_integrand <- find_log_integrand(pars, modfr)
     log_weights <- find_log_weights(z_poss, log_integrand, normal_approx)
-    b <- mean(log_weights)
+    b <- max(log_weights)
     log(mean(exp(log_weights - b))) + b
   }
 
-- 
2.43.0


From ec74002a6a94aabc9a8895df4ff77b7e0fbb9979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:43 +0000
Subject: [PATCH 18/24] fix: weights of quadrature rules with many points had
 no relative accuracy in the tails

---
 src/QuadratureRule.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/QuadratureRule.cpp b/src/QuadratureRule.cpp
index 47b9ba6..50321ad 100644
--- a/src/QuadratureRule.cpp
+++ b/src/QuadratureRule.cpp
@@ -23,11 +23,23 @@ void QuadratureRule::initialize(int n)
 {
   static const double sqrtPi = 1.772453851;
   Eigen::MatrixXd hermiteJacobi = findHermiteJacobi(n);
-  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(hermiteJacobi);
+  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(hermiteJacobi, Eigen::EigenvaluesOnly);
   nodes_ = es.eigenvalues().array();
 
-  Eigen::ArrayXd firstRow = es.eigenvectors().row(0).array();
-  weights_ = sqrtPi * firstRow * firstRow;
+  // 1 / weight is the sum of squares of the first n orthonormal polynomials.
+  // The eigenvectors would give tail weights of no relative accuracy.
+  for(int i = 0; i < n; ++i) {
+    double previous = 0;
+    double current = 1 / sqrt(sqrtPi);
+    double sumOfSquares = current * current;
+    for(int k = 1; k < n; ++k) {
+      double next = (nodes_(i) * current - sqrt((k - 1) / 2.0) * previous) / sqrt(k / 2.0);
+      previous = current;
+      current = next;
+      sumOfSquares += current * current;
+    }
+    weights_(i) = 1 / sumOfSquares;
+  }
 }
 
 Eigen::MatrixXd QuadratureRule::findHermiteJacobi(int n)
-- 
2.43.0


From 014b7329b4e4dc497179431f0f62f817f89f8106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:43 +0000
Subject: [PATCH 19/24] fix: observations that depend on no random effect were
 left out of the active sets, which misaligned them with the data

---
 R/splitframe.R | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/R/splitframe.R b/R/splitframe.R
index d80c52f..dc5eb6f 100644
--- a/R/splitframe.R
+++ b/R/splitframe.R
@@ -4,7 +4,14 @@ find_active <- function(modfr) {
   Lambdat <- modfr$reTrms$Lambdat
   LambdatZt <- Lambdat %*% Zt
   LambdatZt <- as(LambdatZt, "dgTMatrix")
-  tapply(LambdatZt@i + 1, LambdatZt@j + 1, c, simplify = FALSE)
+  # keep the observations which don't depend on any of the items
+  obs <- factor(LambdatZt@j + 1, levels = seq_len(ncol(Zt)))
+  tapply(LambdatZt@i + 1, obs, c, simplify = FALSE)
+}
+
+# Find the distinct active sets, leaving out any empty set
+find_cliques <- function(act) {
+  unname(unique(act[vapply(act, length, 1L) > 0L]))
 }
 
 add_obs_C <- function(C, act, obs_rem) {
@@ -50,7 +57,7 @@ find_local_term <- function(clique_ext, modfr) {
 
 find_factorization_terms <- function(modfr) {
   act <- find_active(modfr)
-  cliques <- unname(unique(act))
+  cliques <- find_cliques(act)
   n_obs <- ncol(modfr$reTrms$Zt)
   n_re <- nrow(modfr$reTrms$Zt)
   cliques_ext <- add_obs(cliques, act, 1:n_obs)
@@ -93,7 +100,7 @@ save_factorization_to_file <- function(modfr, file = "") {
   unlink(file)
 
   act <- find_active(modfr)
-  cliques <- unname(unique(act))
+  cliques <- find_cliques(act)
   n_obs <- ncol(modfr$reTrms$Zt)
   n_re <- nrow(modfr$reTrms$Zt)
   cliques_ext <- add_obs(cliques, act, 1:n_obs)
-- 
2.43.0


From 3dcadf0c1d08ff90e779e0b8a8d21bef3418a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 20/24] fix: a missing covariate in a subformula without random
 effects silently shifted the others

---
 R/model_frames.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/model_frames.R b/R/model_frames.R
index 845f165..e3a74b4 100644
--- a/R/model_frames.R
+++ b/R/model_frames.R
@@ -80,7 +80,7 @@ parse_subformula <- function(formula, data, lme4_control) {
   } else {
 
     fr <- lm(formula, data = data_vars, family = family,
-             method = "model.frame")
+             na.action = na.fail, method = "model.frame")
     X <- model.matrix(formula, data = fr)
     modfr <- list(X = X)
   }
-- 
2.43.0


From 1f4be288289653a52a7271b489442a337d39a64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 21/24] fix: estimates made positive kept the covariances of
 the negative ones

---
 R/fit.R | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/R/fit.R b/R/fit.R
index 5234ad9..03e3442 100644
--- a/R/fit.R
+++ b/R/fit.R
@@ -70,6 +70,9 @@ glmm <- function(formula, subformula = NULL, data = NULL, family = gaussian,
                 call. = FALSE)
     }
     if(all(modfr$reTrms$lower == 0)) {
+      # changing the sign of an estimate changes the sign of its covariances
+      signs <- c(ifelse(opt$estim[1:p_theta] < 0, -1, 1), rep(1, p_beta))
+      opt$Sigma <- opt$Sigma * outer(signs, signs)
       opt$estim[1:p_theta] <- abs(opt$estim[1:p_theta])
       if(any(opt$estim[1:p_theta] > 4.9)) {
         opt$Sigma <- matrix(NA, nrow = length(opt$estim), ncol = length(opt$estim))
-- 
2.43.0


From 712bfad5d57b0a0d83780ae9b78693f56a8f975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 22/24] fix: formulas with Sub() and (1 | group) terms lost
 brackets, and those with just an offset lost it

---
 R/subformula.R |  9 +--------
 R/utility.R    | 24 +++++++++---------------
 2 files changed, 10 insertions(+), 23 deletions(-)

diff --git a/R/subformula.R b/R/subformula.R
index ff457d3..cfa1bb3 100644
--- a/R/subformula.R
+++ b/R/subformula.R
@@ -17,14 +17,7 @@ split_formula <- function(formula) {
     fac <- attr(tf, "factors")
     rhs_vars <- attr(fac, "dimnames")[[2]]
     var_sub_rhs <- sapply(var_sub, find_var_rhs, fac = fac)
-    if(length(rhs_vars) > length(var_sub_rhs)){
-      attr(tf, "intercept") <- 1
-      tf_no_sub <- drop.terms(tf, var_sub_rhs, keep.response = TRUE)
-      attr(tf_no_sub, "intercept") <- 0
-      form_no_sub <- fixFormulaObject(tf_no_sub)
-    } else{
-      form_no_sub <- update.formula(formula, . ~ 0)
-    }
+    form_no_sub <- fixFormulaObject(tf, var_sub_rhs)
     subexprs <- lapply(rhs_vars[var_sub_rhs], find_subexpr)
   }
   else{
diff --git a/R/utility.R b/R/utility.R
index f9c1748..408e5c2 100644
--- a/R/utility.R
+++ b/R/utility.R
@@ -39,11 +39,11 @@ subset_dim <- function(x, i, indices){
 }
 
 
-# copied from terms.formula
-# stop dropping of brackets around (1 | group) terms
-fixFormulaObject <- function(object) {
+# Drop some terms from a formula, and the intercept. Based on terms.formula,
+# but stop dropping of brackets around (1 | group) terms
+fixFormulaObject <- function(object, drop) {
   Terms <- terms(object)
-  tmp <- attr(Terms, "term.labels")
+  tmp <- attr(Terms, "term.labels")[-drop]
   ind <- grep("|", tmp, fixed = TRUE)
   if (length(ind))
     tmp[ind] <- paste("(", tmp[ind], ")")
@@ -51,17 +51,11 @@ fixFormulaObject <- function(object) {
     tmp2 <- as.character(attr(Terms, "variables"))[-1L]
     tmp <- c(tmp, tmp2[ind])
   }
-  rhs <- if (length(tmp))
-    paste(tmp, collapse = " + ")
-  else "1"
-  if (!attr(terms(object), "intercept"))
-    rhs <- paste(rhs, "- 1")
-  if (length(form <- formula(object)) > 2L) {
-    res <- formula(paste("lhs ~", rhs))
-    res[[2L]] <- form[[2L]]
-    res
-  }
-  else formula(paste("~", rhs))
+  rhs <- paste(c("0", tmp), collapse = " + ")
+  res <- formula(paste("lhs ~", rhs))
+  res[[2L]] <- formula(object)[[2L]]
+  environment(res) <- environment(object)
+  res
 }
 
 
-- 
2.43.0


From be03eda1a83becbee7384a5c53aa17850cb5bf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 23/24] fix: an indexing variable given in the data was not
 used

---
 R/indexing.R | 1 +
 1 file changed, 1 insertion(+)

diff --git a/R/indexing.R b/R/indexing.R
index a34cb99..dad407f 100644
--- a/R/indexing.R
+++ b/R/indexing.R
@@ -85,6 +85,7 @@ find_indices_subform <- function(sub, data) {
     if(exists(index, data)) {
       # coerce to factor with common levels
       levels_i <- get(index, data)
+      index_i <- factor(levels_i, levels = levels_i)
       indices_i <- lapply(indices_i, factor, levels = levels_i)
       # replace in data, so have factors with correct levels
       for(j in seq_along(indices_i)) {
-- 
2.43.0


From 8188d91252dbd2d72b1d4fcf52807addf4787283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 24/24] fix: numeric indices with gaps picked the wrong entries
 of multi-dimensional arrays

---
 R/indexing.R | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/R/indexing.R b/R/indexing.R
index dad407f..640e747 100644
--- a/R/indexing.R
+++ b/R/indexing.R
@@ -131,6 +131,11 @@ find_index_i <- function(index, i, index_i, subform, data) {
       return(index_i)
     }
   } else {
+    if(!all(is.element(index_i, seq_len(levels_i_max)))) {
+      stop(paste0("Numeric variables indexed by ", index,
+                  " should only take the values 1 to ", levels_i_max),
+           call. = FALSE)
+    }
     return(1:levels_i_max)
   }
 }
-- 
2.43.0

