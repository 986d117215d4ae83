"""mistakes hidden in rewritten code (R)"""
import bugs_r
from bugs_r import b, B, L, F
B.clear()
X = 'IS.R'
b('x-eta-rowsum', X, ("""  utLambdatThetaZt <- Matrix::crossprod(u, LambdatThetaZt)
  utLambdatThetaZt_num <- as.numeric(utLambdatThetaZt)
  if(is.matrix(u)) {
    r <- ncol(u)
  } else {
    r <- 1
  }
  
  if(length(XBeta) > 0)
    eta <- rep(XBeta, each = r) + utLambdatThetaZt_num
  else
    eta <- utLambdatThetaZt_num

  eta
""", """  u <- as.matrix(u)
  random_part <- Matrix::crossprod(LambdatThetaZt, u)
  as.numeric(random_part) + rep(XBeta, each = ncol(u))
"""))
b('x-integrand-sum', X, ("""    dev_resids <- matrix(dev_resids_num, nrow = ncol(u))
    - rowSums(dev_resids) / 2 + colSums(dnorm(u, log = TRUE))
""", """    dev_resids <- matrix(dev_resids_num, ncol = ncol(u))
    - colSums(dev_resids) / 2 + colSums(dnorm(u, log = TRUE))
"""))
b('x-integrand-apply', X, ("colSums(dnorm(u, log = TRUE))\n  }", "apply(u, 2, function(v) sum(v^2)) / -2\n  }"))
b('x-lmeanexp', X, ("""    b <- max(log_weights)
    log(mean(exp(log_weights - b))) + b
""", """    top <- order(log_weights, decreasing = TRUE)[1]
    b <- log_weights[top]
    b + log1p(sum(exp(log_weights[-top] - b)))
"""))
b('x-lmeanexp2', X, ("""    b <- max(log_weights)
    log(mean(exp(log_weights - b))) + b
""", """    b <- max(log_weights)
    w <- exp(log_weights - b)
    log(sum(w)) - log(length(w[w > 0])) + b
"""))
b('x-transform-chol', X, ("""  C <- solve(chol(normal_approx$precision))
  normal_approx$mean + C %*% z
""", """  R <- chol(normal_approx$precision)
  normal_approx$mean + backsolve(R, z, transpose = TRUE)
"""))
b('x-weights-resp', X, ("""    trials <- response[, 1] + response[, 2]
    response <- ifelse(trials == 0, 0, response[, 1] / trials)
    weights <- weights * trials
""", """    trials <- rowSums(response)
    keep <- trials > 0
    response <- response[keep, 1] / trials[keep]
    weights <- (weights * trials)[keep]
"""))
b('x-antithetic', X, ("  z_poss <- matrix(rnorm(n * nIS), nrow = n)\n", "  half <- matrix(rnorm(n * ceiling(nIS / 2)), nrow = n)\n  z_poss <- cbind(half, half)\n"))
b('x-theta-pos', X, ("  LambdatTheta@x[] <- theta[modfr$reTrms$Lind]\n", "  LambdatTheta@x[] <- pmax(theta, modfr$reTrms$lower)[modfr$reTrms$Lind]\n"))
b('x-logdet', X, ("  log_det_prec <- determinant(as.matrix(normal_approx$precision), logarithm = TRUE)$modulus\n", "  log_det_prec <- log(det(as.matrix(normal_approx$precision)))\n"))  # overflow
b('x-logdet-diag', X, ("  log_det_prec <- determinant(as.matrix(normal_approx$precision), logarithm = TRUE)$modulus\n", "  log_det_prec <- sum(log(diag(chol(as.matrix(normal_approx$precision)))))\n"))
H = 'hol.R'
b('x-eps-vec', H, ("  kappa_13_2 <- as.numeric(Matrix::crossprod(gamma_3_diag_M, Matrix::crossprod(M, gamma_3_diag_M)))\n", "  kappa_13_2 <- sum(outer(gamma_3_diag_M, gamma_3) * M)\n"))
b('x-eps-loop', H, ("  kappa_23_2 <- as.numeric(Matrix::crossprod(gamma_3, Matrix::crossprod(M^3, gamma_3)))\n", """  kappa_23_2 <- 0
  n <- length(gamma_3)
  for(i in seq_len(n))
    for(j in seq_len(i))
      kappa_23_2 <- kappa_23_2 + gamma_3[i] * gamma_3[j] * M[i, j]^3
"""))
b('x-eps-sparse', H, ("  M <- find_M(pars, modfr, normal_approx)\n", "  M <- find_M(pars, modfr, normal_approx)\n  M <- Matrix::drop0(M, tol = 1e-2)\n"))
b('x-eps-block', H, ("  Matrix::crossprod(LambdatThetaZt, Matrix::solve(H_hat, LambdatThetaZt))", "  Matrix::crossprod(LambdatThetaZt / sqrt(Matrix::diag(H_hat)))"))
b('x-canon', 'utility.R', ("""  canonical_link <- eval(parse(text = paste(family$family, "()", sep = "")))$link
  family$link == canonical_link
""", """  canonical <- c(binomial = "logit", poisson = "log", gaussian = "identity", Gamma = "log")
  identical(family$link, unname(canonical[family$family]))
"""))
b('x-weights-int', 'utility.R', ("""    weights_are_integers <- all(abs(weights - round(weights)) < tol)
""", """    weights_are_integers <- all(weights %% 1 < tol)
""")) # stricter: 2.99999999999 refused
b('x-weights-int2', 'utility.R', ("""    weights_are_integers <- all(abs(weights - round(weights)) < tol)
""", """    weights_are_integers <- isTRUE(all.equal(weights, round(weights)))
"""))
O = 'optimization.R'
b('x-opt-cache', O, ("    if(any(abs(param[1:p_theta]) > 5)) {\n      result <- big\n", "    if(identical(signif(param, 6), last_param)) {\n      result <- last_result\n    } else if(any(abs(param[1:p_theta]) > 5)) {\n      result <- big\n"),
  ("    if(verbose == 1L) {\n      count", "    last_param <<- signif(param, 6)\n    last_result <<- result\n    if(verbose == 1L) {\n      count"), ("  count <- 0\n  started", "  count <- 0\n  last_param <- NULL\n  last_result <- NULL\n  started"))
b('x-opt-retry', O, ("                   control = list(maxit = 500))\n", "                   control = list(maxit = 500))\n  if(out_std$convergence != 0)\n    out_std <- optim(out_std$par, devfun_std, big = d0 + 100, method = \"Nelder-Mead\", hessian = TRUE)\n")) # arguably fine
b('x-opt-finite', O, ("      result <- tryCatch(-2 * lfun(param),", "      result <- tryCatch({\n        value <- -2 * lfun(param)\n        if(is.nan(value)) big else value\n      },"))
b('x-opt-sym', O, ("  Sigma <- 2 * solve(hess)\n", "  hess <- (hess + t(hess)) / 2\n  Sigma <- chol2inv(chol(hess))\n"))
b('x-opt-eig', O, ("  if(min(abs(eigen(Sigma, only.values=TRUE)$values)) < 1e-6) {", "  if(rcond(Sigma) < 1e-6) {"))
b('x-opt-prev', O, ("    mu <- prev_fit$estim\n", "    mu <- coef(prev_fit)\n    mu <- mu[is.finite(mu)]\n"))
G = 'glmmFit.R'
b('x-sum-wald', G, ("  z <- abs(object$estim / se)\n  p_value <- 2 * pnorm(z, lower.tail=FALSE)\n", "  z <- object$estim / se\n  p_value <- 2 * (1 - pnorm(z))\n"))
b('x-sum-chisq', G, ("  p_value <- 2 * pnorm(z, lower.tail=FALSE)\n", "  p_value <- pchisq(z^2, df = length(z), lower.tail = FALSE)\n"))
b('x-print-helper', G, ("  estim_random_df <- data.frame(\"Groups\" = group_names,\n                                \"Name\" = names_theta,\n                                \"Estimate\" = estim_random,\n                                \"Std.Error\" = se_random)\n  print(estim_random_df, digits = 4, right = FALSE, row.names=FALSE)",
 "  ord <- order(group_names)\n  estim_random_df <- data.frame(\"Groups\" = group_names[ord],\n                                \"Name\" = names_theta,\n                                \"Estimate\" = estim_random,\n                                \"Std.Error\" = se_random)\n  print(estim_random_df, digits = 4, right = FALSE, row.names=FALSE)"))
I = 'indexing.R'
b('x-flat-horner', I, ("""  l <- vapply(indices, length, 1L)
  h <- c(1, cumprod(l)[-length(l)])
  unname(1 + colSums((multi_id-1)*h))
""", """  l <- vapply(indices, length, 1L)
  flat <- multi_id[1, ] - 1
  for(k in seq_along(l)[-1])
    flat <- flat * l[k] + multi_id[k, ] - 1
  unname(1 + flat)
"""))
b('x-flat-prod', I, ("  h <- c(1, cumprod(l)[-length(l)])\n", "  h <- c(1, l[-length(l)])\n"))
b('x-flat-match', I, ("  multi_id <- Reduce(rbind, lapply(data[var_names], as.numeric))\n", "  multi_id <- Reduce(rbind, lapply(data[var_names], function(v) match(v, sort(unique(v)))))\n"))
b('x-dims-cached', I, ("    for(i in seq_along(x)) {\n      d <- find_dim_sub(x[[i]], var, d)\n    }\n  } else if(is.pairlist(x)) {", "    for(i in seq_along(x)) {\n      if(length(d) == 0L)\n        d <- find_dim_sub(x[[i]], var, d)\n    }\n  } else if(is.pairlist(x)) {"))
b('x-num-range', I, ("    if(!all(is.element(index_i, seq_len(levels_i_max)))) {", "    if(max(index_i) > levels_i_max) {"))
S = 'splitframe.R'
b('x-obs-first', S, ("""  list(C = C, obs_C = obs_C)
}
""", """  list(C = C, obs_C = obs_C)
}
""",), ("""    obs_rem <- setdiff(obs_rem, cliques_ext[[i]]$obs)
""", """    if(length(cliques_ext[[i]]$obs_C) > 0)
      obs_rem <- obs_rem[-cliques_ext[[i]]$obs_C]
"""))
b('x-clique-paste', S, ("  unname(unique(act[vapply(act, length, 1L) > 0L]))\n", "  act <- act[lengths(act) > 0L]\n  key <- vapply(act, function(a) paste(a, collapse = \"\"), \"\")\n  unname(act[!duplicated(key)])\n"))
b('x-clique-len', S, ("  unname(unique(act[vapply(act, length, 1L) > 0L]))\n", "  act <- act[lengths(act) > 0L]\n  size <- lengths(act)\n  act <- act[size == max(size)]\n  unname(unique(act))\n"))
b('x-normal-skip', S, ("  for(i in seq_len(n_re)) {\n    factorization_terms$append_normal", "  for(i in sort(unique(unlist(cliques)))) {\n    factorization_terms$append_normal"))
M = 'model_frames.R'
b('x-plus-sum', M, ("  if(any(dim(modfr1$X) != dim(modfr2$X))) {", "  if(length(modfr1$X) != length(modfr2$X)) {"))
b('x-index-neg', M, ("  i <- as.numeric(i)\n  out$X", "  i <- as.numeric(as.character(i))\n  out$X"))
b('x-parse-docall', M, ("""    if(is.null(off) && is.null(weights)) {
      modfr <- lme4::glFormula(formula, data = data_vars, family = family,
                               na.action = na.fail, control = lme4_control)
    } else {""", """    if(is.null(off) && length(unique(weights)) <= 1L) {
      modfr <- lme4::glFormula(formula, data = data_vars, family = family,
                               na.action = na.fail, control = lme4_control)
    } else {"""))
b('x-bdiag', M, ("      out$reTrms$Lambdat <- concatenate_Matrix(reTrms1$Lambdat, reTrms2$Lambdat)\n", "      out$reTrms$Lambdat <- Matrix::drop0(concatenate_Matrix(reTrms1$Lambdat, reTrms2$Lambdat))\n"))
U = 'subformula.R'
b('x-fam-order', U, ("  data_subexpr <- c(modfr_subform_list, subset_vars_flat, as.list(data))\n", "  data_subexpr <- utils::modifyList(c(modfr_subform_list, subset_vars_flat), as.list(data))\n"))
b('x-expand', U, ("  subvar_data <- list(rep(0, NROW(indices_expand)))\n", "  subvar_data <- list(seq_len(NROW(indices_expand)) * 0 + 1)\n")) # harmless?
W = 'loglikelihood.R'
b('x-sr-negl', W, ("    if(l_SR > normal_approx$l_laplace / 2)\n", "    if(abs(l_SR - normal_approx$l_laplace) > abs(normal_approx$l_laplace))\n"))
b('x-approx-cache', W, ("""  l_laplace <- -devfun_lme4(pars)/2
""", """  env <- environment(devfun_lme4)
  if(!is.null(env$last_pars) && isTRUE(all.equal(env$last_pars, pars)))
    l_laplace <- env$last_value
  else
    l_laplace <- -devfun_lme4(pars)/2
  env$last_pars <- pars
  env$last_value <- l_laplace
"""))
b('x-fit-sign', F, ("      signs <- c(ifelse(opt$estim[1:p_theta] < 0, -1, 1), rep(1, p_beta))\n      opt$Sigma <- opt$Sigma * outer(signs, signs)\n", "      signs <- c(sign(opt$estim[1:p_theta]), rep(1, p_beta))\n      opt$Sigma <- opt$Sigma * outer(signs, signs)\n"))
b('x-fit-sign2', F, ("      signs <- c(ifelse(opt$estim[1:p_theta] < 0, -1, 1), rep(1, p_beta))\n      opt$Sigma <- opt$Sigma * outer(signs, signs)\n", "      neg <- which(opt$estim[1:p_theta] < 0)\n      opt$Sigma[neg, ] <- -opt$Sigma[neg, ]\n"))
if __name__ == '__main__':
    import sys
    bugs_r.main(sys.argv[1:])
