"""further planted mistakes in the R code, as replacements: which are reported?   bugs_r.py [name ...]"""
import sys, os, shutil, subprocess, re
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, '..', 'sa'))
import rengine as R, rcheck, propmap
REFROOT = os.path.join(H, '..', 'ref')
B = {}


def b(name, file, *pairs):
    B[name] = (file, pairs)


L = 'loglikelihood.R'
b('sr-nocheck-width', L, ('beliefs$width^(2 * nSL)', 'beliefs$width^nSL'))
b('sr-limit', L, ('5e5', '5e7'))
b('sr-theta-abs', L, ('calibration_pars$theta <- pars[1:n_random]', 'calibration_pars$theta <- abs(pars[1:n_random])'))
b('sr-offset-first', L, ('beta <- c(beta, 1)', 'beta <- c(1, beta)'))
b('sr-offset-const', L, ('has_offset <- length(model.offset(modfr$fr)) > 0', 'has_offset <- any(model.offset(modfr$fr) != 0)'))
b('sr-level', L, ('calibration_pars$n_sparse_levels <- nSL', 'calibration_pars$n_sparse_levels <- nSL - 1L'))
b('sr-once-approx', L, ('    normal_approx <- compute_normal_approx(pars, devfun_lme4)\n    l_SR', '    if(is.null(normal_approx))\n      normal_approx <<- compute_normal_approx(pars, devfun_lme4)\n    l_SR'),
  ('  complexity_limit', '  normal_approx <- NULL\n  complexity_limit'))
b('sr-laplace-check-scale', L, ('if(l_SR > normal_approx$l_laplace / 2)', 'if(l_SR > normal_approx$l_laplace)'))
b('sr-error-to-warning', L, ('      stop("Suspect', '      warning("Suspect'))
b('sr-error-nan', L, ('    if(l_SR > normal_approx$l_laplace / 2)', '    if(isTRUE(l_SR > normal_approx$l_laplace / 2))'))
b('len-check', L, ('length(pars) != (n_fixed + n_random)', 'length(pars) < (n_fixed + n_random)'))
b('agq-shared-devfun', L, ('  devfun_AGQ <- lme4::updateGlmerDevfun(devfun_laplace_1, modfr$reTrms, nAGQ = nAGQ)\n', '  devfun_AGQ <- if(nAGQ > 1) lme4::updateGlmerDevfun(devfun_laplace_1, modfr$reTrms, nAGQ = nAGQ) else devfun_laplace_1\n'))
b('agq-cap', L, ('nAGQ = nAGQ)\n  function', 'nAGQ = min(nAGQ, 25))\n  function'))
b('approx-precision', L, ('Matrix::t(P)%*%Matrix::tcrossprod(L)%*%P', 'P%*%Matrix::tcrossprod(L)%*%Matrix::t(P)'))
b('approx-crossprod', L, ('Matrix::tcrossprod(L)', 'Matrix::crossprod(L)'))
b('approx-order', L, ('  l_laplace <- -devfun_lme4(pars)/2\n  PR <- get("pp", environment(devfun_lme4))\n', '  PR <- get("pp", environment(devfun_lme4))\n'),
  ('  mean <- PR$delu\n', '  mean <- PR$delu\n  l_laplace <- -devfun_lme4(pars)/2\n'))
b('devfun-nocopy', L, ('  reTrms$Lambdat@x <- reTrms$Lambdat@x + 0\n', ''))
b('devfun-nAGQ', L, ('modfr$reTrms, nAGQ = 1)', 'modfr$reTrms, nAGQ = 0)'))
b('devfun-control', L, ('                                     control = lme4_control)', '                                     control = lme4::glmerControl())'))
F = 'fit.R'
b('fit-div-ge', F, ('opt$laplace_divergence > con$divergence_threshold', 'opt$laplace_divergence > 2 * con$divergence_threshold'))
b('fit-offset', F, ('weights = weights, offset = offset,\n', 'weights = weights,\n'))
b('fit-control', F, ('method = method, control = con,\n', 'method = method, control = control,\n'))
b('fit-abs-all', F, ('opt$estim[1:p_theta] <- abs(opt$estim[1:p_theta])', 'opt$estim <- abs(opt$estim)'))
b('fit-lower-any', F, ('all(modfr$reTrms$lower == 0)', 'any(modfr$reTrms$lower == 0)'))
b('fit-49', F, ('any(opt$estim[1:p_theta] > 4.9)', 'all(opt$estim[1:p_theta] > 4.9)'))
b('fit-prev', F, ('prev_fit = prev_fit, verbose = verbose', 'verbose = verbose'))
b('fit-lme4control', F, ('family = family, weights = weights, offset = offset,\n                           lme4_control = lme4_control)', 'family = family, weights = weights, offset = offset)'))
M = 'model_frames.R'
b('mf-swap-weights', M, ('na.action = na.fail, weights = weights,\n                                   offset = off, control', 'na.action = na.fail, weights = off,\n                                   offset = weights, control'))
b('mf-off-drop', M, ('family = family, method = "model.frame",\n                    offset = off, weights = weights)', 'family = family, method = "model.frame",\n                    weights = weights)') if False else ('                    offset = off, weights = weights)', '                    weights = weights)'))
b('mf-gaussian', M, ('if (family$family == "gaussian")', 'if (is.character(family) && family == "gaussian")'))
b('mf-family-keep', M, ('    if(is.null(modfr$family))\n      modfr$family <- family\n', ''))
b('mf-subform-na', M, ('control = lme4_control, na.action = na.fail)\n    modfr <- list', 'control = lme4_control)\n    modfr <- list'))
b('fr-index-zt', M, ('out$reTrms$Zt <- reTrms$Zt[, i, drop = FALSE]', 'out$reTrms$Zt <- reTrms$Zt[, sort(i), drop = FALSE]'))
b('fr-index-unique', M, ('  i <- as.numeric(i)\n', '  i <- unique(as.numeric(i))\n'))
b('fr-mult-ztlist', M, ('    out$reTrms$Ztlist <- lapply(modfr$reTrms$Ztlist, scale_columns)\n', ''))
b('fr-mult-recycle', M, ('Matrix::t(Matrix::t(Zt) * a)', 'Zt * a'))
b('fr-mult-order', M, ('return(`*fr`(a, modfr))', 'return(`*fr`(a, a))'))
b('fr-plus-dim', M, ('any(dim(modfr1$X) != dim(modfr2$X))', 'nrow(modfr1$X) != nrow(modfr2$X)'))
b('fr-plus-all', M, ('any(dim(modfr1$reTrms$Zt) != dim(modfr2$reTrms$Zt))', 'all(dim(modfr1$reTrms$Zt) != dim(modfr2$reTrms$Zt))'))
b('fr-plus-ztlist', M, ('mapply("+", modfr1$reTrms$Ztlist, modfr2$reTrms$Ztlist', 'mapply("+", modfr1$reTrms$Ztlist, modfr1$reTrms$Ztlist'))
b('fr-minus', M, ('`*fr`(modfr2, -1L)\n  `+fr`(modfr1, minus_modfr2)', '`*fr`(modfr1, -1L)\n  `+fr`(modfr2, minus_modfr2)'))
b('fr-div', M, ('`*fr`(modfr, 1/a)', '`*fr`(modfr, ifelse(a == 0, 0, 1/a))'))
b('cc-lind', M, ('reTrms2$Lind + length(reTrms1$theta)', 'reTrms2$Lind + max(reTrms1$Lind)'))
b('cc-lind2', M, ('reTrms2$Lind + length(reTrms1$theta)', 'reTrms2$Lind + length(reTrms1$Lind)'))
b('cc-gp', M, ('reTrms1$Gp[length(reTrms1$Gp)] + reTrms2$Gp[-1]', 'reTrms1$Gp[length(reTrms1$Gp)] + reTrms2$Gp'))
b('cc-gp2', M, ('reTrms1$Gp[length(reTrms1$Gp)] + reTrms2$Gp[-1]', 'nrow(reTrms1$Lambdat) + reTrms2$Gp[-length(reTrms2$Gp)]'))
b('cc-lower', M, ('c(reTrms1$lower, reTrms2$lower)', 'c(reTrms2$lower, reTrms1$lower)'))
b('cc-assign', M, ('length(reTrms1$flist) + attr(reTrms2$flist, "assign")', 'length(reTrms1$cnms) + attr(reTrms2$flist, "assign")'))
b('cc-matrix-j', M, ('M_j <- 1 + c(M1@j, dim1[2] + M2@j)', 'M_j <- 1 + c(M1@j, dim1[1] + M2@j)'))
b('cc-matrix-dims', M, (', dims = dim1 + dim2)', ')'))
b('cc-attach-reverse', M, ('concatenate_frames(modfr, subframes_combined)', 'concatenate_frames(subframes_combined, modfr)'))
b('cc-reduce', M, ('Reduce(concatenate_frames, subframes)', 'Reduce(concatenate_frames, subframes, right = TRUE)'))
b('cc-reduce1', M, ('  subframes_combined <- Reduce(concatenate_frames, subframes)\n  concatenate_frames(modfr, subframes_combined)', '  concatenate_frames(modfr, subframes[[1]])'))
I = 'IS.R'
b('is-resp-level', I, ('response != levels(response)[1L]', 'response == levels(response)[2L]'))
b('is-resp-last', I, ('response != levels(response)[1L]', 'response == levels(response)[nlevels(response)]'))
b('is-weights2', I, ('weights <- weights * trials', 'weights <- trials'))
b('is-trials0', I, ('ifelse(trials == 0, 0,', 'ifelse(trials == 0, 0.5,'))
b('is-nonneg', I, ('XBeta <- XBeta + offset', 'XBeta <- XBeta - offset'))
b('is-weights-1', I, ('rep(1, NROW(response))', 'rep(1, length(response))'))
b('is-eta-each', I, ('rep(XBeta, each = r)', 'rep(XBeta, r)'))
b('is-y-times', I, ('y_rep <- rep(y, each = ncol(u))', 'y_rep <- rep(y, ncol(u))'))
b('is-half', I, ('log_det_prec/2', 'log_det_prec'))
b('is-max', I, ('b <- max(log_weights)', 'b <- mean(log_weights)'))
b('is-mean-sum', I, ('log(mean(exp(log_weights - b))) + b', 'log(sum(exp(log_weights - b))) + b - log(nIS - 1)'))
b('is-redraw', I, ('  z_poss <- matrix(rnorm(n * nIS), nrow = n)\n\n  lfun <- function(pars) {\n', '  lfun <- function(pars) {\n    z_poss <- matrix(rnorm(n * nIS), nrow = n)\n'))
b('is-transform', I, ('C <- solve(chol(normal_approx$precision))', 'C <- t(chol(solve(normal_approx$precision)))') if False else ('C <- solve(chol(normal_approx$precision))', 'C <- t(solve(chol(normal_approx$precision)))'))
b('is-lind', I, ('theta[modfr$reTrms$Lind]', 'theta[seq_along(modfr$reTrms$Lind)]'))
b('is-weights-mean', I, ('family$dev.resids(y_rep, mu_num, weights_rep)', 'family$dev.resids(y_rep, mu_num, 1) * weights_rep') if False else ('weights_rep <- rep(weights, each = ncol(u))', 'weights_rep <- weights'))
b('is-log', I, ('logarithm = TRUE)$modulus\n  normal', 'logarithm = FALSE)$modulus\n  normal'))
Hh = 'hol.R'
b('hol-sign', Hh, ('- kappa_4 / 8 + (', '- kappa_4 / 8 - ('))
b('hol-d3', Hh, ('gamma_3 <- -modfr_family$evaluate_d3(eta_hat, response, weights)', 'gamma_3 <- -modfr_family$evaluate_d3(eta_hat, response, 1) * weights'))
b('hol-M', Hh, ('Matrix::solve(H_hat, LambdatThetaZt)', 'Matrix::solve(H_hat) %*% LambdatThetaZt %*% Matrix::Diagonal(ncol(LambdatThetaZt))') if False else ('M^3', 'M %*% M %*% M'))
b('hol-diag', Hh, ('gamma_4 * diag_M^2', 'gamma_4 * diag_M'))
b('hol-sigma', Hh, ('KL <- 0.5 * sum(delta_1 * crossprod(Sigma_1, delta_1))', 'KL <- 0.5 * sum(delta_1 * solve(Sigma_1, delta_1))'))
b('hol-KL-p', Hh, ('log_det_ratio - p + trace_ratio', 'log_det_ratio + p - trace_ratio'))
b('hol-use', Hh, ('use_second_derivatives = FALSE) {', 'use_second_derivatives = TRUE) {'))
b('hol-u', Hh, ('u_hat <- normal_approx$mean', 'u_hat <- normal_approx$mean * 0'))
X = 'indexing.R'
b('ix-d', X, ('if(d != (length(x) - 2)) {', 'if(d < (length(x) - 2)) {'))
b('ix-d-first', X, ('    for(i in seq_along(x)) {\n      d <- find_dim_sub(x[[i]], var, d)\n    }\n  } else if(is.pair', '    for(i in seq_along(x)) {\n      if(is.null(d)) d <- find_dim_sub(x[[i]], var, d)\n    }\n  } else if(is.pair'))
b('ix-levels', X, ('factor(levels_i, levels = levels_i)', 'factor(levels_i)'))
b('ix-sorted', X, ('sort(unique(Reduce(c, indices_i)))', 'unique(Reduce(c, indices_i))'))
b('ix-first-only', X, ('sort(unique(Reduce(c, indices_i)))', 'sort(unique(indices_i[[1]]))'))
b('ix-max-min', X, ('levels_i_max <- max(vapply(x_vars', 'levels_i_max <- min(vapply(x_vars'))
b('ix-wronglevels', X, ('if(length(index_i) != levels_i_max) {', 'if(length(index_i) < levels_i_max) {'))
b('ix-len', X, ('levels_i_max <- length(index_i)', 'levels_i_max <- max(index_i)'))
b('ix-cumprod', X, ('h <- c(1, cumprod(l)[-length(l)])', 'h <- c(cumprod(l)[-1], 1)'))
b('ix-cumprod2', X, ('h <- c(1, cumprod(l)[-length(l)])', 'h <- rev(c(1, cumprod(rev(l))[-length(l)]))'))
b('ix-minus1', X, ('unname(1 + colSums((multi_id-1)*h))', 'unname(colSums(multi_id*h))'))
b('ix-mi-gt', X, ('&& length(x) > 3) {\n      y', '&& length(x) > 4) {\n      y'))
b('ix-vars', X, ('(length(x) > i + 1) &&', '(length(x) > i + 2) &&'))
b('ix-flat-levels', X, ('lapply(data[var_names], as.numeric)', 'lapply(data[sort(var_names)], as.numeric)'))
b('ix-levelscommon', X, ('indices_i <- lapply(indices_i, factor, levels = levels_i)', 'indices_i <- lapply(indices_i, factor)'))
b('ix-identical', X, ('if(any(!vapply(levels_i_across_indices, identical, TRUE, y = levels_i)))', 'if(any(!vapply(levels_i_across_indices, setequal, TRUE, y = levels_i)))'))
b('ix-identical-len', X, ('if(any(!vapply(levels_i_across_indices, identical, TRUE, y = levels_i)))', 'if(any(lengths(levels_i_across_indices) != length(levels_i)))'))
b('ix-data', X, ('find_index_i(index, i, index_i, subform, data)\n', 'find_index_i(index, 1, index_i, subform, data)\n'))
Sb = 'modify_subexpr.R'
b('ms-div', Sb, ('} else if(identical(x[[1]], quote(`/`))) {\n        x[[1]] <- quote(`/fr`)', '} else if(identical(x[[1]], quote(`/`)) && !arg2sub) {\n        x[[1]] <- quote(`/fr`)'))
b('ms-minus', Sb, ('x[[1]] <- quote(`-fr`)', 'x[[1]] <- if(length(x) > 2L) quote(`-fr`) else quote(`+fr`)'))
b('ms-arg', Sb, ('arg1sub && !arg2sub) {', 'arg1sub) {'))
b('ms-collapse', Sb, ('paste(x[-c(1, 2)], collapse = "_")', 'paste(x[-c(1, 2)], collapse = "")'))
b('ms-len', Sb, ('          x <- x[1:3]\n', '          x <- x[c(1, 2, length(x))]\n'))
b('ms-all', Sb, ('any(sub_status_vector)', 'all(sub_status_vector)'))
b('ms-sub2', Sb, ('any(sub_status_vector)', 'any(sub_status_vector[-1])'))
b('ms-nonlinear', Sb, ('        stop("Substituted variables used in non-linear function",\n             call. = FALSE)', '        warning("Substituted variables used in non-linear function",\n             call. = FALSE)'))
b('ms-extract-any', Sb, ('length(x) > 3L && find_sub_status(x[[2]], subvar)', 'length(x) > 3L'))
S = 'subformula.R'
b('sf-substr', S, ('substr(subvar, 5, nchar(subvar) - 1)', 'sub(")", "", substr(subvar, 5, nchar(subvar)), fixed = TRUE)'))
b('sf-rhs', S, ('which(fac[var, ] > 0L)', 'which(fac[var, ] == 2L)'))
b('sf-rhs-first', S, ('which(fac[var, ] > 0L)', 'which(fac[var, ] > 0L)[1]'))
b('sf-intercept', 'utility.R', ('c("0", tmp)', 'c(if(attr(Terms, "intercept")) "1" else "0", tmp)'))
b('sf-nonsub', S, ('fixFormulaObject(tf, var_sub_rhs)', 'fixFormulaObject(tf, var_sub_rhs[1])'))
b('sf-onlyfirst', S, ('which_subexpr <- which(vapply(which_subvars, function(x) {x[1] == subvar}, TRUE))', 'which_subexpr <- match(subvar, vapply(which_subvars, function(x) x[1], "a"), nomatch = 0L)\n  which_subexpr <- which_subexpr[which_subexpr > 0L]'))
b('sf-multi-warning', S, ('    stop(paste0("Multiple subexpressions involving ", subvar))', '    warning(paste0("Multiple subexpressions involving ", subvar))'))
b('sf-noinvolved', S, ('} else if (any(n_subvars == 0L)) {', '} else if (all(n_subvars == 0L)) {'))
b('sf-data-order', S, ('c(as.list(indices_expand), subvar_data, as.list(data))', 'c(as.list(data), as.list(indices_expand), subvar_data)'))
b('sf-subst-order', S, ('c(modfr_subform_list, subset_vars_flat, as.list(data))', 'c(as.list(data), modfr_subform_list, subset_vars_flat)'))
b('sf-names-sep', S, ('names(subset_vars_flat) <- lapply(to_flatten, paste, collapse = "_")', 'names(subset_vars_flat) <- lapply(to_flatten, function(v) paste(sort(v), collapse = "_"))'))
b('sf-data-old', S, ('  data <- indices_subform_tot$data\n', ''))
b('sf-frmla', S, ('  modfr$formula <- formula\n', ''))
b('sf-dropindex', S, ('      drop_index(x[[2]])', '      x[[2]]'))
b('sf-list', S, ('is.list(subformula) || length(subformula) == 0L', 'is.list(subformula)'))
P = 'splitframe.R'
b('sp-active', P, ('tapply(LambdatZt@i + 1, ', 'tapply(LambdatZt@i, '))
b('sp-active-zt', P, ('LambdatZt <- Lambdat %*% Zt', 'LambdatZt <- Zt'))
b('sp-any', P, ('all(is.element(items, C))', 'any(is.element(items, C))'))
b('sp-rev', P, ('all(is.element(items, C))', 'all(is.element(C, items))'))
b('sp-rem', P, ('    obs_rem <- setdiff(obs_rem, cliques_ext[[i]]$obs)\n', ''))
b('sp-cl-sorted', P, ('act[vapply(act, length, 1L) > 0L]', 'lapply(act, sort, decreasing = TRUE)'))
b('sp-cl-empty', P, ('act[vapply(act, length, 1L) > 0L]', 'act[vapply(act, length, 1L) > 1L]'))
b('sp-offset', P, ('offset[obs_C], deparse', 'offset[seq_along(obs_C)], deparse'))
b('sp-lind', P, ('Lind_C <- as.integer(Lind_mat[C, C, drop = FALSE]@x) - 1', 'Lind_C <- as.integer(modfr$reTrms$Lind[C]) - 1'))
b('sp-lind0', P, ('drop = FALSE]@x) - 1\n', 'drop = FALSE]@x)\n'))
b('sp-n-re', P, ('  for(i in seq_len(n_re)) {\n    factorization', '  for(i in unique(unlist(cliques))) {\n    factorization'))
b('sp-normal-mean', P, ('mean = c(0),', 'mean = c(1),'))
b('sp-items0', P, ('items = lmodfr$C - 1,', 'items = sort(lmodfr$C) - 1,'))
C = 'control.R'
b('ct-order', C, ('if(con$order > 1) {', 'if(con$order > 2) {'))
b('ct-nagq', C, ('2^(con$nSL + 1) - 1', '2^con$nSL - 1'))
b('ct-nagq-user', C, ('  if(method == "SR") {', '  if(method == "SR" && is.null(control$nAGQ)) {'))
b('ct-unknown', C, ('  con[names(control)] <- control\n', '  con[names_known] <- control[names_known]\n  con <- con[names(con) %in% c("order", "check_Laplace", "nAGQ", "nSL", "nIS")]\n') if False else ('con[names(control)] <- control', 'con[names_known] <- control'))
b('ct-default-is', C, ('conIS <- list(nIS = 1000)', 'conIS <- list(nIS = 100)'))
G = 'glmmFit.R'
b('gf-se', G, ('se <- sqrt(diag(object$Sigma))', 'se <- sqrt(diag(solve(object$Sigma)))'))
b('gf-p', G, ('2 * pnorm(z, lower.tail=FALSE)', 'pnorm(z, lower.tail=FALSE)'))
b('gf-z', G, ('z <- abs(object$estim / se)', 'z <- object$estim / se'))
b('gf-fixedwhich', G, ('  which_fixed <- p_theta + seq_len(p_beta)\n  estim_fixed <- fit$estim[which_fixed]', '  which_fixed <- -seq_len(p_theta)\n  estim_fixed <- rev(fit$estim[which_fixed])'))
b('gf-se-random', G, ('se_random <- x$se[1:p_theta]', 'se_random <- x$se[p_beta + seq_len(p_theta)]'))
b('gf-nobs', G, ('  y <- model.response(x$modfr$fr)\n  nobs <- NROW(y)', '  y <- model.response(x$modfr$fr)\n  nobs <- length(y)'))
b('gf-coef-order', G, ('c(coef_random.glmmFit(object), coef_fixed.glmmFit(object))', 'c(coef_fixed.glmmFit(object), coef_random.glmmFit(object))'))
b('gf-vcov', G, ('par_names <- names(coef.glmmFit(object))', 'par_names <- c(names(coef_fixed.glmmFit(object)), names(coef_random.glmmFit(object)))'))
b('gf-col', G, ('c("Estimate", "Std. Error", "z value", "Pr(>|z|)")', 'c("Estimate", "z value", "Std. Error", "Pr(>|z|)")'))
b('gf-name', G, ('paste("Sequential reduction at level", control$nSL)', 'paste("Sequential reduction at level", control$nAGQ)'))
b('gf-order', G, ('paste("Laplace approximation, order ", control$order)', '"Laplace approximation, order 1"'))
O = 'optimization.R'
b('op-lim', O, ('any(abs(param[1:p_theta]) > 5)', 'any(param[1:p_theta] > 5)'))
b('op-big', O, ('result <- big', 'result <- Inf'))
b('op-start', O, ('mu <- prev_fit$estim', 'mu <- c(prev_fit$estim[1:p_theta], rep(0, p_beta))'))
b('op-start-order', O, ('c(rep(0.5, p_theta), rep(0, p_beta))', 'c(rep(0, p_beta), rep(0.5, p_theta))'))
b('op-scale', O, ('Sigma <- 2 * solve(hess)', 'Sigma <- solve(hess)'))
b('op-conv', O, ('  if(out_std$convergence != 0)\n    warning("optim did not converge")\n', ''))
b('op-swallow', O, ('return(Inf)', 'return(big)'))
b('op-estim', O, ('estim = as.numeric(estim_std + mu)', 'estim = as.numeric(estim_std)'))
b('op-start-err', O, ('devfun_std(par0, stop_on_error = TRUE, big = Inf)', 'devfun_std(par0, big = Inf)'))
b('op-sign', O, ('-2 * lfun(param)', '2 * lfun(param)'))
U = 'utility.R'
b('ut-tol', U, ('tol <- .Machine$double.eps^0.5', 'tol <- 0.5'))
b('ut-weights-any', U, ('all(abs(weights - round(weights)) < tol)', 'all(weights - round(weights) < tol)'))
b('ut-link', U, ('c("logit", "probit")', 'c("logit", "probit", "cloglog")'))
b('ut-sr-family', U, ('if(family != "binomial")', 'if(!family %in% c("binomial", "poisson"))'))
b('ut-dim', U, ('paste(rep(",", times = d - i)', 'paste(rep(",", times = d - i + 1)'))
b('ut-intercept', U, ('environment(res) <- environment(object)\n', ''))
b('ut-lhs', U, ('formula[[length(formula)]]', 'formula[[2]]'))
b('ut-offset', U, ('tmp <- c(tmp, tmp2[ind])', 'tmp <- c(tmp, tmp2[ind - 1])'))
La = 'laplace.R'
b('la-and', La, ('order > 1L & !is_canonical(family)', 'order > 2L & !is_canonical(family)'))
b('la-sign', La, ('-devfun_laplace_1(x) / 2 + epsilon_1', '-devfun_laplace_1(x) / 2 - epsilon_1'))
b('la-check', La, ('    check_if_order_implemented(modfr$family, order)\n', ''))

def main(args):
    want = args or list(B)
    ref = R.Package(REFROOT)
    rp = {f: {p for p, fs in propmap.RFUN.items() if f in fs} for f in ref.funs}
    tmp = '/tmp/bugs_r'
    files = {os.path.basename(f): f for f in ref.files}
    for n in want:
        sys.stdout.flush()
        f, pairs = B[n]
        src = open(files[f]).read()
        for o, nw in pairs:
            if o not in src:
                print(n, 'PATTERN NOT FOUND', o)
            src = src.replace(o, nw, 1)
        os.makedirs(tmp, exist_ok=True)
        p = os.path.join(tmp, f)
        open(p, 'w').write(src)
        ast = dict(ref.ast)
        ast.pop(files[f])
        ast.update(R.parse([p]))
        code = R.Package.__new__(R.Package)
        code.root = REFROOT
        code.files = [x for x in ref.files if x != files[f]] + [p]
        code.ast, code.funs, code.toplevel = ast, {}, []
        for ff in code.files:
            for x in ast[ff]:
                e = x['e']
                if e['k'] == 'call' and e['f'].get('n') in ('<-', '=') and e['a'][1][1]['k'] == 'fn':
                    nm = e['a'][0][1].get('n') or e['a'][0][1].get('v')
                    code.funs[nm] = R.Fun(nm, e['a'][1][1], os.path.basename(ff), x['l'])
        code.analyse_effects()
        c = rcheck.RComparison(ref, code, observables=propmap.OBSERVABLES)
        v = c.run()
        dec = {g: [d for d in v[g] if d.decisive] for g in v}
        dec = {g: d for g, d in dec.items() if d}
        soft = {g: [d for d in v[g] if not d.decisive] for g in v}
        soft = {g: d for g, d in soft.items() if d}
        if dec:
            props = set().union(*[rp.get(g, set()) for g in dec])
            print('CAUGHT', n, ','.join(dec), '|', ' '.join(sorted(props)))
        elif soft:
            for g, ds in soft.items():
                for d in ds[:3]:
                    print('SOFT', n, g, d.text(7)[:700])
        else:
            print('EQUAL', n, len(c.changed), c.errors)


if __name__ == '__main__':
    main(sys.argv[1:])
