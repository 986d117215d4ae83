PRE = '''
suppressPackageStartupMessages(library(glmmsr))
fail <- function(...) { cat("FAIL:", ..., "\\n"); quit(status = 1) }
near <- function(a, b, tol = 1e-6) isTRUE(all.equal(as.numeric(a), as.numeric(b), tolerance = tol))
'''
CROSS = '''
set.seed(3)
n <- 60
dat <- data.frame(y = rbinom(n, 1, 0.4), x = rnorm(n), g = factor(sample(7, n, TRUE)), h = factor(sample(6, n, TRUE)), k = factor(sample(5, n, TRUE)))
'''
SEEDS = {}
SEEDS['c04-memo'] = dict(property='C04', edits=[('R/laplace.R',
 '''      lfun <- function(x){
        epsilon_1 <- find_epsilon_1(x, modfr, devfun_laplace_1)
        -devfun_laplace_1(x) / 2 + epsilon_1
      }''',
 '''      last_x <- NULL
      last_epsilon <- NULL
      lfun <- function(x){
        # asked again for a parameter found before, apart from rounding: no need to find the correction again
        if(is.null(last_x) || max(abs(x - last_x)) > 1e-5) {
          last_epsilon <<- find_epsilon_1(x, modfr, devfun_laplace_1)
          last_x <<- x
        }
        -devfun_laplace_1(x) / 2 + last_epsilon
      }''')],
 needs='two evaluations of the second-order Laplace log-likelihood at nearby parameters',
 breaks='the log-likelihood depends on the parameters evaluated before',
 demo=PRE + CROSS + '''
modfr <- find_modfr_glmm(y ~ x + (1 | g), data = dat, family = binomial)
dev <- glmmsr:::find_devfun_laplace_1(modfr, set_lme4_control())
p1 <- c(0.8, 0.2, -0.3); p2 <- p1 + c(9e-6, 0, 0)
l <- find_lfun_glmm(modfr, method = "Laplace", control = list(order = 2))
la <- find_lfun_glmm(modfr, method = "Laplace")
e <- function(p) l(p) - la(p)
a1 <- e(p1); a2 <- e(p2); b2 <- e(p1 + c(9e-6, 0, 0) * 1.0001); l(c(1, 1, 1)); a3 <- e(p2)
if(identical(a2, a1) || abs(a2 - a3) > 0.2 * abs(a3 - a1)) fail("depends on history", a1, a2, a3)
''')
SEEDS['c07-check-order2'] = dict(property='C07', edits=[('R/control.R',
 'if(con$order > 1) {', 'if(con$order > 2) {')],
 needs='check_Laplace = TRUE together with order = 2',
 breaks='the quality check of the first-order approximation runs for a second-order fit',
 demo=PRE + '''
con <- glmmsr:::find_control_with_defaults(list(order = 2, check_Laplace = TRUE), "Laplace")
if(con$check_Laplace) fail("check_Laplace is on for order 2")
con <- glmmsr:::find_control_with_defaults(list(check_Laplace = TRUE), "Laplace")
if(!con$check_Laplace) fail("check_Laplace is off for order 1")
''')
SEEDS['c11-lind'] = dict(property='C11', edits=[('R/model_frames.R',
 'c(reTrms1$Lind, reTrms2$Lind + length(reTrms1$theta))', 'c(reTrms1$Lind, reTrms2$Lind + length(reTrms1$cnms))')],
 needs='a first frame with a random effect of more than one variance parameter, followed by a second frame with random effects',
 breaks='the second frame reads the variance parameters of the first',
 demo=PRE + CROSS + '''
m1 <- lme4::glFormula(y ~ x + (1 + x | g), data = dat, family = binomial)
m2 <- lme4::glFormula(y ~ x + (1 | h), data = dat, family = binomial)
m <- glmmsr:::concatenate_frames(m1, m2)
th <- c(1, 0.5, 2, 7)
L <- m$reTrms$Lambdat; L@x <- th[m$reTrms$Lind]
k <- nrow(m1$reTrms$Lambdat) + 1
if(any(Matrix::diag(L)[k:nrow(L)] != 7)) fail("Lind of second frame is wrong")
''')
SEEDS['c12-levels'] = dict(property='C12', edits=[('R/indexing.R',
 'if(any(!vapply(levels_i_across_indices, identical, TRUE, y = levels_i))) {',
 'if(any(!vapply(levels_i_across_indices, setequal, TRUE, y = levels_i))) {')],
 needs='indexing factors with the same levels in different orders', breaks='such factors are accepted, and their entries mixed up',
 demo=PRE + '''
d <- list(p1 = factor(c("a", "b", "c", "a"), levels = c("a", "b", "c")), p2 = factor(c("b", "c", "a", "c"), levels = c("c", "b", "a")), x = c(1, 2, 3))
sub <- list(subvar = "ab", subform = ab[p] ~ 0 + x[p], subexpr = quote(ab[p1] - ab[p2]))
r <- tryCatch({ glmmsr:::find_indices_subform(sub, d); "accepted" }, error = function(e) "refused")
if(r != "refused") fail("factors with differing levels accepted")
''')
SEEDS['c14-nafail'] = dict(property='C14', edits=[('R/model_frames.R',
 '''                                control = lme4_control, na.action = na.fail)''',
 '''                                control = lme4_control)''')],
 needs='a missing value in a covariate of a subformula with random effects', breaks='missing values are silently dropped',
 demo=PRE + '''
d <- list(u = rep(0, 12), x = c(NA, rnorm(11)), g = factor(rep(1:6, 2)))
r <- tryCatch({ glmmsr:::parse_subformula(u ~ x + (1 | g), d, set_lme4_control(check.formula.LHS = "ignore")); "accepted" }, error = function(e) "refused")
if(r != "refused") fail("missing value dropped")
''')
SEEDS['c21-lower'] = dict(property='C21', edits=[('R/optimization.R',
 'if(any(abs(param[1:p_theta]) > 5)) {', 'if(any(param[1:p_theta] > 5)) {')],
 needs='an optimisation path through strongly negative variance parameters (they are only determined up to sign)',
 breaks='the search is no longer confined to variance parameters of absolute value at most 5',
 demo=PRE + '''
seen <- c()
lfun <- function(p) { seen <<- c(seen, p[1]); -0.01 * (p[1] + 7)^2 - p[2]^2 }
o <- glmmsr:::optimize_glmm(lfun, p_beta = 1, p_theta = 1, prev_fit = list(estim = c(-4, 0)), verbose = 0L)
if(any(abs(seen) > 5)) fail("evaluated outside the admissible region")
''')
SEEDS['c22-nobs'] = dict(property='C22', edits=[('R/glmmFit.R',
 '''  nlevels_each <- sapply(fit$modfr$reTrms$flist, nlevels)
  y <- model.response(fit$modfr$fr)
  nobs <- NROW(y)''',
 '''  nlevels_each <- sapply(fit$modfr$reTrms$flist, nlevels)
  y <- model.response(fit$modfr$fr)
  nobs <- length(y)''')],
 needs='a two-column binomial response', breaks='the printed summary counts every observation twice',
 demo=PRE + '''
set.seed(1)
d <- data.frame(s = rbinom(40, 5, 0.4), x = rnorm(40), g = factor(rep(1:8, 5)))
d$f <- 5 - d$s
fit <- glmm(cbind(s, f) ~ x + (1 | g), data = d, family = binomial, method = "Laplace", verbose = 0L)
out <- capture.output(print(summary(fit)))
if(!any(grepl("Number of obs: 40,", out, fixed = TRUE))) fail("wrong number of observations")
''')
SEEDS['c10-dropre'] = dict(property='C10', edits=[('R/model_frames.R',
 '  if(has_reTrms(modfr1) != has_reTrms(modfr2)) {', '  if(has_reTrms(modfr1) && !has_reTrms(modfr2)) {')],
 needs='a frame without random effects on the left of one with', breaks='the random effects of the second frame are dropped silently',
 demo=PRE + CROSS + '''
m2 <- lme4::glFormula(y ~ x + (1 | g), data = dat, family = binomial)
m1 <- list(X = m2$X)
plus <- get("+fr", asNamespace("glmmsr"))
r <- tryCatch({ plus(m1, m2); "accepted" }, error = function(e) "refused")
if(r != "refused") fail("mixed frames accepted")
''')
SEEDS['c20-weights'] = dict(property='C20', edits=[('R/utility.R',
 'weights_are_integers <- all(abs(weights - round(weights)) < tol)', 'weights_are_integers <- abs(sum(weights - round(weights))) < tol')],
 needs='non-integer weights whose fractional parts cancel', breaks='non-integer weights are accepted',
 demo=PRE + '''
r <- tryCatch({ glmmsr:::check_weights(c(1.25, 2, 2.75)); "accepted" }, error = function(e) "refused")
if(r != "refused") fail("non-integer weights accepted")
''')
