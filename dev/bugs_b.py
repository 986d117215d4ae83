"""Planted disagreements of the interface between R and the compiled code: every one must be reported by C19."""
import os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
RE, R6, CE, C6, PO, NS = 'R/RcppExports.R', 'R/RcppR6.R', 'src/RcppExports.cpp', 'src/RcppR6.cpp', 'inst/include/glmmsr/RcppR6_post.hpp', 'NAMESPACE'
BUGS = [
 ('r6-swap', R6, 'extended_family__evaluate_d3(self, linear_predictor, response, weights)', 'extended_family__evaluate_d3(self, linear_predictor, weights, response)'),
 ('r6-cross', R6, 'calibration_parameters__n_sparse_levels__set(self, value)', 'calibration_parameters__n_quadrature_points__set(self, value)'),
 ('r6-getcross', R6, 'calibration_parameters__link__get(self)', 'calibration_parameters__family__get(self)'),
 ('r6-d', R6, 'extended_family__evaluate_d4(self', 'extended_family__evaluate_d3(self'),
 ('r6-swapctor', R6, 'extended_family__ctor(family, link)', 'extended_family__ctor(link, family)'),
 ('r6-sign', R6, 'append_normal_belief = function(items, mean, precision) {\n        continuous_beliefs__append_normal_belief(self, items, mean, precision)',
  'append_normal_belief = function(items, mean, precision) {\n        continuous_beliefs__append_normal_belief(self, items, mean, solve(precision))'),
 ('r6-getset', R6, 'if (missing(value)) {\n          calibration_parameters__beta__get', 'if (!missing(value)) {\n          calibration_parameters__beta__get'),
 ('ex-sym', RE, "'_glmmsr_extended_family__evaluate_d2'", "'_glmmsr_extended_family__evaluate_d1'"),
 ('ex-swap', RE, "items, mean, precision))", "items, precision, mean))"),
 ('ex-swap2', RE, "linear_predictor, response, weights)\n}\n\nextended_family__evaluate_d1", "response, linear_predictor, weights)\n}\n\nextended_family__evaluate_d1"),
 ('ex-drop', RE, "'_glmmsr_calibration_parameters__beta__set', PACKAGE = 'glmmsr', obj_, value)", "'_glmmsr_calibration_parameters__beta__set', PACKAGE = 'glmmsr', obj_)"),
 ('ex-nosym', RE, "'_glmmsr_cluster_graph__width__get'", "'glmmsr_cluster_graph__width__get'"),
 ('ex-const', RE, "'_glmmsr_calibration_parameters__n_sparse_levels__set', PACKAGE = 'glmmsr', obj_, value)", "'_glmmsr_calibration_parameters__n_sparse_levels__set', PACKAGE = 'glmmsr', obj_, value + 1L)"),
 ('ce-swap', CE, 'rcpp_result_gen = Rcpp::wrap(extended_family__evaluate_d3(obj_, linear_predictor, response, weights))', 'rcpp_result_gen = Rcpp::wrap(extended_family__evaluate_d3(obj_, linear_predictor, weights, response))'),
 ('ce-conv', CE, 'Rcpp::traits::input_parameter< Eigen::ArrayXd >::type weights(weightsSEXP);\n    rcpp_result_gen = Rcpp::wrap(extended_family__evaluate_d4', 'Rcpp::traits::input_parameter< Eigen::ArrayXd >::type weights(responseSEXP);\n    rcpp_result_gen = Rcpp::wrap(extended_family__evaluate_d4'),
 ('ce-type', CE, 'Rcpp::traits::input_parameter< Eigen::VectorXd >::type value(valueSEXP);\n    calibration_parameters__theta__set', 'Rcpp::traits::input_parameter< std::vector<int> >::type value(valueSEXP);\n    calibration_parameters__theta__set'),
 ('ce-callee', CE, 'Rcpp::wrap(extended_family__evaluate_d2(', 'Rcpp::wrap(extended_family__evaluate_d1('),
 ('ce-noret', CE, 'rcpp_result_gen = Rcpp::wrap(cluster_graph__width__get(obj_));', 'cluster_graph__width__get(obj_);'),
 ('ce-tablecross', CE, '(DL_FUNC) &_glmmsr_calibration_parameters__n_sparse_levels__set', '(DL_FUNC) &_glmmsr_calibration_parameters__n_quadrature_points__set'),
 ('ce-nargs', CE, '&_glmmsr_extended_family__evaluate_d2, 4}', '&_glmmsr_extended_family__evaluate_d2, 3}'),
 ('ce-droprow', CE, '    {"_glmmsr_extended_family__evaluate_d2", (DL_FUNC) &_glmmsr_extended_family__evaluate_d2, 4},\n', ''),
 ('ce-noguard', CE, 'BEGIN_RCPP\n    Rcpp::RObject rcpp_result_gen;\n    Rcpp::RNGScope rcpp_rngScope_gen;\n    Rcpp::traits::input_parameter< glmmsr::RcppR6::RcppR6<Family> >::type obj_(obj_SEXP);\n    Rcpp::traits::input_parameter< Eigen::ArrayXd >::type linear_predictor(linear_predictorSEXP);\n    Rcpp::traits::input_parameter< Eigen::ArrayXd >::type response(responseSEXP);\n    Rcpp::traits::input_parameter< Eigen::ArrayXd >::type weights(weightsSEXP);\n    rcpp_result_gen = Rcpp::wrap(extended_family__evaluate_d1(obj_, linear_predictor, response, weights));\n    return rcpp_result_gen;\nEND_RCPP',
  'Rcpp::RObject rcpp_result_gen;\n    Rcpp::traits::input_parameter< glmmsr::RcppR6::RcppR6<Family> >::type obj_(obj_SEXP);\n    Rcpp::traits::input_parameter< Eigen::ArrayXd >::type linear_predictor(linear_predictorSEXP);\n    Rcpp::traits::input_parameter< Eigen::ArrayXd >::type response(responseSEXP);\n    Rcpp::traits::input_parameter< Eigen::ArrayXd >::type weights(weightsSEXP);\n    rcpp_result_gen = Rcpp::wrap(extended_family__evaluate_d1(obj_, linear_predictor, response, weights));\n    return rcpp_result_gen;'),
 ('c6-swap', C6, 'obj_->evaluateThirdDerivative(linear_predictor, response, weights)', 'obj_->evaluateThirdDerivative(linear_predictor, weights, response)'),
 ('c6-cross', C6, 'setParametersNQuadraturePoints(*obj_, value)', 'setParametersNSparseLevels(*obj_, value)'),
 ('c6-field', C6, 'return obj_->GLMMBeta', 'return obj_->GLMMTheta'),
 ('c6-d', C6, 'obj_->evaluateFourthDerivative(', 'obj_->evaluateThirdDerivative('),
 ('post-gen', PO, 'generator_name<Parameters >() {return ".R6_calibration_parameters";}', 'generator_name<Parameters >() {return ".R6_extended_family";}'),
 ('post-class', PO, 'class_name_r<Family >() {return "extended_family";}', 'class_name_r<Family >() {return "family";}'),
 ('ns-s3', NS, 'S3method(vcov,glmmFit)\n', ''),
 ('ns-export', NS, 'export(set_lme4_control)\n', ''),
 ('ns-alias', NS, 'S3method(print,summaryGlmmFit)', 'S3method(print,summaryGlmmFit,print.glmmFit)'),
]
OK = [
 ('ok-rename', RE, "function(obj_, value) {\n    invisible(.Call('_glmmsr_calibration_parameters__beta__set', PACKAGE = 'glmmsr', obj_, value))", "function(obj_, v) {\n    invisible(.Call('_glmmsr_calibration_parameters__beta__set', obj_, v, PACKAGE = 'glmmsr'))"),
 ('ok-constref', CE, 'Rcpp::traits::input_parameter< Eigen::VectorXd >::type value(valueSEXP);\n    calibration_parameters__theta__set', 'Rcpp::traits::input_parameter< const Eigen::VectorXd& >::type value(valueSEXP);\n    calibration_parameters__theta__set'),
 ('ok-direct', CE, 'rcpp_result_gen = Rcpp::wrap(cluster_graph__width__get(obj_));\n    return rcpp_result_gen;', 'return Rcpp::wrap(cluster_graph__width__get(obj_));'),
 ('ok-local', R6, 'extended_family__ctor(family, link)', 'fam <- extended_family__ctor(family, link)\n  fam'),
 ('ok-wrap', R6, 'extended_family__evaluate_d4(self, linear_predictor, response, weights)', 'extended_family__evaluate_d4(obj_ = self, weights = weights, response = response, linear_predictor = linear_predictor)'),
 ('ok-local2', C6, 'return obj_->GLMMBeta', 'const Parameters& p = *obj_;\n  return p.GLMMBeta'),
 ('ok-order', NS, 'export(glmm)\nexport(set_lme4_control)', 'export(set_lme4_control, glmm)'),
 ('ok-notmissing', R6, 'if (missing(value)) {\n          calibration_parameters__beta__get(self)\n        } else {\n          calibration_parameters__beta__set(self, value)\n        }', 'if (!missing(value)) {\n          calibration_parameters__beta__set(self, value)\n        } else {\n          calibration_parameters__beta__get(self)\n        }'),
]


def one(name, file, a, b):
    d = tempfile.mkdtemp(prefix='bb')
    try:
        subprocess.run('cp -r /repo/R /repo/src /repo/inst /repo/NAMESPACE /repo/DESCRIPTION %s/; rm -f %s/src/*.o %s/src/*.so' % (d, d, d), shell=True, check=True)
        p = os.path.join(d, file)
        t = open(p).read()
        if a not in t:
            return name, 'NOT APPLICABLE', ''
        open(p, 'w').write(t.replace(a, b, 1))
        r = subprocess.run(['python3-vt', os.path.join(HERE, '..', 'sa', 'run.py'), 'C19'], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d))
        return name, {0: 'quiet', 1: 'reported'}.get(r.returncode, 'broken'), '\n'.join(r.stdout.splitlines()[1:3])[:300] + r.stderr[-300:]
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    sel = sys.argv[1:]
    with ThreadPoolExecutor(6) as ex:
        rs = list(ex.map(lambda x: one(*x), [b for b in BUGS + OK if not sel or b[0] in sel]))
    bad = 0
    for n, s, t in rs:
        want = 'quiet' if n.startswith('ok-') else 'reported'
        if s != want:
            bad += 1
            print('##', n, s, t)
        elif sel:
            print(n, s, t)
    print(len(rs), 'tried,', bad, 'not as expected')
