"""Planted losses of finiteness (must be reported by C02) and harmless rewrites (must stay quiet)."""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'sa'))
sys.setrecursionlimit(100000)
L, P, B, F = 'src/LogitLink.cpp', 'src/ProbitLink.cpp', 'src/Binomial.cpp', 'src/Family.cpp'
BUGS = [
 ('logit-exp', L, 'return 1 / (1 + exp(-linearPredictor));', 'return exp(linearPredictor) / (1 + exp(linearPredictor));'),
 ('logit-d1', L, 'Eigen::ArrayXd p = computeMean(linearPredictor);\n  Eigen::ArrayXd q = computeMean(-linearPredictor);\n  return p * q;', 'Eigen::ArrayXd e = exp(-linearPredictor);\n  return e / pow(1 + e, 2);'),
 ('logit-d1b', L, 'return p * q;', 'return p / (1 + exp(linearPredictor)) * exp(linearPredictor) * exp(-linearPredictor);'),
 ('logit-d2', L, 'return p * q * (q - p);', 'Eigen::ArrayXd e = exp(linearPredictor);\n  return e * (1 - e) / pow(1 + e, 3);'),
 ('eps-zero', B, '1e-8', '0'),
 ('eps-tiny', B, '1e-8', '1e-18'),
 ('eps-tiny2', B, '1e-8', '1e-300'),
 ('one-sided', B, '    if(mean(i) > 1 - epsilon)\n      mean(i) = 1 - epsilon;\n', ''),
 ('one-sided2', B, '    if(mean(i) < epsilon)\n      mean(i) = epsilon;\n', ''),
 ('else-one', B, 'mean(i) = 1 - epsilon;', 'mean(i) = 1;'),
 ('crossed', B, 'if(mean(i) > 1 - epsilon)', 'if(mean(i) > 1)'),
 ('nocheck3', F, 'familyGivenMean_.checkMean(mean);\n  auto meanD1 = link_.computeMeanDerivative(linearPredictor);\n  auto meanD2 = link_.computeMeanSecondDerivative(linearPredictor);\n  auto meanD3 = link_.computeMeanThirdDerivative(linearPredictor);\n\n', 'auto meanD1 = link_.computeMeanDerivative(linearPredictor);\n  auto meanD2 = link_.computeMeanSecondDerivative(linearPredictor);\n  auto meanD3 = link_.computeMeanThirdDerivative(linearPredictor);\n\n'),
 ('latecheck', F, 'familyGivenMean_.checkMean(mean);\n  return familyGivenMean_.evaluate(mean, response, weights);', 'auto value = familyGivenMean_.evaluate(mean, response, weights);\n  familyGivenMean_.checkMean(mean);\n  return value;'),
 ('probit-pow', P, '(pow(linearPredictor(i), 2) - 1.) * pdf', '(pow(linearPredictor(i), 4) / pow(linearPredictor(i), 2) - 1.) * pdf'),
 ('probit-log', P, 'mean(i) = cdf(standardNormal_, linearPredictor(i));', 'mean(i) = exp(log(pdf(standardNormal_, linearPredictor(i)) / linearPredictor(i)));'),
 ('ratio', F, 'return meanDerivative * familyGivenMean_.evaluateDerivative(mean, response, weights);', 'auto d2 = link_.computeMeanSecondDerivative(linearPredictor);\n  return d2 / (d2 / meanDerivative) * familyGivenMean_.evaluateDerivative(mean, response, weights);'),
 ('xlogx', B, 'return ( weights * ( response * log(mean) + (1 - response) * log(1 - mean) ) ).sum();', 'return ( weights * ( response * log(mean / response) + (1 - response) * log((1 - mean) / (1 - response)) ) ).sum();'),
 ('wlog', B, 'return ( weights * ( response * log(mean) + (1 - response) * log(1 - mean) ) ).sum();', 'return ( exp(log(weights)) * ( response * log(mean) + (1 - response) * log(1 - mean) ) ).sum() / weights.sum() * weights.sum();'),
 ('lowfifth', B, 'response * pow(mean, -4)', 'response * pow(mean, -40)'),
]
OK = [
 ('ok-tanh', L, 'return 1 / (1 + exp(-linearPredictor));', 'return 0.5 * (1 + tanh(0.5 * linearPredictor));'),
 ('ok-sign', L, 'return 1 / (1 + exp(-linearPredictor));', 'Eigen::ArrayXd m(linearPredictor.size());\n  for(int i = 0; i < linearPredictor.size(); ++i) {\n    const double x = linearPredictor(i);\n    if(x > 0) {\n      m(i) = 1 / (1 + std::exp(-x));\n    } else {\n      const double e = std::exp(x);\n      m(i) = e / (1 + e);\n    }\n  }\n  return m;'),
 ('ok-clampfun', B, 'for(auto i = 0; i < mean.size(); ++i) {\n    if(mean(i) < epsilon)\n      mean(i) = epsilon;\n    if(mean(i) > 1 - epsilon)\n      mean(i) = 1 - epsilon;\n  }', 'mean = mean.max(epsilon).min(1 - epsilon);'),
 ('ok-else', B, '    if(mean(i) > 1 - epsilon)', '    else if(mean(i) > 1 - epsilon)'),
 ('ok-ternary', B, 'if(mean(i) < epsilon)\n      mean(i) = epsilon;', 'mean(i) = mean(i) < epsilon ? epsilon : mean(i);'),
 ('ok-log1p', B, 'log(1 - mean)', 'log1p(-mean)'),
 ('ok-inv', B, 'response * pow(mean, -2) + (1 - response) * pow(1 - mean, -2)', 'response * mean.inverse().square() + (1 - response) / (1 - mean).square()'),
 ('ok-loop', B, 'return ( weights * ( response * log(mean) + (1 - response) * log(1 - mean) ) ).sum();', 'double total = 0;\n  for(int i = 0; i < mean.size(); ++i)\n    total += weights(i) * (response(i) * std::log(mean(i)) + (1 - response(i)) * std::log(1 - mean(i)));\n  return total;'),
 ('ok-horner', P, '(pow(linearPredictor(i), 2) - 1.) * pdf(standardNormal_, linearPredictor(i))', '(linearPredictor(i) * linearPredictor(i) - 1.) * pdf(standardNormal_, linearPredictor(i))'),
 ('ok-local', P, 'fourthDerivative(i) = (-pow(linearPredictor(i), 3) +  3. * linearPredictor(i)) * pdf(standardNormal_, linearPredictor(i));', '{ const double x = linearPredictor(i); const double phi = pdf(standardNormal_, x); fourthDerivative(i) = x * (3. - x * x) * phi; }'),
]


def main():
    import cparse, finite
    sel = sys.argv[1:]
    bad = 0
    for name, file, a, b in BUGS + OK:
        if sel and name not in sel:
            continue
        d = tempfile.mkdtemp(prefix='bf')
        try:
            subprocess.run('cp -r /repo/src /repo/inst %s/; rm -f %s/src/*.o %s/src/*.so' % (d, d, d), shell=True, check=True)
            q = os.path.join(d, file)
            t = open(q).read()
            if a not in t:
                print(name, 'NOT APPLICABLE')
                continue
            open(q, 'w').write(t.replace(a, b, 1))
            p = cparse.parse(d)
            if p['errors']:
                print(name, 'PARSE', p['errors'][0][:200])
                continue
            r, s = finite.analyse(p)
            v = [x for x in r if x[0] == 'violation']
            got = 'reported' if v else 'undecided' if r else 'quiet'
            want = 'quiet' if name.startswith('ok-') else 'reported'
            if got != want or sel:
                bad += got != want
                print('##' if got != want else '', name, got, *(v or r)[:2], sep='\n   ')
        finally:
            shutil.rmtree(d)
    print(bad, 'not as expected')


if __name__ == '__main__':
    main()
