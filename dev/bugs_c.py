"""further planted mistakes in the C++ code, as replacements: which are reported?   bugs_c.py [name ...]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refc
from concurrent.futures import ThreadPoolExecutor
S, H = 'src/', 'inst/include/'
B = refc.R
B.clear()


def b(name, file, *pairs):
    B[name] = [((S if file.endswith('.cpp') else H) + file,) + tuple(p) for p in pairs]


# numerics of the families and links
b('bin-clampwide', 'Binomial.cpp', ('const double epsilon = 1e-8;', 'const double epsilon = 1e-3;'))
b('bin-clamplow', 'Binomial.cpp', ('    if(mean(i) > 1 - epsilon)\n      mean(i) = 1 - epsilon;\n', ''))
b('bin-clampswap', 'Binomial.cpp', ('      mean(i) = 1 - epsilon;', '      mean(i) = epsilon;'))
b('bin-cut', 'Binomial.cpp', ('i < mean.size()', 'i < mean.size() - 1'))
b('bin-resp', 'Binomial.cpp', ('(1 - response) * log(1 - mean)', '(1 - response) * log(mean)'))
b('bin-int', 'Binomial.cpp', ('  return ( weights * (', '  return ( (weights > 0).cast<double>() * ('))
b('bin-d2', 'Binomial.cpp', ('response * pow(mean, -2) + (1 - response)', 'response * pow(mean, -2) - (1 - response)'))
b('bin-mean', 'Binomial.cpp', ('log(1 - mean) ) ).sum()', 'log(1 - mean) ) ).mean() * mean.size()')) # same unless empty
b('fam-noclamp', 'Family.cpp', ('''  familyGivenMean_.checkMean(mean);
  auto meanDerivative = link_.computeMeanDerivative(linearPredictor);
  return''', '''  auto meanDerivative = link_.computeMeanDerivative(linearPredictor);
  return'''))
b('fam-d2', 'Family.cpp', ('pow(meanDerivative, 2) * familySecondDerivative', 'meanDerivative * familySecondDerivative'))
b('fam-d3', 'Family.cpp', ('3. * meanD1 * meanD2 * familyD2', '2. * meanD1 * meanD2 * familyD2'))
b('fam-d4', 'Family.cpp', ('3 * pow(meanD2, 2)', '3 * meanD2'))
b('fam-weightless', 'Family.cpp', ('auto familyDerivative = familyGivenMean_.evaluateDerivative(mean, response, weights);', 'auto familyDerivative = familyGivenMean_.evaluateDerivative(mean, response, Eigen::ArrayXd::Ones(weights.size()));'))
b('fam-ctor', 'Family.cpp', ('link_(linkName), familyGivenMean_(familyName)', 'link_("logit"), familyGivenMean_(familyName)'))
b('link-swap', 'Link.cpp', ('link_ = std::shared_ptr<LinkBase>(new ProbitLink);', 'link_ = std::shared_ptr<LinkBase>(new LogitLink);'))
b('link-default', 'Link.cpp', ('''  else
    throw std::domain_error("constructing a family of unknown type");''', '''  else
    link_ = std::shared_ptr<LinkBase>(new LogitLink);'''))
b('logit-stable', 'LogitLink.cpp', ('return 1 / (1 + exp(-linearPredictor));', 'return exp(linearPredictor) / (1 + exp(linearPredictor));'))
b('logit-q', 'LogitLink.cpp', ('''  Eigen::ArrayXd q = computeMean(-linearPredictor);
  return p * q;''', '''  Eigen::ArrayXd q = 1 - p;
  return p * q;'''))
b('logit-d4', 'LogitLink.cpp', ('(q - p) * (1 - 12 * p * q)', '(q - p) * (1 - 6 * p * q)'))
b('probit-first', 'ProbitLink.cpp', ('cdf(standardNormal_, linearPredictor(i))', 'cdf(standardNormal_, linearPredictor(0))'))
b('probit-d3', 'ProbitLink.cpp', ('(pow(linearPredictor(i), 2) - 1.)', '(pow(linearPredictor(i), 2) + 1.)'))
b('probit-clip', 'ProbitLink.cpp', ('''  for(auto i = 0; i < derivative.size(); ++i)
''', '''  for(auto i = 0; i < std::min<int>(derivative.size(), 1000); ++i)
'''))
b('fgm-share', 'FamilyGivenMean.cpp', ('familyGivenMean_->evaluateThirdDerivative', 'familyGivenMean_->evaluateSecondDerivative'))

# GLMM belief
b('glmm-nobeta', 'GLMMBelief.cpp', ('''  setBeta(parameters.GLMMBeta);
  auto family = parameters.GLMMFamily;
  auto linearPredictor = computeLinearPredictor(x);
  return LambdatThetaZt_ * family.evaluateDerivative''', '''  auto family = parameters.GLMMFamily;
  auto linearPredictor = computeLinearPredictor(x);
  return LambdatThetaZt_ * family.evaluateDerivative'''))
b('glmm-order', 'GLMMBelief.cpp', ('''  auto family = parameters.GLMMFamily;
  auto linearPredictor = computeLinearPredictor(x);
  return family''', '''  auto family = parameters.GLMMFamily;
  auto linearPredictor = computeLinearPredictor(x);
  setBeta(parameters.GLMMBeta);
  return family'''), ('''  setBeta(parameters.GLMMBeta);
  auto family = parameters.GLMMFamily;
  auto linearPredictor = computeLinearPredictor(x);
  setBeta''', '''  auto family = parameters.GLMMFamily;
  auto linearPredictor = computeLinearPredictor(x);
  setBeta'''))
b('glmm-approxeq', 'GLMMBelief.cpp', ('beta.size() != beta_.size() || beta != beta_', 'beta.size() != beta_.size() || !beta.isApprox(beta_)'))
b('glmm-normeq', 'GLMMBelief.cpp', ('theta.size() != theta_.size() || theta != theta_', 'theta.size() != theta_.size() || theta.norm() != theta_.norm()'))
b('glmm-first', 'GLMMBelief.cpp', ('theta.size() != theta_.size() || theta != theta_', 'theta.size() != theta_.size() || (theta.size() > 0 && theta(0) != theta_(0))'))
b('glmm-sumkeep', 'GLMMBelief.cpp', ('    beta_ = beta;\n    XBeta_ = X_ * beta_;\n', '    XBeta_ += X_ * (beta - beta_);\n    beta_ = beta;\n'))
b('glmm-lind', 'GLMMBelief.cpp', ('i.valueRef() = theta(Lind_(index));', 'i.valueRef() *= theta(Lind_(index));'))

b('glmm-zero', 'GLMMBelief.cpp', ('XBeta_ = X_ * beta_;\n}\n\nvoid GLMMBelief::setLamb', 'XBeta_ = Eigen::VectorXd::Zero(numFixed_);\n}\n\nvoid GLMMBelief::setLamb'))
b('glmm-noinit', 'GLMMBelief.cpp', ('  setLambdatThetaZt(theta_);\n  XBeta_', '  XBeta_'))
b('glmm-sym', 'GLMMBelief.cpp', ('.matrix().asDiagonal() * LambdatThetaZt_.transpose()', '.matrix().asDiagonal() * Zt_.transpose()'))

# normal distributions
b('mn-norm', 'MultiNormal.cpp', ('0.5 * log(precision_.determinant())', '0.5 * log(std::abs(precision_.determinant()))'))
b('mn-stale', 'MultiNormal.cpp', ('''  if(precision_.rows() > 0)
    variance_ = precision_.inverse();
  initializeNormalizer();

}''', '''  if(precision_.rows() > 0)
    variance_ = precision_.inverse();
}'''))
b('mn-stalevar', 'MultiNormal.cpp', ('''  if(precision_.rows() > 0)
    variance_ = precision_.inverse();
  initializeNormalizer();

}''', '''  initializeNormalizer();
}'''))
b('mn-divmean', 'MultiNormal.cpp', ('normalPrecision * normal.mean_)', 'normal.precision_ * normal.mean_)'))
b('mn-margprec', 'MultiNormal.cpp', ('''  auto varianceMarginal = getMatrixSubset(variance_, items);''', '''  auto varianceMarginal = getMatrixSubset(precision_, items);'''))
b('mn-intprec', 'MultiNormal.cpp', ('''    marginal.setMean(meanMarginal);
    marginal.setVariance(varianceMarginal);
  return marginal;
}

void''', '''    marginal.setMean(meanMarginal);
    marginal.setPrecision(getMatrixWithout(item, precision_));
  return marginal;
}

void'''))
b('mn-deriv', 'MultiNormal.cpp', ('return -xDiff.transpose() * precision_;', 'return -x.transpose() * precision_;'))
b('mn-half', 'MultiNormal.cpp', ('ret += -0.5 * xDiff', 'ret += -1.0 * xDiff'))
b('mn-half2', 'MultiNormal.cpp', ('ret += -0.5 * xDiff.transpose() * precision_ * xDiff', 'ret += -0.5 * xDiff.transpose() * variance_ * xDiff'))
b('mn-fromd', 'MultiNormal.cpp', ('solve(derivative));', 'solve(-derivative));'))
b('mn-fromd2', 'MultiNormal.cpp', ('setPrecision(-secondDerivative);\n  setMean', 'setPrecision(secondDerivative);\n  setMean'))
b('mn-proper', 'MultiNormal.cpp', ('(normalizer_ != 0) && (std::isfinite(normalizer_))', '(normalizer_ != 0) || (std::isfinite(normalizer_))'))
b('mn-proper2', 'MultiNormal.cpp', ('(normalizer_ != 0) && (std::isfinite(normalizer_))', '(std::isfinite(normalizer_))'))
b('mn-logdet', 'MultiNormal.cpp', ('-dimension() * logSqrtTwoPi', '-1 * logSqrtTwoPi'))
b('nb-const', 'NormalBelief.cpp', ('logNormalizingConstant_ -= other.logNormalizingConstant_;', 'logNormalizingConstant_ += other.logNormalizingConstant_;'))
b('nb-margconst', 'NormalBelief.cpp', ('''		      normal_.computeMarginal(relativeItems),
		      logNormalizingConstant_);''', '''		      normal_.computeMarginal(relativeItems),
		      0);'''))
b('nb-rel', 'NormalBelief.cpp', ('auto relativeItems = findRelativeItems(items, items_);\n  return', 'auto relativeItems = items;\n  return'))
b('nb-eval', 'NormalBelief.cpp', ('return logNormalizingConstant_ + normal_.evaluate(x);', 'return normal_.evaluate(x);'))
b('nb-setitems', 'NormalBelief.cpp', ('''  normal_.setMean(Eigen::VectorXd::Zero(items.size()));
  normal_.setPrecision(Eigen::MatrixXd::Zero(items.size(), items.size()));
}


void NormalBelief::operator*''', '''  normal_.setPrecision(Eigen::MatrixXd::Zero(items.size(), items.size()));
  normal_.setMean(Eigen::VectorXd::Zero(items.size()));
}


void NormalBelief::operator*'''))

# mixed beliefs
M = 'MixedContinuousBelief.cpp'
b('mb-fixmul', M, ('  if(!isNormalFixed_)\n    normalApprox_ *= other.normalApprox_;', '  normalApprox_ *= other.normalApprox_;'))
b('mb-inv', M, ('isInverted_.push_back(!other.isInverted_[i]);', 'isInverted_.push_back(true);'))
b('mb-inv2', M, ('isInverted_.push_back(other.isInverted_[i]);', 'isInverted_.push_back(false);'))
b('mb-norel', M, ('''    isInverted_.push_back(other.isInverted_[i]);
  }

  recomputeRelativeItems();''', '''    isInverted_.push_back(other.isInverted_[i]);
  }
'''))
b('mb-derivinv', M, ('addVectorSubset(ret, relativeItems, -derivativeSubset);', 'addVectorSubset(ret, relativeItems, derivativeSubset);'))
b('mb-margall', M, ('''    for(auto i = itemsIntegrate.begin(); i != itemsIntegrate.end(); ++i) {
      marginalBelief = marginalBelief''', '''    for(auto i = itemsIntegrate.begin(); i != itemsIntegrate.end(); ++i) {
      marginalBelief = '''.rstrip(' ') + ' ' + 'this->'.rstrip('>').rstrip('-') + '->') if False else ('marginalBelief = marginalBelief.integrate(*i, parameters);', 'marginalBelief = integrate(*i, parameters);'))
b('mb-margorder', M, ('for(auto i = itemsIntegrate.begin(); i != itemsIntegrate.end(); ++i) {', 'for(auto i = itemsIntegrate.rbegin(); i != itemsIntegrate.rend(); ++i) {'))
b('mb-margdiff', M, ('auto itemsIntegrate = findItemsDifference(items_, items);', 'auto itemsIntegrate = findItemsDifference(items, items_);'))
b('mb-margone', M, ('''      integratedItems.push_back(*i);
''', '''      integratedItems.push_back(*i);
      if(integratedItems.size() >= 3) break;
'''))
b('mb-approxonly', M, ('if(normalApproxOnly) {', 'if(normalApproxOnly || isNormalFixed_) {'))
b('mb-proper1', M, ('if(beliefs_.size() > 0) {', 'if(beliefs_.size() > 1) {'))
b('mb-proper2', M, ('''  if(!std::isnormal(evalNormalAtMean)) {
    proper = false;
  }
''', ''))
b('mb-setfix', M, ('''  if(!isNormalFixed_)
    normalApprox_ = NormalBelief(items_, mean, precision);''', '''  normalApprox_ = NormalBelief(items_, mean, precision);'''))
b('mb-intmargin', M, ('marginalBelief.setNormalApprox(normalApprox_.margin(remainingItems));', 'marginalBelief.setNormalApprox(normalApprox_);'))
b('mb-erase', M, ('remainingItems.erase(remainingItems.begin() + relativeItem);', 'remainingItems.erase(remainingItems.begin() + item);'))
b('mb-quad', M, ('''    return integratedBelief.evaluateDerivative
    (x, parameters.quadratureRule);''', '''    return integratedBelief.evaluateDerivative
    (x, QuadratureRule(1));'''))
b('mb-lognorm', M, ('auto beliefEmpty = margin(itemsEmpty, false, parameters);', 'auto beliefEmpty = margin(itemsEmpty, true, parameters);'))
b('mb-cacherel', M, ('''    auto relativeItems = findRelativeItems(i->getItems(), items_);
    auto xSubset = findSubset(x, relativeItems);
    auto derivativeSubset''', '''    auto relativeItems = i->getItems();
    auto xSubset = findSubset(x, relativeItems);
    auto derivativeSubset'''))
b('mb-evalskip', M, ('''    else
      ret += beliefValue;
  }
  return ret;''', '''    else if(std::isfinite(beliefValue))
      ret += beliefValue;
  }
  return ret;'''))

# cluster graph
C = 'ClusterGraph.cpp'
b('cg-edgeorder', C, ('e = edges_.rbegin(); e != edges_.rend()', 'e = edges_.begin(); e != edges_.end()'))
b('cg-noold', C, ('''  clusters_.at(j) /= oldEdgeBelief;
''', ''))
b('cg-oldlate', C, ('''  auto oldEdgeBelief = edge.belief_;
  
  projectClusterOntoEdge(clusters_.at(i), edge, normalApproxOnly);
''', '''  projectClusterOntoEdge(clusters_.at(i), edge, normalApproxOnly);
  auto oldEdgeBelief = edge.belief_;
'''))
b('cg-improper', C, ('if(!clusters_.at(j).isProper(parameters_)) {', 'if(!normalApproxOnly && !clusters_.at(j).isProper(parameters_)) {'))
b('cg-improper2', C, ('if(!clusters_.at(j).isProper(parameters_)) {', 'if(!clusters_.at(i).isProper(parameters_)) {'))
b('cg-final', C, ('clusters_.at(nClusters() - 1);', 'clusters_.at(0);'))
b('cg-iscal', C, ('  calibrateBackward();\n  isCalibrated_ = true;', '  calibrateBackward();'))
b('cg-iscal2', C, ('''void ClusterGraph::calibrateForward()
{
  calibrateInternal(true, false);''', '''void ClusterGraph::calibrateForward()
{
  calibrateInternal(true, false);
  isCalibrated_ = true;'''))
b('cg-sep', C, ('if(separatorSize < minSeparatorSize)', 'if(separatorSize > minSeparatorSize)'))
b('cg-connect', C, ('    dependenceGraph.connect(separator);\n', ''))
b('cg-remove', C, ('''    dependenceGraph.connect(separator);
    dependenceGraph.removeNode(itemToEliminate);''', '''    dependenceGraph.removeNode(itemToEliminate);
    dependenceGraph.connect(separator);'''))
b('cg-hang', C, ('      if(isSubset(edges_.at(edgeId).belief_.getItems(), cluster)) {', '      if(isSubset(edges_.at(edgeId).belief_.getItems(), separator)) {'))
b('cg-hangnone', C, ('''      } else {
	newHangingEdgeIds.push_back(edgeId);
      }''', '''      }'''))
b('cg-pop', C, ('''  beliefs.resize(newEnd - beliefs.begin());
''', ''))
b('cg-poporder', C, ('''  for(auto& cluster : clusters_)
    populateBelief(cluster, multiply, beliefs);''', '''  for(auto cluster : clusters_)
    populateBelief(cluster, multiply, beliefs);'''))
b('cg-popdiv', C, ('''    if(multiply)
      cluster *= belief;
    else
      cluster /= belief;''', '''    cluster *= belief;'''))
b('cg-nofix', C, ('''  for(auto& edge : edges_) {
    edge.belief_.fixNormalApprox();
  }
''', ''))
b('cg-nofix2', C, ('''  for(auto& cluster : clusters_) {
    cluster.fixNormalApprox();
  }
''', ''))
b('cg-nocal', C, ('  calibrateInternal(true, true);\n  calibrateInternal(false, true);\n', '  calibrateInternal(true, true);\n'))
b('cg-edgeapprox', C, ('auto edgeItems = edge.belief_.getItems();', 'auto edgeItems = clusters_.at(edge.firstClusterId_).getItems();'))
b('cg-subset', C, ('auto precisionCluster =  getSparseMatrixSubset(precision, clusterItems);', 'auto precisionCluster =  getSparseMatrixSubset(precision, clusterItems);\n    precisionCluster = precisionCluster.inverse();'))
b('cg-param', C, ('''  beliefs.setParameters(parameters);
  beliefs.setNormalApprox(mean, precision);''', '''  beliefs.setNormalApprox(mean, precision);
  beliefs.setParameters(parameters);'''))
b('cg-back', C, ('beliefs.calibrateForward();', 'beliefs.calibrateBackward();'))
b('cg-width', C, ('width = std::max(width, cluster.width());', 'width += cluster.width();'))
b('cg-widthm', C, ('width = std::max(width, cluster.width());', 'width = std::max(width, cluster.width() - 1);'))
b('cg-complete', 'Graph.cpp', ('graph.numVertices() * (graph.numVertices() - 1) / 2', 'graph.numVertices() * (graph.numVertices() + 1) / 2'))
b('g-inactive', 'Graph.cpp', ('''      wi != wi_end; ++wi) {
    if(graph_[*wi].active) {
      neighbours.push_back''', '''      wi != wi_end; ++wi) {
    if(true) {
      neighbours.push_back'''))
b('g-remove', 'Graph.cpp', ('    numEdges_ -= di;', '    numEdges_ -= 1;'))
b('g-remove2', 'Graph.cpp', ('    auto di = findDegree(i);\n    graph_[ri].active = false;', '    graph_[ri].active = false;\n    auto di = boost::degree(ri, graph_);'))
b('g-dup', 'Graph.cpp', ('  if(!edgeExists) {\n    boost::add_edge(ri, rj, graph_);\n    numEdges_++;\n  }', '  if(!edgeExists)\n    boost::add_edge(ri, rj, graph_);\n  numEdges_++;'))
b('g-connect', 'Graph.cpp', ('    j++;\n    for(; j != items.end(); ++j)\n      addEdge(*i, *j);', '    j++;\n    if(j != items.end())\n      addEdge(*i, *j);'))
b('g-items', 'Graph.cpp', ('      items.push_back(graph_[*wi].item);', '      items.push_back(*wi);'))
b('ih-throw', 'itemsHelper.cpp', ('    throw std::domain_error("item not contained in items");', '    return 0;'))
b('ih-union', 'itemsHelper.cpp', ('  std::sort(second.begin(), second.end());\n', ''))
b('ih-inter', 'itemsHelper.cpp', ('std::set_union', 'std::set_intersection'))
b('ih-diff', 'itemsHelper.cpp', ('*i) == subset.end())', '*i) != subset.end())'))

# quadrature
Q = 'QuadratureRule.cpp'
b('q-pi', Q, ('1.772453851', '1.77245'))
b('q-jac', Q, ('hermiteJacobi(i, i - 1) =  sqrt(iOver2);', 'hermiteJacobi(i, i - 1) =  iOver2;'))
b('q-jacint', Q, ('i / 2.0', 'i / 2'))
b('q-row', Q, ('es.eigenvectors().row(0)', 'es.eigenvectors().col(0)'))
b('q-w', Q, ('sqrtPi * firstRow * firstRow', 'sqrtPi * firstRow.abs()'))
b('q-start', Q, ('for(int i = 1; i < n; ++i){', 'for(int i = 1; i < n - 1; ++i){'))
b('q-scale', Q, ('  return scale * ret;\n}\n\n// version for scalar input, matrix', '  return sigma * ret;\n}\n\n// version for scalar input, matrix'))
b('q-exp', Q, ('ret += weights(i) * f(transformedNode) * exp(pow(node, 2));\n  }\n  return scale * ret;\n}\n\n// version for scalar input, vector', 'ret += weights(i) * f(transformedNode) * exp(pow(transformedNode, 2));\n  }\n  return scale * ret;\n}\n\n// version for scalar input, vector'))
b('q-skip', Q, ('''    double node = nodes(i);
    double transformedNode = scale * node + location;
    ret += weights(i) * f(transformedNode) * exp(pow(node, 2));
  }
  return scale * ret;
}

// version for scalar input, vector''', '''    double node = nodes(i);
    if(weights(i) < 1e-10)
      continue;
    double transformedNode = scale * node + location;
    ret += weights(i) * f(transformedNode) * exp(pow(node, 2));
  }
  return scale * ret;
}

// version for scalar input, vector'''))
I = 'IntegratedFunction.cpp'
b('if-shift', I, ('return log(integral) + logValueAtMean_;', 'return log(integral);'))
b('if-noshift', I, ('''    return exp(function_(xExt) - logValueAtMean_);
''', '''    return exp(function_(xExt));
'''))
b('if-pow', I, ('numerator / pow(integral, 2)', 'numerator / integral'))
b('if-cond', I, ('     double varianceConditional = variance11 - \n', '     double varianceConditional = variance11 + \n'))
b('if-condprec', I, ('sigmaConditional_ = sqrt(varianceConditional);', 'sigmaConditional_ = sqrt(variance11);'))
b('if-mean', I, ('mu += cross_.dot(x - mean2_);', 'mu += cross_.dot(x);'))
b('if-corr', I, ('Eigen::ArrayXd ret = (derivativeRem + correction).array();', 'Eigen::ArrayXd ret = derivativeRem.array();'))
b('if-cross', I, ('    ret += secondDerivative12 * cross_.transpose();\n', ''))
b('if-order', I, ('  initializeNormal();\n  initializeConditionalTerms();', '  initializeConditionalTerms();\n  initializeNormal();'))
b('if-outer', I, ('derivativeLog * derivativeLog.transpose()) * value', 'derivativeLog * derivativeLog.transpose())'))
b('if-proper', I, ('if(!normal_.isProper()) {', 'if(normal_.isProper()) {'))
b('if-valueat', I, ('logValueAtMean_ = function_(normal_.getMean());', 'logValueAtMean_ = function_(Eigen::VectorXd::Zero(normal_.getMean().size()));'))

# sparse grids
G = 'SparseGrid.cpp'
b('sg-bound', G, ('return std::min(ret, bound_);', 'return ret;'))
b('sg-boundmax', G, ('return std::min(ret, bound_);', 'return std::max(ret, bound_);'))
b('sg-first', G, ('if((i ==0) || (value > maximumStoredValue))', 'if((i ==0) || (value < maximumStoredValue))'))
b('sg-last', G, ('''    if((i ==0) || (value > maximumStoredValue))
      maximumStoredValue = value;''', '''    maximumStoredValue = value;'''))
b('sg-dadv', G, ('''	ret += coefficients_[i] * point.computeBasisDerivative(x, basis);
	if(i < size() - 1)
	  point.advance();''', '''	ret += coefficients_[i] * point.computeBasisDerivative(x, basis);
	if(i < size() - 2)
	  point.advance();'''))
b('sg-dcond', G, ('''  Eigen::VectorXd ret;
  if(interpolate(x, basis) <  bound_) {''', '''  Eigen::VectorXd ret;
  if(interpolate(x, basis) <=  bound_) {'''))
b('sg-hier', G, ('contribution *= basis.evaluate(knot, parent.getLevel(t), parent.getPosition(t));', 'contribution *= basis.evaluate(knot, point.getLevel(t), parent.getPosition(t));'))
b('sg-hier2', G, ('coefficients_.at(i) -= contribution;', 'coefficients_.at(i) = coefficients_.at(i) - 2 * contribution;'))
b('sg-hierdim', G, ('for(auto t = 0; t < d_; ++t) {\n    Point', 'for(auto t = 0; t < d_ - 1; ++t) {\n    Point'))
b('sg-hierpoint', G, ('''  for(auto t = 0; t < d_; ++t) {
    Point point(d_);
    for(''', '''  Point point(d_);
  for(auto t = 0; t < d_; ++t) {
    for('''))
b('sg-hierwhile', G, ('while(parent.getLevel(t) < point.getLevel(t)) {', 'if(parent.getLevel(t) < point.getLevel(t)) {'))
b('sg-k', G, ('k_(basis.getLevelMax()), d_(d), coefficients_(findNumGridPoints(d, k_))', 'k_(basis.getLevelMax()), d_(d), coefficients_(findNumGridPoints(d, k_ + 1))'))
P = 'Point.cpp'
b('pt-basis', P, ('ret *= basis.evaluate(x[t], levels_[t], positions_[t]);', 'ret *= basis.evaluate(x[t], levels_[t], positions_[0]);'))
b('pt-deriv', P, ('''      if(s == t)
	ret[s] *= basisDerivative;
      else
	ret[s] *= basisValue;''', '''      if(s == t)
	ret[s] *= basisDerivative;'''))
b('pt-second', P, ('''	  if(s == t)
	    ret(r, s) *= basisDerivative;
	  else
	    ret(r, s) *= basisValue;''', '''	  ret(r, s) *= basisValue;'''))
b('pt-lower', P, ('ret.selfadjointView<Eigen::Lower>()', 'ret.selfadjointView<Eigen::Upper>()'))
b('pt-adv', P, ('levels_.at(0) = levelSum_;', 'levels_.back() = levelSum_;'))
b('pt-advpos', P, ('    positions_.at(direction) = 0;\n    success = false;', '    success = false;'))
b('pt-advdir', P, ('    levels_.at(direction)++;\n    setLevelSum();', '    levels_.at(direction)++;'))
b('pt-parent', P, ('  parent.positions_.at(direction) = 0;\n', ''))
b('pt-idx', P, ('multiplier *= (1 << levels_.at(t));', 'multiplier *= levels_.at(t);'))
b('pt-idx3', P, ('index3 += choose(dimension - 1 + s, dimension - 1) * (1 << s);', 'index3 += choose(dimension - 1 + s, dimension - 1);'))
b('pt-eq', P, ('(index_==other.index_) &', '(index_==other.index_) |'))
b('pt-lev', P, ('levels_[t+1] = oldLevels[t+1] + 1;', 'levels_[t+1] = 1;'))
b('pt-lev0', P, ('levels_[0] = oldLevels[t] - 1;', 'levels_[0] = 0;'))
L = 'BasisLevel.cpp'
b('bl-scale', L, ('scale_(1.0 + (levelMax / 2.0))', 'scale_(1.0 + (levelMax / 2))'))
b('bl-deriv', L, ('position) * i * xToPower;', 'position) * xToPower;'))
b('bl-sec', L, ('i * (i-1) * xToPower', 'i * i * xToPower'))
b('bl-int', L, ('       ret = (2 << level_) - 1;', '       ret = (1 << level_) - 1;'))
b('bl-int2', L, ('if(x > knots_.at(0)) {', 'if(x >= 0) {'))
b('bl-band', L, ('pow(2., -levelMax - 1)', 'pow(2., -levelMax)'))
b('bl-band10', L, ('/ 10;', '/ 5;'))
b('bl-grid', L, ('    knotIdPrev = knotId;\n', ''))
b('bl-knots', L, ('(2.0 * i + 1.0) / (2.0 * N)', '(i + 1.0) / (N + 1.0)'))
b('bl-end', L, ('B(4 * numKnots - 5, numKnots - 4 + i)', 'B(4 * numKnots - 5, i)'))
b('bl-cubic', L, ('A(4 * numKnots - 6, 3) = 6;', 'A(4 * numKnots - 6, 3) = 1;'))
b('bl-col', L, ('coefficientsAllKnots.col(2*i)', 'coefficientsAllKnots.col(i)'))
b('bl-internal', L, ('A(rowSecond, colBelow) = -A(rowSecond, colAbove);', 'A(rowSecond, colBelow) = A(rowSecond, colAbove);'))
b('bl-bandzero', L, ('    bandwidth_ = 1;\n', '    bandwidth_ = 0;\n'))
b('bs-lev', 'Basis.cpp', ('for(int l = 0; l < (levelMax + 1); ++l)', 'for(int l = 0; l < levelMax; ++l)'))
b('bs-lev2', 'Basis.cpp', ('BasisLevel(l, levelMax)', 'BasisLevel(l, l)'))
T = 'SparseGridTransform.cpp'
b('tr-half', T, ('return fTransformStored_.interpolate(z, basis) - 0.5 * z.squaredNorm();', 'return fTransformStored_.interpolate(z, basis) - 0.5 * x.squaredNorm();'))
b('tr-deriv', T, ('return inverseScale_.transpose() * (fTransformStored_.interpolateDerivative(z, basis) - z);', 'return inverseScale_.transpose() * (fTransformStored_.interpolateDerivative(x, basis) - z);'))
b('tr-trans', T, ('return inverseScale_.transpose() * unscaledReturn * inverseScale_;', 'return inverseScale_ * unscaledReturn * inverseScale_.transpose();'))
b('tr-id', T, (' - Eigen::MatrixXd::Identity(z.size(), z.size());', ' - 0.5 * Eigen::MatrixXd::Identity(z.size(), z.size());'))
b('tr-swap', T, ('operatorInverseSqrt', 'operatorSqrt'))
b('tr-shift', T, ('    shift_ = normal.getMean();\n', ''))
b('tr-ord', T, ('''    inverseScale_ = eigenPrecision.operatorSqrt();
    shift_ = normal.getMean();
  }

  initializeTransformedFunction(f, basis);''', '''    inverseScale_ = eigenPrecision.operatorSqrt();
  }

  initializeTransformedFunction(f, basis);
  shift_ = normal.getMean();'''))
b('st-mod', 'SparseStore.cpp', ('ret -= modifier_(x);', 'ret += modifier_(x);'))
b('st-modd', 'SparseStore.cpp', ('  ret -= modifier_.derivative(x);\n', ''))
b('st-noloc', 'SparseStore.cpp', ('return f(x) + modifier_(x);', 'return f(x);'))
b('st-der', 'SparseStore.cpp', ('- normal.evaluateDerivative(location)', '+ normal.evaluateDerivative(location)'))
b('qd-half', 'Quadratic.cpp', ('-secondDerivativeAtLocation / 2', '-secondDerivativeAtLocation'))
b('qd-der', 'Quadratic.cpp', ('(A_ +  A_.transpose())', '(2 * A_)'))
b('qd-b', 'Quadratic.cpp', ('    else\n      b_ = location;\n', ''))
b('qd-norm', 'Quadratic.cpp', ('if(A_.norm() > 0)', 'if(A_.norm() > 1)'))
b('ct-choose', 'counting.cpp', ('for (i = k + 1; i <= n; ++i)', 'for (i = k + 1; i < n; ++i)'))
b('ct-shift', 'counting.cpp', ('choose(d - 1 + i, i) * (1 << i)', 'choose(d + i, i) * (1 << i)'))
b('ct-zero', 'counting.cpp', ('    out = 1;\n', '    out = 0;\n'))
b('se-off', 'subsetEigen.cpp', ('target.topRightCorner(index, n - index) = source.topRightCorner(index, n - index);', 'target.topRightCorner(index, n - index) = source.bottomLeftCorner(n - index, index).transpose();'))
b('se-miss', 'subsetEigen.cpp', ('  target.bottomLeftCorner(n - index, index) = source.bottomLeftCorner(n - index, index);\n', ''))
b('se-vec', 'subsetEigen.cpp', ('target.tail(n - index) = source.tail(n - index);', 'target.tail(n - index) = source.head(n - index);'))
b('se-set', 'subsetEigen.cpp', ('target(subset.at(i), subset.at(j)) = source(i, j);', 'target(subset.at(j), subset.at(i)) = source(i, j);'))
b('se-sparse', 'subsetEigen.cpp', ('matrix.coeff(subset.at(i), subset.at(j))', 'matrix.coeff(i, j)'))
b('mh-add', 'matrixHelper.cpp', ('vector(subset.at(i)) += toAdd(i);', 'vector(subset.at(i)) = toAdd(i);'))
b('mh-tri', 'matrixHelper.cpp', ('for(auto j = subset.size() - subset.size(); j < subset.size(); ++j)\n    matrix', 'for(auto j = subset.size() - subset.size(); j <= i; ++j)\n    matrix'))

# parameters and lists of terms
A = 'accessParameters.cpp'
b('ap-link', A, ('''  family.setLink(newLink);
  parameters.GLMMFamily = family;''', '''  family.setLink(newLink);'''))
b('ap-basis', A, ('Basis newBasis(nSparseLevels);', 'Basis newBasis(nSparseLevels + 1);'))
b('ap-quad', A, ('QuadratureRule newRule(nQuadraturePoints);', 'QuadratureRule newRule(std::min(nQuadraturePoints, 20));'))
b('ap-get', A, ('return basis.getLevelMax();', 'return basis.getLevelMax() + 1;'))
b('ap-fam', A, ('family.setFamilyGivenMean(newFamilyGivenMean);', 'family = Family(familyName, "logit");'))
b('ap-default', A, ('setParametersNSparseLevels(parameters, 1);', 'setParametersNSparseLevels(parameters, 2);'))
V = 'MixedContinuousBeliefVector.cpp'
b('mv-swap', V, ('ContinuousBelief term(items, X, Zt, Lambdat, Lind, \n			response, weights);', 'ContinuousBelief term(items, X, Zt, Lambdat, Lind, \n			weights, response);'))
b('mv-twice', V, ('''  ContinuousBelief term(items, mean, precision);
  MixedContinuousBelief belief(term);
  beliefs.push_back(belief);''', '''  ContinuousBelief term(items, mean, precision);
  MixedContinuousBelief belief(term);
  if(items.size() > 0) beliefs.push_back(belief);'''))
b('bb-subset', 'BeliefBase.cpp', ('return isSubset(other.items_, items_);', 'return isSubset(items_, other.items_);'))
b('bb-width', 'BeliefBase.cpp', ('return items_.size();', 'return numItems_;'))


def main(names):
    with ThreadPoolExecutor(6) as ex:
        for name, out in ex.map(refc.one, names or list(B)):
            L = out.splitlines()
            dec = [l for l in L if 'FALSE ' in l]
            if 'NOT APPLIED' in out or 'Traceback' in out:
                print('ERROR', name, out[-300:])
            elif dec:
                print('CAUGHT', name, '|', dec[0].strip()[6:120])
            elif L:
                for l in L[:3]:
                    print('SOFT', name, '|', l.strip()[:600])
            else:
                print('EQUAL', name)


main(sys.argv[1:])
