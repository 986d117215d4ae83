"""Behaviour-preserving edits of the C++ sources: none may be reported as a violation.
usage: refc.py [NAME...]   (runs the comparison on a copy of /repo with each edit applied)"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

os.environ.setdefault('CX_CACHE', '/tmp/cxcache')
S = 'src/'
H = 'inst/include/'
R = {}

# ------------------------------------------------------------------ GLMMBelief
R['glmm-helper'] = [(S + 'GLMMBelief.cpp', '''  setTheta(parameters.GLMMTheta);
  setBeta(parameters.GLMMBeta);
''', '''  updateParameters(parameters);
''', 3), (S + 'GLMMBelief.cpp', '''void GLMMBelief::setTheta(''', '''void GLMMBelief::updateParameters(const Parameters& parameters)
{
  setTheta(parameters.GLMMTheta);
  setBeta(parameters.GLMMBeta);
}

void GLMMBelief::setTheta('''), (H + 'GLMMBelief.h', '''  void setTheta(''', '''  void updateParameters(const Parameters& parameters);
  void setTheta(''')]
R['glmm-swap'] = [(S + 'GLMMBelief.cpp', '''  setTheta(parameters.GLMMTheta);
  setBeta(parameters.GLMMBeta);
''', '''  setBeta(parameters.GLMMBeta);
  setTheta(parameters.GLMMTheta);
''', 3)]
R['glmm-loop'] = [(S + 'GLMMBelief.cpp', '''  int index = 0;
  for (int j = 0; j < LambdatTheta.outerSize(); ++j)
    for (Eigen::SparseMatrix<double>::InnerIterator i(LambdatTheta, j); i; ++i) {
      i.valueRef() = theta(Lind_(index));
      index++;
    }
''', '''  int index = 0;
  for (int col = 0; col < LambdatTheta.outerSize(); col++) {
    for (Eigen::SparseMatrix<double>::InnerIterator it(LambdatTheta, col); it; ++it)
      it.valueRef() = theta[Lind_[index++]];
  }
''')]
R['glmm-values'] = [(S + 'GLMMBelief.cpp', '''  Eigen::SparseMatrix<double> LambdatTheta(Lambdat_);
  int index = 0;
''', '''  Eigen::SparseMatrix<double> LambdatTheta = Lambdat_;
  int index(0);
'''), (S + 'GLMMBelief.cpp', '''  LambdatThetaZt_ = LambdatTheta * Zt_;''', '''  Eigen::MatrixXd product = LambdatTheta * Zt_;
  LambdatThetaZt_ = product;''')]
R['glmm-early'] = [(S + 'GLMMBelief.cpp', '''  if(theta.size() != theta_.size() || theta != theta_) {
    theta_ = theta;
    setLambdatThetaZt(theta);
  }''', '''  const bool same = theta.size() == theta_.size() && theta == theta_;
  if(same)
    return;
  theta_ = theta;
  setLambdatThetaZt(theta_);''')]
R['glmm-lp'] = [(S + 'GLMMBelief.cpp', '''  return (XBeta_ + LambdatThetaZt_.transpose() * x).array();''', '''  Eigen::VectorXd eta = LambdatThetaZt_.transpose() * x;
  eta += XBeta_;
  return eta.array();''')]
R['glmm-nocache'] = [(S + 'GLMMBelief.cpp', '''  if(beta.size() != beta_.size() || beta != beta_) {
    beta_ = beta;
    XBeta_ = X_ * beta_;
  }''', '''  beta_ = beta;
  XBeta_ = X_ * beta;''')]
R['glmm-hess'] = [(S + 'GLMMBelief.cpp', '''  return LambdatThetaZt_ * family.evaluateSecondDerivative(linearPredictor, response_, weights_).matrix().asDiagonal() * LambdatThetaZt_.transpose();''',
 '''  Eigen::VectorXd d2 = family.evaluateSecondDerivative(linearPredictor, response_, weights_).matrix();
  Eigen::MatrixXd scaled = LambdatThetaZt_ * d2.asDiagonal();
  return scaled * LambdatThetaZt_.transpose();''')]
R['glmm-noauto'] = [(S + 'GLMMBelief.cpp', '''  auto family = parameters.GLMMFamily;
  auto linearPredictor = computeLinearPredictor(x);
  return family.evaluate(linearPredictor, response_, weights_);''', '''  return Family(parameters.GLMMFamily).evaluate(computeLinearPredictor(x), response_, weights_);''')]
R['glmm-rename'] = [(S + 'GLMMBelief.cpp', 'XBeta_', 'fixedPart_', 5), (H + 'GLMMBelief.h', 'XBeta_', 'fixedPart_')]
R['glmm-inits'] = [(S + 'GLMMBelief.cpp', '''  numObservations_(response.size()), numFixed_(X.cols()),
  X_(X), Zt_(Zt), Lambdat_(Lambdat), Lind_(Lind),
  response_(response), weights_(weights)
{
''', '''  X_(X), Zt_(Zt), Lambdat_(Lambdat), Lind_(Lind)
{
  numObservations_ = response.size();
  numFixed_ = X.cols();
  response_ = response;
  weights_ = weights;
''')]

# ------------------------------------------------------------------ NormalBelief, MultiNormal
R['normal-inline'] = [(S + 'NormalBelief.cpp', '''
  auto relativeItems = findRelativeItems(other.getItems(), items_);

  normal_.multiplySubset(other.normal_, relativeItems);

  logNormalizingConstant_ += other.logNormalizingConstant_;

''', '''  logNormalizingConstant_ = logNormalizingConstant_ + other.logNormalizingConstant_;
  normal_.multiplySubset(other.normal_, findRelativeItems(other.items_, items_));
''')]
R['normal-setitems'] = [(S + 'NormalBelief.cpp', '''  items_ = items;
  normal_.setMean(Eigen::VectorXd::Zero(items.size()));
  normal_.setPrecision(Eigen::MatrixXd::Zero(items.size(), items.size()));
''', '''  const auto n = items.size();
  normal_.setMean(VectorXd::Zero(n));
  normal_.setPrecision(MatrixXd::Zero(n, n));
  items_ = items;
''')]
R['normal-sub'] = [(S + 'NormalBelief.cpp', 'logNormalizingConstant_ -= other.logNormalizingConstant_;', 'logNormalizingConstant_ = logNormalizingConstant_ - other.getLogNormalizingConstant();')]

# ------------------------------------------------------------------ helpers
R['subset-int'] = [(S + 'matrixHelper.cpp', '''  Eigen::VectorXd ret(subset.size());
  for(auto i = subset.size() - subset.size();
      i < subset.size(); ++i) {
    ret(i) = vector(subset.at(i));
  }
  return ret;''', '''  const int n = subset.size();
  Eigen::VectorXd ret(n);
  for(int i = 0; i < n; i++)
    ret[i] = vector[subset[i]];
  return ret;''')]
R['subset-down'] = [(S + 'subsetEigen.cpp', '''  for(auto i = subset.size() - subset.size(); i < subset.size(); ++i)
    ret(i) = vector(subset.at(i)); 
  return ret;''', '''  for(int i = static_cast<int>(subset.size()) - 1; i >= 0; --i)
    ret(i) = vector(subset.at(i));
  return ret;''')]
R['subset-iter'] = [(S + 'matrixHelper.cpp', '''  for(auto i = subset.size() - subset.size(); 
      i < subset.size(); ++i)
    vector(subset.at(i)) += toAdd(i);''', '''  int position = 0;
  for(auto item : subset) {
    vector(item) += toAdd(position);
    ++position;
  }''')]
R['subset-loops'] = [(S + 'matrixHelper.cpp', '''  for(auto i = subset.size() - subset.size(); i < subset.size(); ++i)
    for(auto j = subset.size() - subset.size(); j < subset.size(); ++j)
    matrix(subset.at(i), subset.at(j)) += toAdd(i, j);''', '''  for(std::size_t j = 0; j != subset.size(); ++j) {
    for(std::size_t i = 0; i != subset.size(); ++i) {
      const int row = subset[i], col = subset[j];
      matrix(row, col) = matrix(row, col) + toAdd(i, j);
    }
  }''')]
R['without-blocks'] = [(S + 'subsetEigen.cpp', '''  auto n = std::min(source.size(), target.size());
  target.head(index) = source.head(index);
  target.tail(n - index) = source.tail(n - index);''', '''  const auto remaining = std::min(target.size(), source.size()) - index;
  target.tail(remaining) = source.tail(remaining);
  target.head(index) = source.head(index);''')]
R['without-block2'] = [(S + 'subsetEigen.cpp', '''  auto n = std::min(source.rows(), target.rows());
  target.topLeftCorner(index, index) = source.topLeftCorner(index, index);
  target.topRightCorner(index, n - index) = source.topRightCorner(index, n - index);
''', '''  auto n = source.rows() < target.rows() ? source.rows() : target.rows();
  auto rest = n - index;
  target.topRightCorner(index, rest) = source.topRightCorner(index, rest);
  target.topLeftCorner(index, index) = source.topLeftCorner(index, index);
''')]

# ------------------------------------------------------------------ MixedContinuousBelief
R['mixed-range'] = [(S + 'MixedContinuousBelief.cpp', '''  for(auto i = other.beliefs_.size() - other.beliefs_.size(); 
      i != other.beliefs_.size(); ++i) {
    beliefs_.push_back(other.beliefs_[i]);
    isInverted_.push_back(other.isInverted_[i]);
  }
''', '''  beliefs_.insert(beliefs_.end(), other.beliefs_.begin(), other.beliefs_.end());
  isInverted_.insert(isInverted_.end(), other.isInverted_.begin(), other.isInverted_.end());
''')]
R['mixed-idx'] = [(S + 'MixedContinuousBelief.cpp', '''  for(auto i = other.beliefs_.size() - other.beliefs_.size(); 
      i != other.beliefs_.size(); ++i) {
    beliefs_.push_back(other.beliefs_[i]);
    isInverted_.push_back(!other.isInverted_[i]);
  }
''', '''  for(const auto& belief : other.beliefs_)
    beliefs_.push_back(belief);
  for(std::size_t k = 0; k < other.isInverted_.size(); k++) {
    const bool inverted = other.isInverted_[k];
    isInverted_.push_back(!inverted);
  }
''')]
R['mixed-sign'] = [(S + 'MixedContinuousBelief.cpp', '''  for(auto i = beliefs_.begin(); i != beliefs_.end(); ++i) {
    int index = i - beliefs_.begin();
    auto relativeItems = relativeItems_.at(index);
    double beliefValue = i->evaluate(findSubset(x, relativeItems),
				     parameters);
    if(isInverted_.at(index))
      ret -= beliefValue;
    else
      ret += beliefValue;
  }''', '''  for(std::size_t index = 0; index < beliefs_.size(); ++index) {
    const auto& relativeItems = relativeItems_[index];
    const double sign = isInverted_[index] ? -1.0 : 1.0;
    ret += sign * beliefs_[index].evaluate(findSubset(x, relativeItems), parameters);
  }''')]
R['mixed-deriv'] = [(S + 'MixedContinuousBelief.cpp', '''    if(isInverted_.at(i - beliefs_.begin()))
      addVectorSubset(ret, relativeItems, -derivativeSubset);
    else
      addVectorSubset(ret, relativeItems, derivativeSubset);''', '''    const int sign = isInverted_.at(i - beliefs_.begin()) ? -1 : 1;
    addVectorSubset(ret, relativeItems, sign * derivativeSubset);''')]
R['mixed-proper'] = [(S + 'MixedContinuousBelief.cpp', '''  bool proper = true;
  auto normalMean = normalApprox_.getNormal().getMean();
  if(beliefs_.size() > 0) {
    auto evalAtMean = evaluate(normalMean, parameters);
    if(!std::isnormal(evalAtMean)) {
      proper = false;
    }
  }
  auto evalNormalAtMean = normalApprox_.evaluate(normalMean,
						 parameters);
  if(!std::isnormal(evalNormalAtMean)) {
    proper = false;
  }
  
  return proper;''', '''  auto normalMean = normalApprox_.getNormal().getMean();
  if(!beliefs_.empty() && !std::isnormal(evaluate(normalMean, parameters)))
    return false;
  return std::isnormal(normalApprox_.evaluate(normalMean, parameters));''')]
R['mixed-margin'] = [(S + 'MixedContinuousBelief.cpp', '''  MixedContinuousBelief marginalBelief(items);
  if(normalApproxOnly) {
    auto normalMargin = normalApprox_.margin(items);
    marginalBelief.setNormalApprox(normalMargin);
  }
  else {
    marginalBelief = *this;
    auto itemsIntegrate = findItemsDifference(items_, items);
    std::vector<int> integratedItems;
    auto remainingItems = items_;
    for(auto i = itemsIntegrate.begin(); i != itemsIntegrate.end(); ++i) {
      marginalBelief = marginalBelief.integrate(*i, parameters);
      integratedItems.push_back(*i);
      remainingItems = findItemsDifference(items_, integratedItems);
    }
  }

  return marginalBelief;''', '''  if(normalApproxOnly) {
    MixedContinuousBelief normalOnly(items);
    normalOnly.setNormalApprox(normalApprox_.margin(items));
    return normalOnly;
  }
  MixedContinuousBelief marginalBelief(*this);
  for(int item : findItemsDifference(items_, items))
    marginalBelief = marginalBelief.integrate(item, parameters);
  return marginalBelief;''')]
R['mixed-const'] = [(S + 'MixedContinuousBelief.cpp', '''  std::vector<int> itemsEmpty;
  auto beliefEmpty = margin(itemsEmpty, false, parameters);
  Eigen::VectorXd xEmpty = Eigen::VectorXd::Zero(0);
  return beliefEmpty.evaluate(xEmpty, parameters);''', '''  Eigen::VectorXd nothing(0);
  return margin(std::vector<int>(), false, parameters).evaluate(nothing, parameters);''')]
R['mixed-integrate'] = [(S + 'MixedContinuousBelief.cpp', '''  auto integral = [&integratedBelief, &parameters]
    (const Eigen::VectorXd& x) {
    return integratedBelief.evaluate
    (x, parameters.quadratureRule);
  };''', '''  const auto& rule = parameters.quadratureRule;
  auto integral = [&](const Eigen::VectorXd& point) {
    return integratedBelief.evaluate(point, rule);
  };'''), (S + 'MixedContinuousBelief.cpp', '''  auto remainingItems = items_;
  remainingItems.erase(remainingItems.begin() + relativeItem);
''', '''  std::vector<int> remainingItems(items_);
  remainingItems.erase(std::next(remainingItems.begin(), relativeItem));
''')]
R['mixed-recompute'] = [(S + 'MixedContinuousBelief.cpp', '''  relativeItems_.clear();
  for(auto belief : beliefs_)
    relativeItems_.push_back(findRelativeItems(belief.getItems(),
					       items_));''', '''  std::vector<std::vector<int>> positions;
  positions.reserve(beliefs_.size());
  for(const auto& belief : beliefs_) {
    auto items = belief.getItems();
    positions.push_back(findRelativeItems(items, items_));
  }
  relativeItems_ = positions;''')]

# ------------------------------------------------------------------ ClusterGraph
R['graph-calibrate'] = [(S + 'ClusterGraph.cpp', '''    for(auto e = edges_.begin(); e != edges_.end(); ++e)
      passMessage(*e, true, normalApproxOnly);
  } else {
    for(auto e = edges_.rbegin(); e != edges_.rend(); ++e)
      passMessage(*e, false, normalApproxOnly);
  }  ''', '''    for(auto& edge : edges_)
      passMessage(edge, true, normalApproxOnly);
    return;
  }
  for(int k = nEdges() - 1; k >= 0; --k)
    passMessage(edges_[k], false, normalApproxOnly);''')]
R['graph-message'] = [(S + 'ClusterGraph.cpp', '''  int i, j;
  if(forward) {
    i = edge.firstClusterId_;
    j = edge.secondClusterId_;
  } else {
    i = edge.secondClusterId_;
    j = edge.firstClusterId_;
  }

  auto oldEdgeBelief = edge.belief_;
  
  projectClusterOntoEdge(clusters_.at(i), edge, normalApproxOnly);

  clusters_.at(j) *= edge.belief_;
  clusters_.at(j) /= oldEdgeBelief;

  if(!clusters_.at(j).isProper(parameters_)) {''', '''  const int from = forward ? edge.firstClusterId_ : edge.secondClusterId_;
  const int to = forward ? edge.secondClusterId_ : edge.firstClusterId_;

  const MixedContinuousBelief previous = edge.belief_;
  projectClusterOntoEdge(clusters_.at(from), edge, normalApproxOnly);

  auto& target = clusters_.at(to);
  target *= edge.belief_;
  target /= previous;

  if(!target.isProper(parameters_)) {''')]
R['graph-setnormal'] = [(S + 'ClusterGraph.cpp', '''  for(auto& cluster : clusters_) {
    auto clusterItems = cluster.getItems();
    auto meanCluster = getVectorSubset(mean, clusterItems);
    auto precisionCluster =  getSparseMatrixSubset(precision, clusterItems);
    cluster.setNormalApprox(meanCluster, precisionCluster);
  }
''', '''  for(std::size_t k = 0; k < clusters_.size(); ++k) {
    auto& cluster = clusters_[k];
    const auto items = cluster.getItems();
    cluster.setNormalApprox(getVectorSubset(mean, items), getSparseMatrixSubset(precision, items));
  }
''')]
R['graph-populate'] = [(S + 'ClusterGraph.cpp', '''  std::copy_if(beliefs.begin(), beliefs.end(),
	       back_inserter(containedBeliefs), isContained);
  auto newEnd = std::remove_if(beliefs.begin(), beliefs.end(), isContained);
  beliefs.resize(newEnd - beliefs.begin());
''', '''  for(auto& belief : beliefs) {
    if(isContained(belief))
      containedBeliefs.push_back(belief);
  }
  beliefs.erase(std::remove_if(beliefs.begin(), beliefs.end(), isContained), beliefs.end());
''')]
R['graph-populate2'] = [(S + 'ClusterGraph.cpp', '''  std::copy_if(beliefs.begin(), beliefs.end(),
	       back_inserter(containedBeliefs), isContained);
  auto newEnd = std::remove_if(beliefs.begin(), beliefs.end(), isContained);
  beliefs.resize(newEnd - beliefs.begin());
''', '''  std::vector<MixedContinuousBelief> remaining;
  for(auto& belief : beliefs) {
    if(isContained(belief))
      containedBeliefs.push_back(belief);
    else
      remaining.push_back(belief);
  }
  beliefs = remaining;
''')]
R['graph-eliminate'] = [(S + 'ClusterGraph.cpp', '''    auto remainingItems = dependenceGraph.getItems();

    std::vector<int> candidates;
    candidates = remainingItems;
      
    // choose an item to eliminate
    int minSeparatorSize = remainingItems.size();
    int itemToEliminate = candidates.at(0);
    
    for(auto candidate : candidates) {
      auto candidateSeparator = dependenceGraph.findNeighbours(candidate);
      int separatorSize = candidateSeparator.size();

      if(separatorSize < minSeparatorSize) {
	itemToEliminate = candidate;
	minSeparatorSize = separatorSize;
      }
    }
''', '''    const auto candidates = dependenceGraph.getItems();
    int itemToEliminate = candidates.at(0);
    int smallest = candidates.size();
    for(std::size_t c = 0; c < candidates.size(); ++c) {
      const int size = dependenceGraph.findNeighbours(candidates[c]).size();
      if(!(size < smallest))
        continue;
      smallest = size;
      itemToEliminate = candidates[c];
    }
''')]
R['graph-helper'] = [(S + 'ClusterGraph.cpp', '''    // choose an item to eliminate
    int minSeparatorSize = remainingItems.size();
    int itemToEliminate = candidates.at(0);
    
    for(auto candidate : candidates) {
      auto candidateSeparator = dependenceGraph.findNeighbours(candidate);
      int separatorSize = candidateSeparator.size();

      if(separatorSize < minSeparatorSize) {
	itemToEliminate = candidate;
	minSeparatorSize = separatorSize;
      }
    }
''', '''    int itemToEliminate = chooseItem(dependenceGraph, candidates);
'''), (S + 'ClusterGraph.cpp', '''void ClusterGraph::initializeInternal(''', '''static int chooseItem(const Graph& graph, const std::vector<int>& candidates)
{
  int minSeparatorSize = candidates.size();
  int chosen = candidates.at(0);
  for(auto candidate : candidates) {
    int separatorSize = graph.findNeighbours(candidate).size();
    if(separatorSize < minSeparatorSize) {
      chosen = candidate;
      minSeparatorSize = separatorSize;
    }
  }
  return chosen;
}

void ClusterGraph::initializeInternal(''')]
R['graph-hanging'] = [(S + 'ClusterGraph.cpp', '''      if(isSubset(edges_.at(edgeId).belief_.getItems(), cluster)) {
	edges_.at(edgeId).secondClusterId_ = newClusterId;
      } else {
	newHangingEdgeIds.push_back(edgeId);
      }''', '''      auto& edge = edges_[edgeId];
      const bool absorbed = isSubset(edge.belief_.getItems(), cluster);
      if(!absorbed) {
        newHangingEdgeIds.push_back(edgeId);
        continue;
      }
      edge.secondClusterId_ = newClusterId;''')]
R['graph-lnc'] = [(S + 'ClusterGraph.cpp', '''  auto finalBelief = clusters_.at(nClusters() - 1);
  return finalBelief.computeLogNormalizingConstant(parameters_);''', '''  auto last = clusters_.back();
  return last.computeLogNormalizingConstant(parameters_);''')]
R['graph-width'] = [(S + 'ClusterGraph.cpp', '''  int width = 0;
  for(auto& cluster : clusters_)
    width = std::max(width, cluster.width());
  return width;''', '''  int largest = 0;
  for(const auto& cluster : clusters_) {
    if(cluster.width() > largest)
      largest = cluster.width();
  }
  return largest;''')]
R['graph-margin'] = [(S + 'ClusterGraph.cpp', '''  MixedContinuousBelief marginalBelief(items);

  int clusterId = 0;
  for(auto& cluster : clusters_) {
    if(isSubset(items, cluster.getItems())) {
      marginalBelief = cluster.margin(items, false, parameters_);
      break;
    }
    ++clusterId;
    if(clusterId == nClusters())
      throw std::domain_error("items not fully contained in any cluster");
  }
  return marginalBelief;''', '''  if(clusters_.empty())
    return MixedContinuousBelief(items);
  for(auto& cluster : clusters_) {
    if(isSubset(items, cluster.getItems()))
      return cluster.margin(items, false, parameters_);
  }
  throw std::domain_error("items not fully contained in any cluster");''')]
R['graph-ctor'] = [(S + 'ClusterGraph.cpp', '''  auto dependenceGraph = makeDependenceGraph(beliefs);
  initialize(dependenceGraph);
  populate(beliefs);''', '''  initialize(makeDependenceGraph(beliefs));
  populate(beliefs);''')]
R['graph-extract'] = [(S + 'ClusterGraph.cpp', '''  auto beliefs = clusters_;
  for(auto& edge : edges_) {
    beliefs.at(edge.secondClusterId_) /= edge.belief_;
  }
  return beliefs;''', '''  std::vector<MixedContinuousBelief> result(clusters_.begin(), clusters_.end());
  for(std::size_t e = 0; e < edges_.size(); ++e) {
    const Edge& edge = edges_[e];
    result[edge.secondClusterId_] /= edge.belief_;
  }
  return result;''')]

# ------------------------------------------------------------------ items
R['items-rel'] = [(S + 'itemsHelper.cpp', '''  auto relativeItem =  std::find(items.begin(), items.end(), item);
  if(relativeItem != items.end())
    return relativeItem - items.begin();
  else
    throw std::domain_error("item not contained in items");''', '''  for(std::size_t i = 0; i < items.size(); ++i) {
    if(items[i] == item)
      return i;
  }
  throw std::domain_error("item not contained in items");''')]
R['items-rels'] = [(S + 'itemsHelper.cpp', '''  std::vector<int> relativeItems;
  for(auto i = subset.begin(); i != subset.end(); ++i) {
    relativeItems.push_back(findRelativeItem(*i, items));
  }
  return relativeItems;''', '''  std::vector<int> positions(subset.size());
  std::transform(subset.begin(), subset.end(), positions.begin(),
                 [&items](int item) { return findRelativeItem(item, items); });
  return positions;''')]
R['items-diff'] = [(S + 'itemsHelper.cpp', '''  std::vector<int> difference;
  for(auto i = items.begin(); i != items.end(); ++i) {
    if(std::find(subset.begin(), subset.end(), *i) == subset.end())
      difference.push_back(*i);
  }
  return difference;''', '''  std::vector<int> difference;
  std::copy_if(items.begin(), items.end(), std::back_inserter(difference), [&subset](int item) {
    return std::count(subset.begin(), subset.end(), item) == 0;
  });
  return difference;''')]
R['items-union'] = [(S + 'itemsHelper.cpp', '''  std::vector<int> itemsUnion;
  auto first = items1;
  auto second = items2;
  std::sort(first.begin(), first.end());
  std::sort(second.begin(), second.end());
  std::set_union(first.begin(), first.end(),
		 second.begin(), second.end(),
		 back_inserter(itemsUnion));
                                              
  return itemsUnion;''', '''  std::vector<int> a(items1), b(items2), result;
  std::sort(b.begin(), b.end());
  std::sort(a.begin(), a.end());
  std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(result));
  return result;''')]

# ------------------------------------------------------------------ IntegratedFunction
R['int-eval'] = [(S + 'IntegratedFunction.cpp', '''  auto conditionalMean = findConditionalMean(x);
  auto integral = integrateNoLog(x, conditionalMean, rule);
  return log(integral) + logValueAtMean_;''', '''  const double integral = integrateNoLog(x, findConditionalMean(x), rule);
  return logValueAtMean_ + std::log(integral);''')]
R['int-second'] = [(S + 'IntegratedFunction.cpp', '''  Matrix numerator =  integral * integralSecondDerivative -
    integralDerivative * integralDerivative.transpose();
  return numerator / pow(integral, 2);''', '''  Vector gradient = integralDerivative / integral;
  Matrix hessian = integralSecondDerivative / integral;
  hessian -= gradient * gradient.transpose();
  return hessian;''')]
R['int-cond'] = [(S + 'IntegratedFunction.cpp', '''  double mu = mean1_;
  if(x.size() > 0)
    mu += cross_.dot(x - mean2_);
  
  return mu;''', '''  if(x.size() == 0)
    return mean1_;
  return mean1_ + cross_.dot(x - mean2_);''')]
R['int-f'] = [(S + 'IntegratedFunction.cpp', '''    Matrix ret = secondDerivative22;
    ret += cross_ * secondDerivative12.transpose();
    ret += secondDerivative12 * cross_.transpose();
    ret += cross_ * cross_.transpose() * secondDerivative11;
    Eigen::ArrayXXd retArray = ret.array();
    return retArray;''', '''    Matrix mixed = cross_ * secondDerivative12.transpose();
    Matrix total = secondDerivative22 + mixed + mixed.transpose()
      + secondDerivative11 * (cross_ * cross_.transpose());
    return Eigen::ArrayXXd(total.array());''')]
R['int-terms'] = [(S + 'IntegratedFunction.cpp', '''     double varianceConditional = variance11 - 
       (variance21.transpose() * cross_)(0, 0);
     sigmaConditional_ = sqrt(varianceConditional);''', '''     sigmaConditional_ = std::sqrt(variance11 - variance21.dot(cross_));''')]
R['int-order'] = [(S + 'IntegratedFunction.cpp', '''   auto mean = normal_.getMean();
   mean1_ = mean(integrateOver_);
   mean2_ = getVectorWithout(integrateOver_, mean);
''', ''''''), (S + 'IntegratedFunction.cpp', '''   auto variance = normal_.getVariance();
   if(variance.size() > 1) {''', '''   const Vector mean = normal_.getMean();
   mean2_ = getVectorWithout(integrateOver_, mean);
   mean1_ = mean[integrateOver_];
   auto variance = normal_.getVariance();
   if(variance.rows() > 1) {''')]

# ------------------------------------------------------------------ sparse grids
R['grid-size'] = [(S + 'SparseGrid.cpp', '''  for(auto i = 0; i < size(); ++i) {
    ret += coefficients_[i] * point.computeBasis(x, basis);
    if(i < size() - 1)
      point.advance();
  }
  return std::min(ret, bound_);''', '''  const int n = size();
  for(int i = 0; i < n; ++i) {
    if(i > 0)
      point.advance();
    ret += coefficients_[i] * point.computeBasis(x, basis);
  }
  return ret < bound_ ? ret : bound_;''')]
R['grid-deriv'] = [(S + 'SparseGrid.cpp', '''  Eigen::VectorXd ret;
  if(interpolate(x, basis) <  bound_) {
      ret = Eigen::VectorXd::Zero(d_);
      Point point(d_);
      for(auto i = 0; i < size(); ++i) {
	ret += coefficients_[i] * point.computeBasisDerivative(x, basis);
	if(i < size() - 1)
	  point.advance();
      }
  } else {
    ret = Eigen::VectorXd::Zero(d_);
  }
  return ret;''', '''  Eigen::VectorXd ret = Eigen::VectorXd::Zero(d_);
  if(!(interpolate(x, basis) < bound_))
    return ret;
  Point point(d_);
  for(auto i = 0; i < size(); ++i) {
    ret = ret + coefficients_[i] * point.computeBasisDerivative(x, basis);
    if(i + 1 < size())
      point.advance();
  }
  return ret;''')]
R['grid-store'] = [(S + 'SparseGrid.cpp', '''    Eigen::VectorXd gridPoint = point.getGridPoint(basis);
    coefficients_.at(i) = f(gridPoint);
    double value = coefficients_.at(i);
    if((i ==0) || (value > maximumStoredValue))
      maximumStoredValue = value;''', '''    const double value = f(point.getGridPoint(basis));
    coefficients_[i] = value;
    if(i == 0)
      maximumStoredValue = value;
    else
      maximumStoredValue = std::max(value, maximumStoredValue);''')]
R['grid-hier'] = [(S + 'SparseGrid.cpp', '''	double contribution = coefficients_.at(parent.getIndex());
	contribution *= basis.evaluate(knot, parent.getLevel(t), parent.getPosition(t));
	coefficients_.at(i) -= contribution;
	parent.advanceInDirection(t);''', '''	coefficients_[i] -= coefficients_[parent.getIndex()]
	  * basis.evaluate(knot, parent.getLevel(t), parent.getPosition(t));
	parent.advanceInDirection(t);''')]
R['point-basis'] = [(S + 'Point.cpp', '''  double ret = 1.0;
  auto d = levels_.size();
  for(auto t = d - d; t < d; ++t)
    ret *= basis.evaluate(x[t], levels_[t], positions_[t]);
  return ret;''', '''  double product = 1;
  for(std::size_t t = 0; t < levels_.size(); ++t)
    product = basis.evaluate(x(t), levels_.at(t), positions_.at(t)) * product;
  return product;''')]
R['point-deriv'] = [(S + 'Point.cpp', '''    for(auto s = d - d; s < d; ++s) {
      if(s == t)
	ret[s] *= basisDerivative;
      else
	ret[s] *= basisValue;
    }''', '''    for(std::size_t s = 0; s < d; ++s)
      ret(s) *= (s == t ? basisDerivative : basisValue);''')]
R['point-second'] = [(S + 'Point.cpp', '''        if(r == t) {
	  if(s == t)
	    ret(r, s) *= basisSecondDerivative;
	  else
	    ret(r, s) *= basisDerivative;
	} 
	else {
	  if(s == t)
	    ret(r, s) *= basisDerivative;
	  else
	    ret(r, s) *= basisValue;
	}''', '''        const int hits = (r == t) + (s == t);
        double factor = basisValue;
        if(hits == 2)
          factor = basisSecondDerivative;
        else if(hits == 1)
          factor = basisDerivative;
        ret(r, s) *= factor;''')]
R['point-advance'] = [(S + 'Point.cpp', '''  index_++;
  if(!advancePositions()) {
    // couldn't advance positions within grid with these levels
    // so move to the next levels
    if(!advanceLevels()) {
      // couldn't advance level within levels of current levelSum
      // so move to next levelSum
      levelSum_++;
      // and return levels to first value for the levelSum
      for(auto i = levels_.begin(); i != levels_.end(); ++i)
	*i = 0;
      levels_.at(0) = levelSum_;
    }
  }''', '''  ++index_;
  if(advancePositions() || advanceLevels())
    return;
  ++levelSum_;
  std::fill(levels_.begin(), levels_.end(), 0);
  levels_[0] = levelSum_;''')]
R['point-sum'] = [(S + 'Point.cpp', '''  levelSum_ = 0;
  for(std::vector<int>::const_iterator i = levels_.begin();
      i != levels_.end(); ++i)
    levelSum_ += *i;''', '''  int total = 0;
  for(int level : levels_)
    total += level;
  levelSum_ = total;''')]
R['point-positions'] = [(S + 'Point.cpp', '''  bool success = false;
  int t = 0;
  int d = positions_.size();
  while(!success & (t < d)) {
    success = advancePositionInDirection(t);
    ++t;
  }
  return success;''', '''  const int d = positions_.size();
  for(int t = 0; t < d; ++t) {
    if(advancePositionInDirection(t))
      return true;
  }
  return false;''')]
R['point-dir'] = [(S + 'Point.cpp', '''  bool success;
  if(positions_.at(direction) < ((1 << levels_.at(direction)) - 1)) {
    ++positions_.at(direction);
    success = true;
  } else {
    positions_.at(direction) = 0;
    success = false;
  }
  return success;''', '''  const int last = (1 << levels_[direction]) - 1;
  if(positions_[direction] >= last) {
    positions_[direction] = 0;
    return false;
  }
  positions_[direction] += 1;
  return true;''')]
R['point-eq'] = [(S + 'Point.cpp', '''  return (index_==other.index_) & (levels_==other.levels_) & (positions_==other.positions_) & (levelSum_ == other.levelSum_);''',
                  '''  return index_ == other.index_ && levelSum_ == other.levelSum_ && levels_ == other.levels_ && positions_ == other.positions_;''')]
R['level-eval'] = [(S + 'BasisLevel.cpp', '''  int intervalId = findIntervalId(x);
  double ret = 0;
  double xToPower = 1.0;
  if(level_ > 0) {
    for(int i = 0; i != 4; ++i) {
      ret += splineCoefficients_(4 * intervalId + i, position) * xToPower;
      xToPower *= x;
    }
  } else {
    ret = 1;
  }
  return ret;''', '''  if(level_ == 0)
    return 1;
  const int row = 4 * findIntervalId(x);
  double value = 0;
  for(int i = 3; i >= 0; --i)
    value = value * x + splineCoefficients_(row + i, position);
  return value;''')]
R['level-deriv'] = [(S + 'BasisLevel.cpp', '''    for(int i = 1; i != 4; ++i) {
       ret += splineCoefficients_(4 * intervalId + i, position) * i * xToPower;
       xToPower *= x;
    }''', '''    for(int i = 1; i < 4; i++) {
       const double coefficient = splineCoefficients_(4 * intervalId + i, position);
       ret += i * coefficient * pow(x, i - 1);
    }''')]
R['level-knots'] = [(S + 'BasisLevel.cpp', '''    prob = (2.0 * i + 1.0) / (2.0 * N);
    knot = scale_ * quantile(standardNormal, prob);
    knotId = knot / bandwidth_;
    knotToGrid = knotId * bandwidth_;
    knots_.push_back(knotToGrid);''', '''    prob = (i + 0.5) / N;
    knot = quantile(standardNormal, prob) * scale_;
    knotId = static_cast<int>(knot / bandwidth_);
    knots_.push_back(bandwidth_ * knotId);''')]
R['level-interval'] = [(S + 'BasisLevel.cpp', '''  int ret = 0;
  if(x > knots_.at(0)) {
     unsigned int xToGrid = (x - knots_.at(0)) / bandwidth_;
     if(xToGrid < gridIds_.size())
       ret = gridIds_[xToGrid];
     else
       ret = (2 << level_) - 1;
  }
  return ret;''', '''  const double first = knots_[0];
  if(x <= first)
    return 0;
  const unsigned int cell = (x - first) / bandwidth_;
  return cell < gridIds_.size() ? gridIds_[cell] : (2 << level_) - 1;''')]
R['counting'] = [(S + 'counting.cpp', '''  int i, c = 1;
  for (i = k + 1; i <= n; ++i) {
    c *= i;
    c /= i - k;
  }
  return c;''', '''  int c = 1;
  for (int m = 1; m <= n - k; ++m)
    c = c * (k + m) / m;
  return c;''')]
R['counting2'] = [(S + 'counting.cpp', '''  int out = 0;
  if(d > 0) {
    for(int i = 0; i < k + 1; ++i){
      out += choose(d - 1 + i, i) * (1 << i);
    }
  } else {
    out = 1;
  }
  return out;''', '''  if(d <= 0)
    return 1;
  int total = 0;
  int weight = 1;
  for(int i = 0; i <= k; ++i, weight *= 2)
    total += weight * choose(d - 1 + i, i);
  return total;''')]
R['basis-ctor'] = [(S + 'Basis.cpp', '''  for(int l = 0; l < (levelMax + 1); ++l)
    basisLevels_.push_back(BasisLevel(l, levelMax));''', '''  basisLevels_.reserve(levelMax + 1);
  for(int level = 0; level <= levelMax; level++)
    basisLevels_.emplace_back(level, levelMax);''')]


def apply(name, tree):
    for e in R[name]:
        p = os.path.join(tree, e[0])
        s = open(p).read()
        n = e[3] if len(e) > 3 else 1
        if not s.count(e[1]):
            m = re.findall(r'\s+'.join(map(re.escape, e[1].split())), s)      # up to layout
            if len(m) == 1:
                e = (e[0], m[0], e[2].strip()) + tuple(e[3:])
        if not s.count(e[1]) or (len(e) <= 3 and s.count(e[1]) != 1):
            raise ValueError("%s: %d occurrences in %s of %r" % (name, s.count(e[1]), e[0], e[1][:60]))
        open(p, 'w').write(s.replace(e[1], e[2]))


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(name):
    d = tempfile.mkdtemp(prefix='refc')
    try:
        for x in ('src', 'inst', 'R', 'DESCRIPTION', 'NAMESPACE'):
            s = os.path.join('/repo', x)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, x))
        try:
            apply(name, d)
        except ValueError as e:
            return name, '  NOT APPLIED %s\n' % e
        r = subprocess.run(['python3-vt', os.path.join(HERE, 'dev/refc_one.py'), d], capture_output=True, text=True)
        return name, r.stdout + r.stderr[-800:]
    finally:
        shutil.rmtree(d)


def main(names):
    with ThreadPoolExecutor(6) as ex:
        for name, out in ex.map(one, names or sorted(R)):
            print('==', name)
            print(out, end='')


if __name__ == '__main__':
    import refc_extra  # noqa
    R.update(refc_extra.R)
    main(sys.argv[1:])
