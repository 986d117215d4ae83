"""Second set of behaviour-preserving edits of the C++ sources (the same rule: none may be reported).   refc2.py [NAME...]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refc
from concurrent.futures import ThreadPoolExecutor
S, H = 'src/', 'inst/include/'
R = refc.R
R.clear()


def r(name, file, *pairs):
    R.setdefault(name, [])
    R[name] += [((S if file.endswith('.cpp') else H) + file,) + tuple(p) for p in pairs]


M = 'MixedContinuousBelief.cpp'
r('mb-mul-helper', M, ('''  items_ = normalApprox_.getItems();
  
  for(auto i = other.beliefs_.size() - other.beliefs_.size(); 
      i != other.beliefs_.size(); ++i) {
    beliefs_.push_back(other.beliefs_[i]);
    isInverted_.push_back(other.isInverted_[i]);
  }

  recomputeRelativeItems();
}
''', '''  appendBeliefs(other, false);
}

void MixedContinuousBelief::appendBeliefs(const MixedContinuousBelief& other, bool invert)
{
  items_ = normalApprox_.getItems();
  for(std::size_t i = 0; i < other.beliefs_.size(); ++i) {
    beliefs_.push_back(other.beliefs_[i]);
    const bool wasInverted = other.isInverted_[i];
    isInverted_.push_back(invert ? !wasInverted : wasInverted);
  }
  recomputeRelativeItems();
}
'''), ('''  items_ = normalApprox_.getItems();
  
  for(auto i = other.beliefs_.size() - other.beliefs_.size(); 
      i != other.beliefs_.size(); ++i) {
    beliefs_.push_back(other.beliefs_[i]);
    isInverted_.push_back(!other.isInverted_[i]);
  }
  recomputeRelativeItems();
''', '''  appendBeliefs(other, true);
'''))
r('mb-mul-helper', 'MixedContinuousBelief.h', ('''  void recomputeRelativeItems();''', '''  void recomputeRelativeItems();
  void appendBeliefs(const MixedContinuousBelief& other, bool invert);'''))
r('mb-mul-insert', M, ('''    beliefs_.push_back(other.beliefs_[i]);
    isInverted_.push_back(other.isInverted_[i]);
''', '''    isInverted_.push_back(other.isInverted_[i]);
    beliefs_.push_back(other.beliefs_[i]);
'''))
r('mb-mul-count', M, ('''  for(auto i = other.beliefs_.size() - other.beliefs_.size(); 
      i != other.beliefs_.size(); ++i) {
    beliefs_.push_back(other.beliefs_[i]);
    isInverted_.push_back(!other.isInverted_[i]);
  }''', '''  const auto numOther = other.beliefs_.size();
  std::size_t i = 0;
  while(i < numOther) {
    beliefs_.push_back(other.beliefs_.at(i));
    isInverted_.push_back(!other.isInverted_.at(i));
    i += 1;
  }'''))
r('mb-fixed-early', M, ('''  if(!isNormalFixed_)
    normalApprox_ = NormalBelief(items_, mean, precision);''', '''  if(isNormalFixed_)
    return;

  NormalBelief approx(items_, mean, precision);
  normalApprox_ = approx;'''))
r('mb-fixed-delegate', M, ('''  if(!isNormalFixed_)
    normalApprox_ = NormalBelief(items_, mean, precision);''', '''  setNormalApprox(NormalBelief(items_, mean, precision));'''))
r('mb-eval-sign', M, ('''    if(isInverted_.at(index))
      ret -= beliefValue;
    else
      ret += beliefValue;
''', '''    const double sign = isInverted_.at(index) ? -1.0 : 1.0;
    ret += sign * beliefValue;
'''))
r('mb-eval-index', M, ('''  for(auto i = beliefs_.begin(); i != beliefs_.end(); ++i) {
    int index = i - beliefs_.begin();
    auto relativeItems = relativeItems_.at(index);
    double beliefValue = i->evaluate(findSubset(x, relativeItems),
				     parameters);
''', '''  for(std::size_t index = 0; index < beliefs_.size(); ++index) {
    const auto& relativeItems = relativeItems_.at(index);
    const Eigen::VectorXd xBelief = findSubset(x, relativeItems);
    const double beliefValue = beliefs_[index].evaluate(xBelief, parameters);
'''))
r('mb-deriv-neg', M, ('''    auto derivativeSubset =  i->evaluateDerivative(xSubset, 
						   parameters);
    if(isInverted_.at(i - beliefs_.begin()))
      addVectorSubset(ret, relativeItems, -derivativeSubset);
    else
      addVectorSubset(ret, relativeItems, derivativeSubset);
''', '''    Eigen::VectorXd derivativeSubset =  i->evaluateDerivative(xSubset, parameters);
    if(isInverted_.at(i - beliefs_.begin()))
      derivativeSubset = -derivativeSubset;
    addVectorSubset(ret, relativeItems, derivativeSubset);
'''))
r('mb-deriv-rel', M, ('''    auto relativeItems = findRelativeItems(i->getItems(), items_);
    auto xSubset = findSubset(x, relativeItems);
    auto secondDerivativeSubset''', '''    const std::vector<int> beliefItems = i->getItems();
    const std::vector<int> relativeItems = findRelativeItems(beliefItems, items_);
    const auto xSubset = findSubset(x, relativeItems);
    auto secondDerivativeSubset'''))
r('mb-proper', M, ('''  bool proper = true;
  auto normalMean = normalApprox_.getNormal().getMean();
  if(beliefs_.size() > 0) {
    auto evalAtMean = evaluate(normalMean, parameters);
    if(!std::isnormal(evalAtMean)) {
      proper = false;
    }
  }
  auto evalNormalAtMean = normalApprox_.evaluate(normalMean,
						 parameters);
  if(!std::isnormal(evalNormalAtMean)) {
    proper = false;
  }
  
  return proper;''', '''  const auto normalMean = normalApprox_.getNormal().getMean();
  if(!beliefs_.empty() && !std::isnormal(evaluate(normalMean, parameters)))
    return false;
  return std::isnormal(normalApprox_.evaluate(normalMean, parameters));'''))
r('mb-margin-else', M, ('''  MixedContinuousBelief marginalBelief(items);
  if(normalApproxOnly) {
    auto normalMargin = normalApprox_.margin(items);
    marginalBelief.setNormalApprox(normalMargin);
  }
  else {
    marginalBelief = *this;
    auto itemsIntegrate = findItemsDifference(items_, items);
    std::vector<int> integratedItems;
    auto remainingItems = items_;
    for(auto i = itemsIntegrate.begin(); i != itemsIntegrate.end(); ++i) {
      marginalBelief = marginalBelief.integrate(*i, parameters);
      integratedItems.push_back(*i);
      remainingItems = findItemsDifference(items_, integratedItems);
    }
  }

  return marginalBelief;''', '''  if(normalApproxOnly) {
    MixedContinuousBelief normalOnly(items);
    normalOnly.setNormalApprox(normalApprox_.margin(items));
    return normalOnly;
  }

  MixedContinuousBelief marginalBelief = *this;
  for(int item : findItemsDifference(items_, items))
    marginalBelief = marginalBelief.integrate(item, parameters);
  return marginalBelief;'''))
r('mb-int-erase', M, ('''  auto remainingItems = items_;
  remainingItems.erase(remainingItems.begin() + relativeItem);

''', '''  std::vector<int> remainingItems(items_);
  auto position = remainingItems.begin();
  position += relativeItem;
  remainingItems.erase(position);

'''))
r('mb-int-order', M, ('''  auto normalApprox = normalApprox_.getNormal();
  
  int relativeItem = findRelativeItem(item, items_);
''', '''  const int relativeItem = findRelativeItem(item, items_);
  const auto normalApprox = normalApprox_.getNormal();
'''), ('''  MixedContinuousBelief marginalBelief(belief);
  marginalBelief.setNormalApprox(normalApprox_.margin(remainingItems));
  return marginalBelief;''', '''  const auto marginalApprox = normalApprox_.margin(remainingItems);
  MixedContinuousBelief ret(belief);
  ret.setNormalApprox(marginalApprox);
  return ret;'''))
r('mb-rel-loop', M, ('''  relativeItems_.clear();
  for(auto belief : beliefs_)
    relativeItems_.push_back(findRelativeItems(belief.getItems(),
					       items_));''', '''  std::vector<std::vector<int> > relativeItems;
  relativeItems.reserve(beliefs_.size());
  for(const auto& belief : beliefs_) {
    relativeItems.push_back(findRelativeItems(belief.getItems(), items_));
  }
  relativeItems_ = relativeItems;'''))
r('mb-lognorm', M, ('''  std::vector<int> itemsEmpty;
  auto beliefEmpty = margin(itemsEmpty, false, parameters);
  Eigen::VectorXd xEmpty = Eigen::VectorXd::Zero(0);
  return beliefEmpty.evaluate(xEmpty, parameters);''', '''  const Eigen::VectorXd nothing(0);
  return margin(std::vector<int>(), false, parameters).evaluate(nothing, parameters);'''))
r('mb-ctor', M, ('''    beliefs_.push_back(belief);
    isInverted_.push_back(false);
    recomputeRelativeItems();
''', '''    isInverted_.push_back(false);
    beliefs_.push_back(belief);
    recomputeRelativeItems();
'''))

C = 'ClusterGraph.cpp'
r('cg-pass-swap', C, ('''  int i, j;
  if(forward) {
    i = edge.firstClusterId_;
    j = edge.secondClusterId_;
  } else {
    i = edge.secondClusterId_;
    j = edge.firstClusterId_;
  }
''', '''  const int i = forward ? edge.firstClusterId_ : edge.secondClusterId_;
  const int j = forward ? edge.secondClusterId_ : edge.firstClusterId_;
'''))
r('cg-pass-std-swap', C, ('''  int i, j;
  if(forward) {
    i = edge.firstClusterId_;
    j = edge.secondClusterId_;
  } else {
    i = edge.secondClusterId_;
    j = edge.firstClusterId_;
  }
''', '''  int i = edge.firstClusterId_;
  int j = edge.secondClusterId_;
  if(!forward)
    std::swap(i, j);
'''))
r('cg-pass-ref', C, ('''  projectClusterOntoEdge(clusters_.at(i), edge, normalApproxOnly);

  clusters_.at(j) *= edge.belief_;
  clusters_.at(j) /= oldEdgeBelief;

  if(!clusters_.at(j).isProper(parameters_)) {
    throw''', '''  projectClusterOntoEdge(clusters_.at(i), edge, normalApproxOnly);

  auto& receiver = clusters_.at(j);
  receiver *= edge.belief_;
  receiver /= oldEdgeBelief;

  const bool proper = receiver.isProper(parameters_);
  if(!proper) {
    throw'''))
r('cg-pass-inline', C, ('''  projectClusterOntoEdge(clusters_.at(i), edge, normalApproxOnly);
''', '''  edge.belief_ = clusters_.at(i).margin(edge.belief_.getItems(), normalApproxOnly, parameters_);
'''))
r('cg-cal-index', C, ('''    for(auto e = edges_.begin(); e != edges_.end(); ++e)
      passMessage(*e, true, normalApproxOnly);
  } else {
    for(auto e = edges_.rbegin(); e != edges_.rend(); ++e)
      passMessage(*e, false, normalApproxOnly);
  }  ''', '''    for(int e = 0; e < nEdges(); ++e)
      passMessage(edges_[e], true, normalApproxOnly);
  } else {
    for(int e = nEdges() - 1; e >= 0; --e)
      passMessage(edges_[e], false, normalApproxOnly);
  }'''))
r('cg-cal-two', C, ('''  if(forward) {
    for(auto e = edges_.begin(); e != edges_.end(); ++e)
      passMessage(*e, true, normalApproxOnly);
  } else {
    for(auto e = edges_.rbegin(); e != edges_.rend(); ++e)
      passMessage(*e, false, normalApproxOnly);
  }  
''', '''  if(forward)
    sendForward(normalApproxOnly);
  else
    sendBackward(normalApproxOnly);
}

void ClusterGraph::sendForward(bool normalApproxOnly)
{
  for(auto& edge : edges_)
    passMessage(edge, true, normalApproxOnly);
}

void ClusterGraph::sendBackward(bool normalApproxOnly)
{
  for(auto e = edges_.rbegin(); e != edges_.rend(); ++e)
    passMessage(*e, false, normalApproxOnly);
'''))
r('cg-cal-two', 'ClusterGraph.h', ('''  void calibrateInternal(''', '''  void sendForward(bool normalApproxOnly);
  void sendBackward(bool normalApproxOnly);
  void calibrateInternal('''))
r('cg-set-helper', C, ('''  for(auto& cluster : clusters_) {
    auto clusterItems = cluster.getItems();
    auto meanCluster = getVectorSubset(mean, clusterItems);
    auto precisionCluster =  getSparseMatrixSubset(precision, clusterItems);
    cluster.setNormalApprox(meanCluster, precisionCluster);
  }
  for(auto& edge : edges_) {
    auto edgeItems = edge.belief_.getItems();
    auto meanEdge = getVectorSubset(mean, edgeItems);
    auto precisionEdge =  getSparseMatrixSubset(precision, edgeItems);
    edge.belief_.setNormalApprox(meanEdge, precisionEdge);
  }
''', '''  auto setOne = [&mean, &precision](MixedContinuousBelief& belief) {
    const auto items = belief.getItems();
    belief.setNormalApprox(getVectorSubset(mean, items),
			   getSparseMatrixSubset(precision, items));
  };
  for(auto& cluster : clusters_)
    setOne(cluster);
  for(auto& edge : edges_)
    setOne(edge.belief_);
'''))
r('cg-set-order', C, ('''  for(auto& cluster : clusters_) {
    cluster.fixNormalApprox();
  }
  for(auto& edge : edges_) {
    edge.belief_.fixNormalApprox();
  }
''', '''  for(auto& edge : edges_)
    edge.belief_.fixNormalApprox();
  for(auto& cluster : clusters_)
    cluster.fixNormalApprox();
'''))
r('cg-margin-ret', C, ('''  MixedContinuousBelief marginalBelief(items);

  int clusterId = 0;
  for(auto& cluster : clusters_) {
    if(isSubset(items, cluster.getItems())) {
      marginalBelief = cluster.margin(items, false, parameters_);
      break;
    }
    ++clusterId;
    if(clusterId == nClusters())
      throw std::domain_error("items not fully contained in any cluster");
  }
  return marginalBelief;''', '''  for(int clusterId = 0; clusterId < nClusters(); ++clusterId) {
    auto& cluster = clusters_.at(clusterId);
    if(isSubset(items, cluster.getItems()))
      return cluster.margin(items, false, parameters_);
    if(clusterId + 1 == nClusters())
      throw std::domain_error("items not fully contained in any cluster");
  }
  return MixedContinuousBelief(items);'''))
r('cg-elim-choose', C, ('''    // choose an item to eliminate
    int minSeparatorSize = remainingItems.size();
    int itemToEliminate = candidates.at(0);
    
    for(auto candidate : candidates) {
      auto candidateSeparator = dependenceGraph.findNeighbours(candidate);
      int separatorSize = candidateSeparator.size();

      if(separatorSize < minSeparatorSize) {
	itemToEliminate = candidate;
	minSeparatorSize = separatorSize;
      }
    }
''', '''    const int itemToEliminate = chooseItem(dependenceGraph, candidates);
'''), ('''void ClusterGraph::initializeInternal(''', '''int chooseItem(const Graph& graph, const std::vector<int>& candidates)
{
  int smallest = candidates.size();
  int chosen = candidates.at(0);
  for(std::size_t k = 0; k < candidates.size(); ++k) {
    const int size = graph.findNeighbours(candidates[k]).size();
    if(size < smallest) {
      smallest = size;
      chosen = candidates[k];
    }
  }
  return chosen;
}

void ClusterGraph::initializeInternal('''))
r('cg-elim-return', C, ('''    clusters_.push_back(dependenceGraph.getItems());
  }
  else {
    auto remainingItems''', '''    clusters_.push_back(dependenceGraph.getItems());
    return;
  }
  {
    auto remainingItems'''))
r('cg-elim-ids', C, ('''    auto newClusterId = clusters_.size();
    clusters_.push_back(cluster);

    std::vector<int> newHangingEdgeIds;
    auto newEdgeId = edges_.size();
    edges_.push_back(Edge(newClusterId, -1, separator));
''', '''    clusters_.push_back(cluster);
    edges_.push_back(Edge(clusters_.size() - 1, -1, separator));
    const int newClusterId = clusters_.size() - 1;
    const int newEdgeId = edges_.size() - 1;
    std::vector<int> newHangingEdgeIds;
'''))
r('cg-elim-connect', C, ('''    auto separator = dependenceGraph.findNeighbours(itemToEliminate);
    std::vector<int> itemsToEliminate = {itemToEliminate};
    auto cluster = findItemsUnion(itemsToEliminate, separator);
''', '''    const auto separator = dependenceGraph.findNeighbours(itemToEliminate);
    std::vector<int> itemsToEliminate;
    itemsToEliminate.push_back(itemToEliminate);
    const std::vector<int> cluster = findItemsUnion(itemsToEliminate, separator);
'''))
r('cg-pop-one', C, ('''
  std::vector<MixedContinuousBelief> containedBeliefs;

  auto isContained = [&cluster](MixedContinuousBelief& belief) {
    return isSubset(belief, cluster);
  };
  
  std::copy_if(beliefs.begin(), beliefs.end(),
	       back_inserter(containedBeliefs), isContained);
  auto newEnd = std::remove_if(beliefs.begin(), beliefs.end(), isContained);
  beliefs.resize(newEnd - beliefs.begin());

''', '''
  std::vector<MixedContinuousBelief> containedBeliefs;
  std::vector<MixedContinuousBelief> otherBeliefs;
  for(auto& belief : beliefs) {
    if(isSubset(belief, cluster))
      containedBeliefs.push_back(belief);
    else
      otherBeliefs.push_back(belief);
  }
  beliefs = otherBeliefs;
'''))
r('cg-pop-erase', C, ('''  auto newEnd = std::remove_if(beliefs.begin(), beliefs.end(), isContained);
  beliefs.resize(newEnd - beliefs.begin());
''', '''  beliefs.erase(std::remove_if(beliefs.begin(), beliefs.end(), isContained), beliefs.end());
'''))
r('cg-width', C, ('''  for(auto& cluster : clusters_)
    width = std::max(width, cluster.width());
  return width;''', '''  for(std::size_t i = 0; i != clusters_.size(); ++i) {
    const int w = clusters_[i].width();
    if(w > width)
      width = w;
  }
  return width;'''))
r('cg-last', C, ('''  auto finalBelief = clusters_.at(nClusters() - 1);
  return finalBelief.computeLogNormalizingConstant(parameters_);''', '''  return clusters_.at(clusters_.size() - 1).computeLogNormalizingConstant(parameters_);'''))
r('cg-extract', C, ('''  auto beliefs = clusters_;
  for(auto& edge : edges_) {
    beliefs.at(edge.secondClusterId_) /= edge.belief_;
  }
  return beliefs;''', '''  std::vector<MixedContinuousBelief> ret(clusters_);
  for(auto e = edges_.cbegin(); e != edges_.cend(); ++e)
    ret.at(e->secondClusterId_) /= e->belief_;
  return ret;'''))

G = 'SparseGrid.cpp'
r('sg-interp', G, ('''  for(auto i = 0; i < size(); ++i) {
    ret += coefficients_[i] * point.computeBasis(x, basis);
    if(i < size() - 1)
      point.advance();
  }
  return std::min(ret, bound_);''', '''  const int numPoints = size();
  for(int i = 0; i < numPoints; ++i) {
    if(i > 0)
      point.advance();
    ret += coefficients_[i] * point.computeBasis(x, basis);
  }
  return ret < bound_ ? ret : bound_;'''))
r('sg-deriv-early', G, ('''  Eigen::VectorXd ret;
  if(interpolate(x, basis) <  bound_) {
      ret = Eigen::VectorXd::Zero(d_);
      Point point(d_);
      for(auto i = 0; i < size(); ++i) {
	ret += coefficients_[i] * point.computeBasisDerivative(x, basis);
	if(i < size() - 1)
	  point.advance();
      }
  } else {
    ret = Eigen::VectorXd::Zero(d_);
  }
  return ret;''', '''  Eigen::VectorXd ret = Eigen::VectorXd::Zero(d_);
  if(interpolate(x, basis) >= bound_)
    return ret;

  Point point(d_);
  for(auto i = 0; i < size(); ++i) {
    ret += coefficients_[i] * point.computeBasisDerivative(x, basis);
    if(i < size() - 1)
      point.advance();
  }
  return ret;''')) # differs when the interpolated value is NaN
r('sg-deriv-flag', G, ('''  Eigen::MatrixXd ret;
  if(interpolate(x, basis) <  bound_) {
    ret = Eigen::MatrixXd::Zero(d_, d_);
    Point point(d_);
    for(auto i = 0; i < size(); ++i) {
      ret += coefficients_[i] * point.computeBasisSecondDerivative(x, basis);
      if(i < size() - 1)
	point.advance();
    }
  } else {
    ret = Eigen::MatrixXd::Zero(d_, d_);
  }
  return ret;''', '''  Eigen::MatrixXd ret = Eigen::MatrixXd::Zero(d_, d_);
  const bool belowBound = interpolate(x, basis) < bound_;
  if(belowBound) {
    Point point(d_);
    const int last = size() - 1;
    for(int i = 0; i <= last; ++i) {
      Eigen::MatrixXd term = point.computeBasisSecondDerivative(x, basis);
      ret += coefficients_[i] * term;
      if(i != last)
	point.advance();
    }
  }
  return ret;'''))
r('sg-store-max', G, ('''  double maximumStoredValue;
  for(auto i = 0; i < size(); ++i) {
    Eigen::VectorXd gridPoint = point.getGridPoint(basis);
    coefficients_.at(i) = f(gridPoint);
    double value = coefficients_.at(i);
    if((i ==0) || (value > maximumStoredValue))
      maximumStoredValue = value;
    if(i < size() - 1)
      point.advance();
  }
  bound_ = maximumStoredValue;''', '''  for(auto i = 0; i < size(); ++i) {
    const double value = f(point.getGridPoint(basis));
    coefficients_.at(i) = value;
    if(i == 0)
      bound_ = value;
    else if(value > bound_)
      bound_ = value;
    if(i < size() - 1)
      point.advance();
  }'''))
r('sg-hier', G, ('''      while(parent.getLevel(t) < point.getLevel(t)) {
	double contribution = coefficients_.at(parent.getIndex());
	contribution *= basis.evaluate(knot, parent.getLevel(t), parent.getPosition(t));
	coefficients_.at(i) -= contribution;
	parent.advanceInDirection(t);
      }''', '''      const int level = point.getLevel(t);
      for(; parent.getLevel(t) < level; parent.advanceInDirection(t)) {
	const double weight = basis.evaluate(knot, parent.getLevel(t), parent.getPosition(t));
	coefficients_.at(i) -= weight * coefficients_.at(parent.getIndex());
      }'''))
r('sg-ctor', G, ('''  k_(k), d_(d), coefficients_(findNumGridPoints(d, k))
{
  Basis basis(k);
  initialize(f, basis);''', '''  k_(k), d_(d), coefficients_(findNumGridPoints(d_, k_))
{
  initialize(f, Basis(k));''')) if False else None

P = 'Point.cpp'
r('pt-deriv', P, ('''    for(auto s = d - d; s < d; ++s) {
      if(s == t)
	ret[s] *= basisDerivative;
      else
	ret[s] *= basisValue;
    }''', '''    for(std::size_t s = 0; s < d; ++s)
      ret[s] *= (s == t) ? basisDerivative : basisValue;'''))
r('pt-second', P, ('''        if(r == t) {
	  if(s == t)
	    ret(r, s) *= basisSecondDerivative;
	  else
	    ret(r, s) *= basisDerivative;
	} 
	else {
	  if(s == t)
	    ret(r, s) *= basisDerivative;
	  else
	    ret(r, s) *= basisValue;
	}''', '''	const int times = (r == t) + (s == t);
	if(times == 2)
	  ret(r, s) *= basisSecondDerivative;
	else if(times == 1)
	  ret(r, s) *= basisDerivative;
	else
	  ret(r, s) *= basisValue;'''))
r('pt-second-or', P, ('''        if(r == t) {
	  if(s == t)
	    ret(r, s) *= basisSecondDerivative;
	  else
	    ret(r, s) *= basisDerivative;
	} 
	else {
	  if(s == t)
	    ret(r, s) *= basisDerivative;
	  else
	    ret(r, s) *= basisValue;
	}''', '''	double factor = basisValue;
	if(r == t && s == t)
	  factor = basisSecondDerivative;
	else if(r == t || s == t)
	  factor = basisDerivative;
	ret(r, s) *= factor;'''))
r('pt-advance', P, ('''  index_++;
  if(!advancePositions()) {
    // couldn't advance positions within grid with these levels
    // so move to the next levels
    if(!advanceLevels()) {
      // couldn't advance level within levels of current levelSum
      // so move to next levelSum
      levelSum_++;
      // and return levels to first value for the levelSum
      for(auto i = levels_.begin(); i != levels_.end(); ++i)
	*i = 0;
      levels_.at(0) = levelSum_;
    }
  }''', '''  ++index_;
  if(advancePositions())
    return;
  if(advanceLevels())
    return;
  ++levelSum_;
  std::fill(levels_.begin(), levels_.end(), 0);
  levels_.at(0) = levelSum_;'''))
r('pt-posdir', P, ('''  bool success;
  if(positions_.at(direction) < ((1 << levels_.at(direction)) - 1)) {
    ++positions_.at(direction);
    success = true;
  } else {
    positions_.at(direction) = 0;
    success = false;
  }
  return success;''', '''  const int lastPosition = (1 << levels_.at(direction)) - 1;
  if(positions_.at(direction) >= lastPosition) {
    positions_.at(direction) = 0;
    return false;
  }
  positions_.at(direction) += 1;
  return true;'''))
r('pt-advpos', P, ('''  bool success = false;
  int t = 0;
  int d = positions_.size();
  while(!success & (t < d)) {
    success = advancePositionInDirection(t);
    ++t;
  }
  return success;''', '''  const int d = positions_.size();
  for(int t = 0; t < d; ++t) {
    if(advancePositionInDirection(t))
      return true;
  }
  return false;'''))
r('pt-sum', P, ('''  levelSum_ = 0;
  for(std::vector<int>::const_iterator i = levels_.begin();
      i != levels_.end(); ++i)
    levelSum_ += *i;''', '''  int total = 0;
  for(int level : levels_)
    total += level;
  levelSum_ = total;'''))
r('pt-idx', P, ('''  int index3 = 0;
  for(auto s = 0; s < sum; ++s)
    index3 += choose(dimension - 1 + s, dimension - 1) * (1 << s);

  index_ = index1 + index2 + index3;''', '''  index_ = index1 + index2;
  for(auto s = 0; s < sum; ++s)
    index_ += (1 << s) * choose(dimension + s - 1, dimension - 1);'''))
r('pt-idx2', P, ('''    index2 -= choose(t + sum, t);
    sum += levels_.at(t);
    index2 += choose(t + sum, t);
''', '''    const int newSum = sum + levels_.at(t);
    index2 += choose(t + newSum, t) - choose(t + sum, t);
    sum = newSum;
'''))
r('pt-parent', P, ('''  parent.levels_.at(direction) = 0;
  parent.positions_.at(direction) = 0;
  parent.setLevelSum();
  parent.setIndex();
''', '''  parent.positions_.at(direction) = 0;
  parent.levels_.at(direction) = 0;
  parent.setIndex();
  parent.setLevelSum();
'''))
r('pt-levels', P, ('''  bool success = false;
  if(levels_.back() < levelSum_) {
    success = true;
    std::vector<int> oldLevels(levels_);
    int t = 0;
    while(levels_[t] == 0)
      ++t;
    levels_[t] = 0;
    levels_[0] = oldLevels[t] - 1;
    levels_[t+1] = oldLevels[t+1] + 1;
  }
  return success;''', '''  if(levels_.back() >= levelSum_)
    return false;
  int t = 0;
  while(levels_[t] == 0)
    ++t;
  const int level = levels_[t];
  levels_[t] = 0;
  levels_[0] = level - 1;
  levels_[t + 1] += 1;
  return true;'''))

r('g-addedge', 'Graph.cpp', ('''  // make sure the vertices are active
  if(!graph_[ri].active) {
    graph_[ri].active = true;
    numVertices_++;
  }
  if(!graph_[rj].active) {
    graph_[rj].active = true;
    numVertices_++;
  }
''', '''  for(auto v : {ri, rj}) {
    if(!graph_[v].active) {
      graph_[v].active = true;
      ++numVertices_;
    }
  }
'''))
r('g-addedge2', 'Graph.cpp', ('''  bool edgeExists = boost::edge(ri, rj, graph_).second;
  if(!edgeExists) {
    boost::add_edge(ri, rj, graph_);
    numEdges_++;
  }''', '''  if(boost::edge(ri, rj, graph_).second)
    return;
  boost::add_edge(ri, rj, graph_);
  ++numEdges_;'''))
r('g-connect', 'Graph.cpp', ('''   for (auto i = items.begin(); i != items.end(); ++i) {
    auto j = i;
    j++;
    for(; j != items.end(); ++j)
      addEdge(*i, *j);
  }''', '''  for(std::size_t i = 0; i < items.size(); ++i)
    for(std::size_t j = i + 1; j < items.size(); ++j)
      addEdge(items[i], items[j]);'''))
r('g-remove', 'Graph.cpp', ('''  if(graph_[ri].active) {
    auto di = findDegree(i);
    graph_[ri].active = false;
    numVertices_--;
    numEdges_ -= di;
  }''', '''  if(!graph_[ri].active)
    return;
  numEdges_ -= findDegree(i);
  numVertices_ -= 1;
  graph_[ri].active = false;'''))
r('g-degree', 'Graph.cpp', ('''  int degree = 0;
  AdjIter wi, wi_end;
  auto ri = positions_.at(i);

  for(boost::tie(wi, wi_end) = adjacent_vertices(ri, graph_);
      wi != wi_end; ++wi) {
    if(graph_[*wi].active) {
      degree++;
    }
  }
  return degree;''', '''  return findNeighbours(i).size();'''))
r('g-complete', 'Graph.cpp', ('''  int possibleEdges = graph.numVertices() * (graph.numVertices() - 1) / 2;
  return (graph.numEdges() == possibleEdges);''', '''  const int n = graph.numVertices();
  const int possibleEdges = n * (n - 1) / 2;
  return possibleEdges == graph.numEdges();'''))
I = 'itemsHelper.cpp'
r('ih-rel', I, ('''  auto relativeItem =  std::find(items.begin(), items.end(), item);
  if(relativeItem != items.end())
    return relativeItem - items.begin();
  else
    throw std::domain_error("item not contained in items");''', '''  for(std::size_t i = 0; i < items.size(); ++i) {
    if(items[i] == item)
      return i;
  }
  throw std::domain_error("item not contained in items");'''))
r('ih-diff', I, ('''  std::vector<int> difference;
  for(auto i = items.begin(); i != items.end(); ++i) {
    if(std::find(subset.begin(), subset.end(), *i) == subset.end())
      difference.push_back(*i);
  }
  return difference;''', '''  std::vector<int> difference;
  std::copy_if(items.begin(), items.end(), std::back_inserter(difference),
	       [&subset](int item) {
		 return std::find(subset.begin(), subset.end(), item) == subset.end();
	       });
  return difference;'''))
r('ih-diff2', I, ('''    if(std::find(subset.begin(), subset.end(), *i) == subset.end())
      difference.push_back(*i);
''', '''    const bool integrated = std::find(subset.begin(), subset.end(), *i) != subset.end();
    if(integrated)
      continue;
    difference.push_back(*i);
'''))
r('ih-rels', I, ('''  for(auto i = subset.begin(); i != subset.end(); ++i) {
    relativeItems.push_back(findRelativeItem(*i, items));
  }
  return relativeItems;''', '''  relativeItems.resize(subset.size());
  for(std::size_t k = 0; k < subset.size(); ++k)
    relativeItems[k] = findRelativeItem(subset[k], items);
  return relativeItems;'''))
r('ih-rels-tr', I, ('''  for(auto i = subset.begin(); i != subset.end(); ++i) {
    relativeItems.push_back(findRelativeItem(*i, items));
  }
  return relativeItems;''', '''  std::transform(subset.begin(), subset.end(), std::back_inserter(relativeItems),
		 [&items](int item) { return findRelativeItem(item, items); });
  return relativeItems;'''))

N = 'MultiNormal.cpp'
r('mn-eval', N, ('''  Eigen::VectorXd xDiff = x - mean_;
  double ret = normalizer_;
  ret += -0.5 * xDiff.transpose() * precision_ * xDiff;
  return ret;''', '''  const Eigen::VectorXd xDiff = x - mean_;
  const double quadratic = xDiff.dot(precision_ * xDiff);
  return normalizer_ - quadratic / 2.0;'''))
r('mn-deriv', N, ('''  Eigen::VectorXd xDiff = x - mean_;
  return -xDiff.transpose() * precision_;''', '''  return (mean_ - x).transpose() * precision_;'''))
r('mn-mul', N, ('''  auto normalPrecision = normal.precision_;
  if(divide)
    normalPrecision *= -1;
''', '''  Eigen::MatrixXd normalPrecision = normal.precision_;
  if(divide)
    normalPrecision = -normalPrecision;
'''))
r('mn-mul2', N, ('''  auto normalPrecision = normal.precision_;
  if(divide)
    normalPrecision *= -1;
''', '''  const double sign = divide ? -1 : 1;
  const Eigen::MatrixXd normalPrecision = sign * normal.precision_;
'''))
r('mn-mul3', N, ('''  auto meanSubset = getVectorSubset(mean_, subset);
  if(newPrecisionSubset.rows() > 0)
    meanSubset = newPrecisionSubset.inverse() * (precisionSubset * meanSubset + normalPrecision * normal.mean_) ;

  setMatrixSubset(precision_, newPrecisionSubset, subset);
  setVectorSubset(mean_, meanSubset, subset);
''', '''  auto meanSubset = getVectorSubset(mean_, subset);
  setMatrixSubset(precision_, newPrecisionSubset, subset);
  if(newPrecisionSubset.rows() > 0) {
    Eigen::VectorXd weighted = precisionSubset * meanSubset;
    weighted += normalPrecision * normal.mean_;
    meanSubset = newPrecisionSubset.inverse() * weighted;
  }
  setVectorSubset(mean_, meanSubset, subset);
'''))
r('mn-prec', N, ('''  precision_.resize(precision.rows(), precision.cols());
  precision_ = precision;
  variance_.resize(precision.rows(), precision.cols());
  if(variance_.rows() > 0)
    variance_ = precision.inverse();
  initializeNormalizer();''', '''  precision_ = precision;
  if(precision.rows() > 0)
    variance_ = precision.inverse();
  else
    variance_.resize(precision.rows(), precision.cols());
  initializeNormalizer();'''))
r('mn-margin', N, ('''  MultiNormal marginal(items.size());
  if(items.size() > 0)
    marginal.setMean(meanMarginal);
    marginal.setVariance(varianceMarginal);
  return marginal;''', '''  MultiNormal marginal(items.size());
  if(!items.empty()) {
    marginal.setMean(meanMarginal);
  }
  marginal.setVariance(varianceMarginal);
  return marginal;'''))
r('mn-norm', N, ('''  normalizer_ = -dimension() * logSqrtTwoPi + 0.5 * log(precision_.determinant());''', '''  const double logDeterminant = log(precision_.determinant());
  normalizer_ = 0.5 * logDeterminant - logSqrtTwoPi * dimension();'''))
r('mn-proper', N, ('''  return ((normalizer_ != 0) && (std::isfinite(normalizer_)));''', '''  if(normalizer_ == 0)
    return false;
  return std::isfinite(normalizer_);'''))

F = 'IntegratedFunction.cpp'
r('if-eval', F, ('''  auto conditionalMean = findConditionalMean(x);
  auto integral = integrateNoLog(x, conditionalMean, rule);
  return log(integral) + logValueAtMean_;''', '''  return logValueAtMean_ + std::log(integrateNoLog(x, findConditionalMean(x), rule));'''))
r('if-sq', F, ('''  return numerator / pow(integral, 2);''', '''  return numerator / (integral * integral);'''))
r('if-log', F, ('''  Matrix numerator =  integral * integralSecondDerivative -
    integralDerivative * integralDerivative.transpose();
  return numerator / pow(integral, 2);''', '''  const Vector logDerivative = integralDerivative / integral;
  return integralSecondDerivative / integral - logDerivative * logDerivative.transpose();'''))
r('if-cond', F, ('''   if(variance.size() > 1) {
     auto variance22''', '''   if(variance.size() <= 1) {
     sigmaConditional_ = sqrt(variance(0, 0));
   } else {
     auto variance22'''), ('''   else {
     sigmaConditional_ = sqrt(variance(0, 0));
   }

''', ''))
r('if-mu', F, ('''  double mu = mean1_;
  if(x.size() > 0)
    mu += cross_.dot(x - mean2_);
  
  return mu;''', '''  if(x.size() == 0)
    return mean1_;
  return mean1_ + cross_.dot(x - mean2_);'''))
r('if-proper', F, ('''  if(!normal_.isProper()) {
    auto d = normal_.getMean().size();
    normal_.setPrecision(Eigen::MatrixXd::Identity(d, d));
  }

  logValueAtMean_ = function_(normal_.getMean());''', '''  logValueAtMean_ = function_(normal_.getMean());
  if(normal_.isProper())
    return;
  const int d = normal_.dimension();
  normal_.setPrecision(Eigen::MatrixXd::Identity(d, d));'''))
r('if-corr', F, ('''    Matrix ret = secondDerivative22;
    ret += cross_ * secondDerivative12.transpose();
    ret += secondDerivative12 * cross_.transpose();
    ret += cross_ * cross_.transpose() * secondDerivative11;
    Eigen::ArrayXXd retArray = ret.array();
    return retArray;''', '''    const Matrix mixed = cross_ * secondDerivative12.transpose();
    Matrix ret = secondDerivative22 + mixed + mixed.transpose();
    ret += secondDerivative11 * cross_ * cross_.transpose();
    return Eigen::ArrayXXd(ret.array());'''))

Q = 'QuadratureRule.cpp'
r('q-weights', Q, ('''  Eigen::ArrayXd firstRow = es.eigenvectors().row(0).array();
  weights_ = sqrtPi * firstRow * firstRow;''', '''  const Eigen::ArrayXd firstRow = es.eigenvectors().row(0).transpose().array();
  weights_ = sqrtPi * firstRow.square();'''))
r('q-jac', Q, ('''  for(int i = 1; i < n; ++i){
    double iOver2 = i / 2.0;
    hermiteJacobi(i, i - 1) =  sqrt(iOver2);
  }''', '''  for(int i = 0; i + 1 < n; ++i)
    hermiteJacobi(i + 1, i) = std::sqrt(0.5 * (i + 1));'''))
r('q-int', Q, ('''  double ret = 0;
  auto scale = sqrt(2.) * sigma;
  auto nodes = rule.getNodes();
  auto weights = rule.getWeights();
  for(auto i = 0; i < nodes.size(); ++i) {
    double node = nodes(i);
    double transformedNode = scale * node + location;
    ret += weights(i) * f(transformedNode) * exp(pow(node, 2));
  }
  return scale * ret;''', '''  const auto scale = sqrt(2.) * sigma;
  const Eigen::ArrayXd nodes = rule.getNodes();
  const Eigen::ArrayXd weights = rule.getWeights() * exp(nodes * nodes);
  double ret = 0;
  for(int i = 0; i < nodes.size(); ++i)
    ret += weights(i) * f(location + scale * nodes(i));
  return ret * scale;'''))

B = 'BasisLevel.cpp'
r('bl-horner', B, ('''  double ret = 0;
  double xToPower = 1.0;
  if(level_ > 0) {
    for(int i = 0; i != 4; ++i) {
      ret += splineCoefficients_(4 * intervalId + i, position) * xToPower;
      xToPower *= x;
    }
  } else {
    ret = 1;
  }
  return ret;''', '''  if(level_ == 0)
    return 1;
  double ret = 0;
  for(int i = 3; i >= 0; --i)
    ret = ret * x + splineCoefficients_(4 * intervalId + i, position);
  return ret;'''))
r('bl-early', B, ('''  double ret = 0;
  double xToPower = 1.0;
  if(level_ > 0) {
    for(int i = 2; i != 4; ++i) {
      ret += splineCoefficients_(4 * intervalId + i, position) * i * (i-1) * xToPower;
      xToPower *= x;
    }
  }
  return ret;''', '''  if(level_ <= 0)
    return 0;
  const int first = 4 * intervalId;
  return 2 * splineCoefficients_(first + 2, position)
    + 6 * splineCoefficients_(first + 3, position) * x;'''))
r('bl-interval', B, ('''  int ret = 0;
  if(x > knots_.at(0)) {
     unsigned int xToGrid = (x - knots_.at(0)) / bandwidth_;
     if(xToGrid < gridIds_.size())
       ret = gridIds_[xToGrid];
     else
       ret = (2 << level_) - 1;
  }
  return ret;''', '''  const double firstKnot = knots_.at(0);
  if(!(x > firstKnot))
    return 0;
  const unsigned int xToGrid = (x - firstKnot) / bandwidth_;
  return xToGrid < gridIds_.size() ? gridIds_[xToGrid] : (2 << level_) - 1;'''))
r('bl-knots', B, ('''    prob = (2.0 * i + 1.0) / (2.0 * N);
    knot = scale_ * quantile(standardNormal, prob);
    knotId = knot / bandwidth_;
    knotToGrid = knotId * bandwidth_;
    knots_.push_back(knotToGrid);''', '''    prob = (i + 0.5) / N;
    knot = scale_ * quantile(standardNormal, prob);
    knotId = static_cast<int>(knot / bandwidth_);
    knots_.push_back(knotId * bandwidth_);'''))
r('bl-last', B, ('''    splineCoefficients_.col(i) << coefficientsAllKnots.col(2*i);''', '''    splineCoefficients_.col(i) = coefficientsAllKnots.col(2 * i);'''))

T = 'SparseGridTransform.cpp'
r('tr-helper', T, ('''  Eigen::VectorXd z = inverseScale_ * (x - shift_);
  return fTransformStored_.interpolate(z, basis) - 0.5 * z.squaredNorm();''', '''  const Eigen::VectorXd centred = x - shift_;
  const Eigen::VectorXd z = inverseScale_ * centred;
  const double stored = fTransformStored_.interpolate(z, basis);
  return stored - z.squaredNorm() / 2;'''))
r('tr-dot', T, ('''    return f(shift_ + scale_ * z) + 0.5 * z.squaredNorm();''', '''    const Eigen::VectorXd x = scale_ * z + shift_;
    return f(x) + 0.5 * z.dot(z);'''))
r('tr-order', T, ('''    scale_ = eigenPrecision.operatorInverseSqrt();
    inverseScale_ = eigenPrecision.operatorSqrt();
    shift_ = normal.getMean();''', '''    shift_ = normal.getMean();
    inverseScale_ = eigenPrecision.operatorSqrt();
    scale_ = eigenPrecision.operatorInverseSqrt();'''))
A = 'accessParameters.cpp'
W = 'GLMMBelief.cpp'
r('gl-theta', W, ('''  if(theta.size() != theta_.size() || theta != theta_) {
    theta_ = theta;
    setLambdatThetaZt(theta);
  }''', '''  if(!(theta.size() == theta_.size() && theta == theta_)) {
    setLambdatThetaZt(theta);
    theta_ = theta;
  }'''))
r('gl-always', W, ('''  if(beta.size() != beta_.size() || beta != beta_) {
    beta_ = beta;
    XBeta_ = X_ * beta_;
  }''', '''  beta_ = beta;
  XBeta_ = X_ * beta;'''))
r('gl-value', W, ('''      i.valueRef() = theta(Lind_(index));
      index++;
''', '''      const int which = Lind_(index++);
      i.valueRef() = theta(which);
'''))
r('gl-max', W, ('''  theta_ = Eigen::VectorXd::Zero(Lind_.size() > 0 ? Lind_.maxCoeff() + 1 : 0);''', '''  int numTheta = 0;
  if(Lind_.size() > 0)
    numTheta = 1 + Lind_.maxCoeff();
  theta_ = Eigen::VectorXd::Zero(numTheta);'''))
r('gl-sec', W, ('''  return LambdatThetaZt_ * family.evaluateSecondDerivative(linearPredictor, response_, weights_).matrix().asDiagonal() * LambdatThetaZt_.transpose();''', '''  const Eigen::VectorXd d2 = family.evaluateSecondDerivative(linearPredictor, response_, weights_).matrix();
  const Eigen::MatrixXd weighted = LambdatThetaZt_ * d2.asDiagonal();
  return weighted * LambdatThetaZt_.transpose();'''))
r('gl-lp', W, ('''  return (XBeta_ + LambdatThetaZt_.transpose() * x).array();''', '''  Eigen::VectorXd eta = XBeta_;
  eta.noalias() += LambdatThetaZt_.transpose() * x;
  return eta.array();'''))
for k in [k for k, v in R.items() if v is None]:
    del R[k]


if __name__ == '__main__':
    with ThreadPoolExecutor(6) as ex:
        for name, out in ex.map(refc.one, sys.argv[1:] or list(R)):
            print('==', name, flush=True)
            print(out, end='', flush=True)
