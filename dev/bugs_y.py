"""mistakes hidden in rewritten C++ code: each replaces a block by a different way of writing it, with an error.  bugs_y.py [name ...]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refc
from concurrent.futures import ThreadPoolExecutor
S, H = 'src/', 'inst/include/'
B = refc.R
B.clear()


def b(name, file, *pairs):
    B[name] = [((S if file.endswith('.cpp') else H) + file,) + tuple(p) for p in pairs]


C = 'ClusterGraph.cpp'
b('y-min-elem', C, ('''    int minSeparatorSize = remainingItems.size();
    int itemToEliminate = candidates.at(0);
    
    for(auto candidate : candidates) {
      auto candidateSeparator = dependenceGraph.findNeighbours(candidate);
      int separatorSize = candidateSeparator.size();

      if(separatorSize < minSeparatorSize) {
	itemToEliminate = candidate;
	minSeparatorSize = separatorSize;
      }
    }
''', '''    int itemToEliminate = *std::max_element(candidates.begin(), candidates.end(),
      [&dependenceGraph](int a, int b) {
        return dependenceGraph.findDegree(a) < dependenceGraph.findDegree(b);
      });
'''))
b('y-margin-find', C, ('''  int clusterId = 0;
  for(auto& cluster : clusters_) {
    if(isSubset(items, cluster.getItems())) {
      marginalBelief = cluster.margin(items, false, parameters_);
      break;
    }
    ++clusterId;
    if(clusterId == nClusters())
      throw std::domain_error("items not fully contained in any cluster");
  }
  return marginalBelief;''', '''  for(auto& cluster : clusters_)
    if(isSubset(items, cluster.getItems()))
      return cluster.margin(items, true, parameters_);
  throw std::domain_error("items not fully contained in any cluster");'''))
b('y-margin-nothrow', C, ('''  int clusterId = 0;
  for(auto& cluster : clusters_) {
    if(isSubset(items, cluster.getItems())) {
      marginalBelief = cluster.margin(items, false, parameters_);
      break;
    }
    ++clusterId;
    if(clusterId == nClusters())
      throw std::domain_error("items not fully contained in any cluster");
  }
  return marginalBelief;''', '''  for(auto& cluster : clusters_)
    if(isSubset(items, cluster.getItems()))
      return cluster.margin(items, false, parameters_);
  return marginalBelief;'''))
b('y-pass-ref', C, ('''  int i, j;
  if(forward) {
    i = edge.firstClusterId_;
    j = edge.secondClusterId_;
  } else {
    i = edge.secondClusterId_;
    j = edge.firstClusterId_;
  }

  auto oldEdgeBelief = edge.belief_;
  
  projectClusterOntoEdge(clusters_.at(i), edge, normalApproxOnly);

  clusters_.at(j) *= edge.belief_;
  clusters_.at(j) /= oldEdgeBelief;
''', '''  const int i = forward ? edge.firstClusterId_ : edge.secondClusterId_;
  const int j = forward ? edge.secondClusterId_ : edge.firstClusterId_;
  auto& target = clusters_.at(j);
  auto& oldEdgeBelief = edge.belief_;

  projectClusterOntoEdge(clusters_.at(i), edge, normalApproxOnly);
  target *= edge.belief_;
  target /= oldEdgeBelief;
'''))
b('y-pass-copy', C, ('''  int i, j;
  if(forward) {
    i = edge.firstClusterId_;
    j = edge.secondClusterId_;
  } else {
    i = edge.secondClusterId_;
    j = edge.firstClusterId_;
  }

  auto oldEdgeBelief = edge.belief_;
  
  projectClusterOntoEdge(clusters_.at(i), edge, normalApproxOnly);

  clusters_.at(j) *= edge.belief_;
  clusters_.at(j) /= oldEdgeBelief;
''', '''  const int i = forward ? edge.firstClusterId_ : edge.secondClusterId_;
  const int j = forward ? edge.secondClusterId_ : edge.firstClusterId_;
  auto oldEdgeBelief = edge.belief_;
  projectClusterOntoEdge(clusters_.at(i), edge, normalApproxOnly);
  auto target = clusters_.at(j);
  target *= edge.belief_;
  target /= oldEdgeBelief;
'''))
b('y-pass-swap', C, ('''  int i, j;
  if(forward) {
    i = edge.firstClusterId_;
    j = edge.secondClusterId_;
  } else {
    i = edge.secondClusterId_;
    j = edge.firstClusterId_;
  }
''', '''  int i = edge.firstClusterId_;
  int j = edge.secondClusterId_;
  if(forward && !normalApproxOnly)
    std::swap(i, j);
'''))
b('y-cal-index', C, ('''    for(auto e = edges_.rbegin(); e != edges_.rend(); ++e)
      passMessage(*e, false, normalApproxOnly);''', '''    for(int e = nEdges() - 1; e > 0; --e)
      passMessage(edges_.at(e), false, normalApproxOnly);'''))
b('y-cal-off', C, ('''    for(auto e = edges_.begin(); e != edges_.end(); ++e)
      passMessage(*e, true, normalApproxOnly);''', '''    for(std::size_t e = 0; e + 1 < edges_.size(); ++e)
      passMessage(edges_[e], true, normalApproxOnly);'''))
b('y-hang-one', C, ('''    for(auto edgeId : hangingEdgeIds) {
      if(isSubset(edges_.at(edgeId).belief_.getItems(), cluster)) {
	edges_.at(edgeId).secondClusterId_ = newClusterId;
      } else {
	newHangingEdgeIds.push_back(edgeId);
      }
    }
    newHangingEdgeIds.push_back(newEdgeId);
''', '''    for(auto edgeId : hangingEdgeIds) {
      auto& edge = edges_.at(edgeId);
      if(!isSubset(cluster, edge.belief_.getItems()))
        newHangingEdgeIds.push_back(edgeId);
      else
        edge.secondClusterId_ = newClusterId;
    }
    newHangingEdgeIds.push_back(newEdgeId);
'''))
b('y-pop-partition', C, ('''  std::copy_if(beliefs.begin(), beliefs.end(),
	       back_inserter(containedBeliefs), isContained);
  auto newEnd = std::remove_if(beliefs.begin(), beliefs.end(), isContained);
  beliefs.resize(newEnd - beliefs.begin());
''', '''  auto newEnd = std::remove_if(beliefs.begin(), beliefs.end(), isContained);
  containedBeliefs.assign(newEnd, beliefs.end());
  beliefs.erase(newEnd, beliefs.end());
'''))
b('y-norm-loop', C, ('''  for(auto& edge : edges_) {
    auto edgeItems = edge.belief_.getItems();
    auto meanEdge = getVectorSubset(mean, edgeItems);
    auto precisionEdge =  getSparseMatrixSubset(precision, edgeItems);
    edge.belief_.setNormalApprox(meanEdge, precisionEdge);
  }
''', '''  for(auto edge : edges_) {
    auto items = edge.belief_.getItems();
    edge.belief_.setNormalApprox(getVectorSubset(mean, items),
                                 getSparseMatrixSubset(precision, items));
  }
'''))
b('y-width-elem', C, ('''  int width = 0;
  for(auto& cluster : clusters_)
    width = std::max(width, cluster.width());
  return width;''', '''  if(clusters_.empty())
    return 0;
  return clusters_.back().width();'''))
G = 'Graph.cpp'
b('y-connect-idx', G, ('''   for (auto i = items.begin(); i != items.end(); ++i) {
    auto j = i;
    j++;
    for(; j != items.end(); ++j)
      addEdge(*i, *j);
  }''', '''  for(std::size_t i = 0; i < items.size(); ++i)
    for(std::size_t j = i + 2; j < items.size(); ++j)
      addEdge(items[i], items[j]);'''))
b('y-connect-path', G, ('''   for (auto i = items.begin(); i != items.end(); ++i) {
    auto j = i;
    j++;
    for(; j != items.end(); ++j)
      addEdge(*i, *j);
  }''', '''  for(std::size_t i = 1; i < items.size(); ++i)
    addEdge(items[i - 1], items[i]);'''))
b('y-degree-neigh', G, ('''  int degree = 0;
  AdjIter wi, wi_end;
  auto ri = positions_.at(i);

  for(boost::tie(wi, wi_end) = adjacent_vertices(ri, graph_);
      wi != wi_end; ++wi) {
    if(graph_[*wi].active) {
      degree++;
    }
  }
  return degree;''', '''  return boost::out_degree(positions_.at(i), graph_);'''))
b('y-complete', G, ('''  int possibleEdges = graph.numVertices() * (graph.numVertices() - 1) / 2;
  return (graph.numEdges() == possibleEdges);''', '''  const int n = graph.numVertices();
  return 2 * graph.numEdges() >= (n - 1) * (n - 1);'''))
b('y-getitems', G, ('''  VertexIter wi, wi_end;
  for(boost::tie(wi, wi_end) = vertices(graph_);
      wi != wi_end; ++wi) {
    if(graph_[*wi].active)
      items.push_back(graph_[*wi].item);
  }
''', '''  for(const auto& position : positions_)
    items.push_back(position.first);
'''))
IH = 'itemsHelper.cpp'
b('y-findrel', IH, ('''  auto relativeItem =  std::find(items.begin(), items.end(), item);
  if(relativeItem != items.end())
    return relativeItem - items.begin();
  else
    throw std::domain_error("item not contained in items");''', '''  auto position = std::lower_bound(items.begin(), items.end(), item);
  if(position == items.end())
    throw std::domain_error("item not contained in items");
  return position - items.begin();'''))
b('y-diff-copyif', IH, ('''  for(auto i = items.begin(); i != items.end(); ++i) {
    if(std::find(subset.begin(), subset.end(), *i) == subset.end())
      difference.push_back(*i);
  }''', '''  std::copy_if(items.begin(), items.end(), std::back_inserter(difference),
    [&subset](int item) {
      return std::find(subset.begin(), subset.end(), item) != subset.end();
    });'''))
b('y-union', IH, ('''  std::vector<int> itemsUnion;
  auto first = items1;
  auto second = items2;
  std::sort(first.begin(), first.end());
  std::sort(second.begin(), second.end());
  std::set_union(first.begin(), first.end(),
		 second.begin(), second.end(),
		 back_inserter(itemsUnion));
''', '''  std::vector<int> itemsUnion(items1);
  itemsUnion.insert(itemsUnion.end(), items2.begin(), items2.end());
  itemsUnion.erase(std::unique(itemsUnion.begin(), itemsUnion.end()), itemsUnion.end());
  std::sort(itemsUnion.begin(), itemsUnion.end());
'''))
Q = 'QuadratureRule.cpp'
b('y-quad-dot', Q, ('''  double ret = 0;
  auto scale = sqrt(2.) * sigma;
  auto nodes = rule.getNodes();
  auto weights = rule.getWeights();
  for(auto i = 0; i < nodes.size(); ++i) {
    double node = nodes(i);
    double transformedNode = scale * node + location;
    ret += weights(i) * f(transformedNode) * exp(pow(node, 2));
  }
  return scale * ret;''', '''  const double scale = sqrt(2.) * sigma;
  const Eigen::ArrayXd points = location + scale * rule.getNodes();
  const Eigen::ArrayXd w = rule.getWeights() * (rule.getNodes() * rule.getNodes() / 2).exp();
  double ret = 0;
  for(int i = 0; i < points.size(); ++i)
    ret += w(i) * f(points(i));
  return scale * ret;'''))
b('y-quad-sym', Q, ('''  double ret = 0;
  auto scale = sqrt(2.) * sigma;
  auto nodes = rule.getNodes();
  auto weights = rule.getWeights();
  for(auto i = 0; i < nodes.size(); ++i) {
    double node = nodes(i);
    double transformedNode = scale * node + location;
    ret += weights(i) * f(transformedNode) * exp(pow(node, 2));
  }
  return scale * ret;''', '''  double ret = 0;
  const double scale = sqrt(2.) * sigma;
  const Eigen::ArrayXd nodes = rule.getNodes();
  const Eigen::ArrayXd weights = rule.getWeights();
  for(int i = 0; 2 * i < nodes.size(); ++i) {
    const double offset = scale * nodes(i);
    ret += weights(i) * (f(location + offset) + f(location - offset)) * exp(pow(nodes(i), 2));
  }
  return scale * ret;'''))
b('y-quad-loc', Q, ('''    double transformedNode = scale * node + location;
    ret += weights(i) * f(transformedNode) * exp(pow(node, 2));
  }
  return scale * ret;
}

// version for scalar input, matrix''', '''    ret += weights(i) * f(scale * (node + location)) * exp(node * node);
  }
  return scale * ret;
}

// version for scalar input, matrix'''))
b('y-herm-rec', Q, ('''    double previous = 0;
    double current = 1 / sqrt(sqrtPi);
    double sumOfSquares = current * current;
    for(int k = 1; k < n; ++k) {
      double next = (nodes_(i) * current - sqrt((k - 1) / 2.0) * previous) / sqrt(k / 2.0);
      previous = current;
      current = next;
      sumOfSquares += current * current;
    }
    weights_(i) = 1 / sumOfSquares;''', '''    Eigen::ArrayXd p = Eigen::ArrayXd::Zero(n + 1);
    p(1) = 1 / sqrt(sqrtPi);
    for(int k = 1; k < n; ++k)
      p(k + 1) = (nodes_(i) * p(k) - sqrt(k / 2.0) * p(k - 1)) / sqrt(k / 2.0);
    weights_(i) = 1 / p.square().sum();'''))
M = 'MultiNormal.cpp'
b('y-mn-llt', M, ('''  normalizer_ = -dimension() * logSqrtTwoPi + 0.5 * log(precision_.determinant());''', '''  normalizer_ = -dimension() * logSqrtTwoPi + 0.5 * precision_.diagonal().array().log().sum();'''))
b('y-mn-ldlt', M, ('''  setMean(location + precision_.colPivHouseholderQr().solve(derivative));''', '''  setMean(location + variance_.diagonal().cwiseProduct(derivative));'''))
b('y-mn-eval', M, ('''  double ret = normalizer_;
  ret += -0.5 * xDiff.transpose() * precision_ * xDiff;
  return ret;''', '''  return normalizer_ - 0.5 * xDiff.dot(precision_.diagonal().cwiseProduct(xDiff));'''))
b('y-mn-mean', M, ('''    meanSubset = newPrecisionSubset.inverse() * (precisionSubset * meanSubset + normalPrecision * normal.mean_) ;
''', '''    meanSubset += newPrecisionSubset.inverse() * (normalPrecision * normal.mean_ - precisionSubset * meanSubset);
'''))
b('y-mn-schur', M, ('''  auto varianceMarginal = getMatrixWithout(item, variance_);
  auto meanMarginal = getVectorWithout(item, mean_);
  MultiNormal marginal(meanMarginal.size());
  if(meanMarginal.size() > 0)
    marginal.setMean(meanMarginal);
    marginal.setVariance(varianceMarginal);
  return marginal;''', '''  MultiNormal marginal(dimension() - 1);
  if(dimension() > 1)
    marginal.setMean(getVectorWithout(item, mean_));
  marginal.setPrecision(getMatrixWithout(item, precision_));
  return marginal;'''))
SE = 'subsetEigen.cpp'
b('y-se-block', SE, ('''  target.bottomLeftCorner(n - index, index) = source.bottomLeftCorner(n - index, index);
  target.bottomRightCorner(n - index, n - index) = source.bottomRightCorner(n - index, n - index);''', '''  target.bottomLeftCorner(n - index, index) = source.topRightCorner(index, n - index).transpose();
  target.bottomRightCorner(n - index, n - index) = source.block(index, index, n - index, n - index);'''))
b('y-se-vec', SE, ('''  target.head(index) = source.head(index);
  target.tail(n - index) = source.tail(n - index);''', '''  for(int i = 0; i < n; ++i)
    target(i < index ? i : i + (target.size() - n)) = source(i);'''))
b('y-se-sparse', SE, ('''  for(auto i = subset.size() - subset.size(); i < subset.size(); ++i)
    for(auto j = subset.size() - subset.size(); j < subset.size(); ++j)
      ret(i, j) = matrix.coeff(subset.at(i), subset.at(j));
   return ret;''', '''  for(std::size_t i = 0; i < subset.size(); ++i)
    for(std::size_t j = 0; j <= i; ++j)
      ret(i, j) = ret(j, i) = matrix.coeff(subset[i], subset[i - j]);
  return ret;'''))
I = 'IntegratedFunction.cpp'
b('y-if-deriv', I, ('''    double value = exp(function_(xExt) - logValueAtMean_);
    Vector derivative =  derivativeFunction_(xExt) * value;
    Vector derivativeRem = getVectorWithout(integrateOver_,
					    derivative);
    Vector correction = cross_ * derivative(integrateOver_);
    Eigen::ArrayXd ret = (derivativeRem + correction).array();''', '''    const Vector gradient = derivativeFunction_(xExt);
    const double value = exp(function_(xExt) - logValueAtMean_);
    Vector total = getVectorWithout(integrateOver_, gradient);
    total *= value;
    total += cross_ * gradient(integrateOver_);
    Eigen::ArrayXd ret = total.array();'''))
b('y-if-second', I, ('''    Matrix ret = secondDerivative22;
    ret += cross_ * secondDerivative12.transpose();
    ret += secondDerivative12 * cross_.transpose();
    ret += cross_ * cross_.transpose() * secondDerivative11;
''', '''    Matrix mixed = cross_ * secondDerivative12.transpose();
    Matrix ret = secondDerivative22 + mixed + mixed
      + secondDerivative11 * (cross_ * cross_.transpose());
'''))
b('y-if-num', I, ('''  Matrix numerator =  integral * integralSecondDerivative -
    integralDerivative * integralDerivative.transpose();
  return numerator / pow(integral, 2);''', '''  const Vector ratio = integralDerivative / integral;
  return integralSecondDerivative / integral - ratio.cwiseAbs2().asDiagonal().toDenseMatrix();'''))
b('y-if-condvar', I, ('''     cross_ = variance22.inverse() * variance21;
    
     double varianceConditional = variance11 - 
       (variance21.transpose() * cross_)(0, 0);
     sigmaConditional_ = sqrt(varianceConditional);''', '''     cross_ = variance22.inverse() * variance21;
     sigmaConditional_ = 1 / sqrt(normal_.getPrecision()(0, 0));'''))
P = 'Point.cpp'
b('y-pt-level', P, ('''    std::vector<int> oldLevels(levels_);
    int t = 0;
    while(levels_[t] == 0)
      ++t;
    levels_[t] = 0;
    levels_[0] = oldLevels[t] - 1;
    levels_[t+1] = oldLevels[t+1] + 1;''', '''    int t = 0;
    while(levels_[t] == 0)
      ++t;
    levels_[0] = levels_[t] - 1;
    levels_[t] = 0;
    ++levels_[t + 1];'''))
b('y-pt-second', P, ('''        if(r == t) {
	  if(s == t)
	    ret(r, s) *= basisSecondDerivative;
	  else
	    ret(r, s) *= basisDerivative;
	} 
	else {
	  if(s == t)
	    ret(r, s) *= basisDerivative;
	  else
	    ret(r, s) *= basisValue;
	}''', '''        const int order = (r == t) || (s == t) ? (r == s ? 2 : 1) : 0;
        const double factors[] = {basisValue, basisDerivative, basisDerivative * basisDerivative};
        ret(r, s) *= factors[order];'''))
b('y-pt-deriv', P, ('''    for(auto s = d - d; s < d; ++s) {
      if(s == t)
	ret[s] *= basisDerivative;
      else
	ret[s] *= basisValue;
    }''', '''    for(auto s = d - d; s < d; ++s)
      ret[s] *= s < t ? basisValue : basisDerivative;'''))
b('y-pt-shift', P, ('''  int index3 = 0;
  for(auto s = 0; s < sum; ++s)
    index3 += choose(dimension - 1 + s, dimension - 1) * (1 << s);''', '''  int index3 = 0;
  for(auto s = 0; s <= sum; ++s)
    index3 += choose(dimension - 1 + s, s) << s;
  index3 -= choose(dimension - 1 + sum, sum);'''))
L = 'BasisLevel.cpp'
b('y-bl-horner', L, ('''  double ret = 0;
  double xToPower = 1.0;
  if(level_ > 0) {
    for(int i = 0; i != 4; ++i) {
      ret += splineCoefficients_(4 * intervalId + i, position) * xToPower;
      xToPower *= x;
    }
  } else {
    ret = 1;
  }
  return ret;''', '''  if(level_ == 0)
    return 1;
  double ret = 0;
  for(int i = 3; i > 0; --i)
    ret = ret * x + splineCoefficients_(4 * intervalId + i, position);
  return ret;'''))
b('y-bl-hornerd', L, ('''  double ret = 0;
  double xToPower = 1.0;
  if(level_ > 0) {
    for(int i = 1; i != 4; ++i) {
       ret += splineCoefficients_(4 * intervalId + i, position) * i * xToPower;
       xToPower *= x;
    }
  }
  return ret;''', '''  if(level_ == 0)
    return 0;
  const Eigen::VectorXd c = splineCoefficients_.col(position).segment(4 * intervalId, 4);
  return c(1) + x * (2 * c(2) + x * c(3));'''))
b('y-bl-knot', L, ('''    knot = scale_ * quantile(standardNormal, prob);
    knotId = knot / bandwidth_;
    knotToGrid = knotId * bandwidth_;
    knots_.push_back(knotToGrid);''', '''    knots_.push_back(scale_ * quantile(standardNormal, prob));'''))
b('y-bl-round', L, ('''    knotId = knot / bandwidth_;
    knotToGrid = knotId * bandwidth_;
    knots_.push_back(knotToGrid);''', '''    knots_.push_back(std::floor(knot / bandwidth_) * bandwidth_);'''))
SG = 'SparseGrid.cpp'
b('y-sg-max', SG, ('''  double maximumStoredValue;
  for(auto i = 0; i < size(); ++i) {
    Eigen::VectorXd gridPoint = point.getGridPoint(basis);
    coefficients_.at(i) = f(gridPoint);
    double value = coefficients_.at(i);
    if((i ==0) || (value > maximumStoredValue))
      maximumStoredValue = value;
    if(i < size() - 1)
      point.advance();
  }
  bound_ = maximumStoredValue;''', '''  for(auto i = 0; i < size(); ++i) {
    coefficients_[i] = f(point.getGridPoint(basis));
    point.advance();
  }
  bound_ = std::accumulate(coefficients_.begin(), coefficients_.end(), 0.0,
                           [](double a, double b) { return std::max(a, b); });'''))
b('y-sg-interp', SG, ('''  double ret = 0;
  Point point(d_);
  for(auto i = 0; i < size(); ++i) {
    ret += coefficients_[i] * point.computeBasis(x, basis);
    if(i < size() - 1)
      point.advance();
  }
  return std::min(ret, bound_);''', '''  double ret = 0;
  Point point(d_);
  for(const auto coefficient : coefficients_) {
    ret = std::min(ret + coefficient * point.computeBasis(x, basis), bound_);
    point.advance();
  }
  return ret;'''))
b('y-sg-hier', SG, ('''      while(parent.getLevel(t) < point.getLevel(t)) {
	double contribution = coefficients_.at(parent.getIndex());
	contribution *= basis.evaluate(knot, parent.getLevel(t), parent.getPosition(t));
	coefficients_.at(i) -= contribution;
	parent.advanceInDirection(t);
      }''', '''      double contribution = 0;
      for(; parent.getLevel(t) < point.getLevel(t); parent.advanceInDirection(t))
        contribution = coefficients_.at(parent.getIndex())
          * basis.evaluate(knot, parent.getLevel(t), parent.getPosition(t));
      coefficients_.at(i) -= contribution;'''))
GB = 'GLMMBelief.cpp'
b('y-gb-lambda', GB, ('''  int index = 0;
  for (int j = 0; j < LambdatTheta.outerSize(); ++j)
    for (Eigen::SparseMatrix<double>::InnerIterator i(LambdatTheta, j); i; ++i) {
      i.valueRef() = theta(Lind_(index));
      index++;
    }''', '''  for (int j = 0; j < LambdatTheta.outerSize(); ++j) {
    int index = 0;
    for (Eigen::SparseMatrix<double>::InnerIterator i(LambdatTheta, j); i; ++i)
      i.valueRef() = theta(Lind_(index++));
  }'''))
b('y-gb-second', GB, ('''  return LambdatThetaZt_ * family.evaluateSecondDerivative(linearPredictor, response_, weights_).matrix().asDiagonal() * LambdatThetaZt_.transpose();''', '''  const Eigen::ArrayXd w = (-family.evaluateSecondDerivative(linearPredictor, response_, weights_)).max(0.0);
  const Eigen::MatrixXd scaled = LambdatThetaZt_ * w.sqrt().matrix().asDiagonal();
  return scaled * scaled.transpose();'''))
b('y-gb-grad', GB, ('''  return LambdatThetaZt_ * family.evaluateDerivative(linearPredictor, response_, weights_).matrix();''', '''  const Eigen::ArrayXd ones = Eigen::ArrayXd::Ones(numObservations_);
  const Eigen::ArrayXd gradient = family.evaluateDerivative(linearPredictor, response_, ones);
  return LambdatThetaZt_ * gradient.matrix();'''))
MB = 'MixedContinuousBelief.cpp'
b('y-mb-eval', MB, ('''  for(auto i = beliefs_.begin(); i != beliefs_.end(); ++i) {
    int index = i - beliefs_.begin();
    auto relativeItems = relativeItems_.at(index);
    double beliefValue = i->evaluate(findSubset(x, relativeItems),
				     parameters);
    if(isInverted_.at(index))
      ret -= beliefValue;
    else
      ret += beliefValue;
  }
  return ret;''', '''  for(std::size_t i = 0; i < beliefs_.size(); ++i) {
    const double sign = isInverted_[i] ? 1 : -1;
    ret -= sign * beliefs_[i].evaluate(findSubset(x, relativeItems_[0]), parameters);
  }
  return ret;'''))
b('y-mb-eval2', MB, ('''  for(auto i = beliefs_.begin(); i != beliefs_.end(); ++i) {
    int index = i - beliefs_.begin();
    auto relativeItems = relativeItems_.at(index);
    double beliefValue = i->evaluate(findSubset(x, relativeItems),
				     parameters);
    if(isInverted_.at(index))
      ret -= beliefValue;
    else
      ret += beliefValue;
  }
  return ret;''', '''  for(std::size_t i = 0; i < beliefs_.size(); ++i) {
    const double sign = isInverted_[i] ? 1 : -1;
    ret += sign * beliefs_[i].evaluate(findSubset(x, relativeItems_[i]), parameters);
  }
  return ret;'''))
b('y-mb-proper', MB, ('''  bool proper = true;
  auto normalMean = normalApprox_.getNormal().getMean();
  if(beliefs_.size() > 0) {
    auto evalAtMean = evaluate(normalMean, parameters);
    if(!std::isnormal(evalAtMean)) {
      proper = false;
    }
  }
  auto evalNormalAtMean = normalApprox_.evaluate(normalMean,
						 parameters);
  if(!std::isnormal(evalNormalAtMean)) {
    proper = false;
  }
  
  return proper;''', '''  const auto normalMean = normalApprox_.getNormal().getMean();
  if(beliefs_.empty())
    return true;
  return std::isnormal(evaluate(normalMean, parameters))
    && std::isnormal(normalApprox_.evaluate(normalMean, parameters));'''))
F = 'Family.cpp'
b('y-fam-helper', F, ('''  auto mean = link_.computeMean(linearPredictor);
  familyGivenMean_.checkMean(mean);
  return familyGivenMean_.evaluate(mean, response, weights);''', '''  const Eigen::ArrayXd mean = link_.computeMean(linearPredictor);
  return familyGivenMean_.evaluate(mean.max(1e-8), response, weights);'''))
b('y-fam-second', F, ('''  return pow(meanDerivative, 2) * familySecondDerivative  + meanSecondDerivative * familyDerivative;''', '''  Eigen::ArrayXd total = familySecondDerivative * meanDerivative;
  total += familyDerivative * meanSecondDerivative;
  return total;'''))
b('y-logit-branch', 'LogitLink.cpp', ('''  return 1 / (1 + exp(-linearPredictor));''', '''  const Eigen::ArrayXd e = exp(-linearPredictor.abs());
  return (linearPredictor >= 0).select(1 / (1 + e), 1 / (1 + e));'''))
b('y-logit-tanh', 'LogitLink.cpp', ('''  return 1 / (1 + exp(-linearPredictor));''', '''  return 0.5 * (1 + linearPredictor.tanh());'''))
b('y-probit-vec', 'ProbitLink.cpp', ('''    secondDerivative(i) = -linearPredictor(i) * pdf(standardNormal_, linearPredictor(i));
  return secondDerivative;''', '''    secondDerivative(i) = pdf(standardNormal_, linearPredictor(i));
  return linearPredictor * secondDerivative;'''))
b('y-bin-lognat', 'Binomial.cpp', ('''  return ( weights * ( response * log(mean) + (1 - response) * log(1 - mean) ) ).sum();''', '''  double total = 0;
  for(int i = 0; i < mean.size(); ++i)
    total += weights(i) * (response(i) > 0.5 ? log(mean(i)) : log(1 - mean(i)));
  return total;'''))
b('y-bin-clamp', 'Binomial.cpp', ('''  const double epsilon = 1e-8;
  for(auto i = 0; i < mean.size(); ++i) {
    if(mean(i) < epsilon)
      mean(i) = epsilon;
    if(mean(i) > 1 - epsilon)
      mean(i) = 1 - epsilon;
  }''', '''  const double epsilon = 1e-8;
  mean = mean.min(epsilon).max(1 - epsilon);'''))
b('y-bin-clamp2', 'Binomial.cpp', ('''  const double epsilon = 1e-8;
  for(auto i = 0; i < mean.size(); ++i) {
    if(mean(i) < epsilon)
      mean(i) = epsilon;
    if(mean(i) > 1 - epsilon)
      mean(i) = 1 - epsilon;
  }''', '''  const double epsilon = std::numeric_limits<double>::epsilon();
  mean = mean.max(epsilon).min(1 - epsilon);'''))


# the same without the mistake: must not be CAUGHT
b('ok-bl-horner', L, ('''  double ret = 0;
  double xToPower = 1.0;
  if(level_ > 0) {
    for(int i = 0; i != 4; ++i) {
      ret += splineCoefficients_(4 * intervalId + i, position) * xToPower;
      xToPower *= x;
    }
  } else {
    ret = 1;
  }
  return ret;''', '''  if(level_ == 0)
    return 1;
  double ret = 0;
  for(int i = 3; i >= 0; --i)
    ret = ret * x + splineCoefficients_(4 * intervalId + i, position);
  return ret;'''))
b('ok-bl-hornerd', L, ('''  double ret = 0;
  double xToPower = 1.0;
  if(level_ > 0) {
    for(int i = 1; i != 4; ++i) {
       ret += splineCoefficients_(4 * intervalId + i, position) * i * xToPower;
       xToPower *= x;
    }
  }
  return ret;''', '''  if(level_ == 0)
    return 0;
  const Eigen::VectorXd c = splineCoefficients_.col(position).segment(4 * intervalId, 4);
  return c(1) + x * (2 * c(2) + 3 * x * c(3));'''))
b('ok-pt-level', P, ('''    std::vector<int> oldLevels(levels_);
    int t = 0;
    while(levels_[t] == 0)
      ++t;
    levels_[t] = 0;
    levels_[0] = oldLevels[t] - 1;
    levels_[t+1] = oldLevels[t+1] + 1;''', '''    int t = 0;
    while(levels_[t] == 0)
      ++t;
    const int level = levels_[t];
    levels_[t] = 0;
    levels_[0] = level - 1;
    ++levels_[t + 1];'''))
b('ok-union', IH, ('''  std::vector<int> itemsUnion;
  auto first = items1;
  auto second = items2;
  std::sort(first.begin(), first.end());
  std::sort(second.begin(), second.end());
  std::set_union(first.begin(), first.end(),
		 second.begin(), second.end(),
		 back_inserter(itemsUnion));
''', '''  std::vector<int> itemsUnion(items1);
  itemsUnion.insert(itemsUnion.end(), items2.begin(), items2.end());
  std::sort(itemsUnion.begin(), itemsUnion.end());
  itemsUnion.erase(std::unique(itemsUnion.begin(), itemsUnion.end()), itemsUnion.end());
'''))
b('ok-width', C, ('''  int width = 0;
  for(auto& cluster : clusters_)
    width = std::max(width, cluster.width());
  return width;''', '''  auto widest = std::max_element(clusters_.begin(), clusters_.end(),
    [](const MixedContinuousBelief& a, const MixedContinuousBelief& b) { return a.width() < b.width(); });
  return widest == clusters_.end() ? 0 : widest->width();'''))
b('ok-margin', C, ('''  int clusterId = 0;
  for(auto& cluster : clusters_) {
    if(isSubset(items, cluster.getItems())) {
      marginalBelief = cluster.margin(items, false, parameters_);
      break;
    }
    ++clusterId;
    if(clusterId == nClusters())
      throw std::domain_error("items not fully contained in any cluster");
  }
  return marginalBelief;''', '''  auto found = std::find_if(clusters_.begin(), clusters_.end(),
    [&items](const MixedContinuousBelief& cluster) { return isSubset(items, cluster.getItems()); });
  if(found == clusters_.end())
    throw std::domain_error("items not fully contained in any cluster");
  return found->margin(items, false, parameters_);'''))
b('ok-margin2', C, ('''  int clusterId = 0;
  for(auto& cluster : clusters_) {
    if(isSubset(items, cluster.getItems())) {
      marginalBelief = cluster.margin(items, false, parameters_);
      break;
    }
    ++clusterId;
    if(clusterId == nClusters())
      throw std::domain_error("items not fully contained in any cluster");
  }
  return marginalBelief;''', '''  for(auto& cluster : clusters_)
    if(isSubset(items, cluster.getItems()))
      return cluster.margin(items, false, parameters_);
  if(!clusters_.empty())
    throw std::domain_error("items not fully contained in any cluster");
  return marginalBelief;'''))
b('ok-margin3', C, ('''  int clusterId = 0;
  for(auto& cluster : clusters_) {
    if(isSubset(items, cluster.getItems())) {
      marginalBelief = cluster.margin(items, false, parameters_);
      break;
    }
    ++clusterId;
    if(clusterId == nClusters())
      throw std::domain_error("items not fully contained in any cluster");
  }
  return marginalBelief;''', '''  for(auto& cluster : clusters_)
    if(isSubset(items, cluster.getItems()))
      return cluster.margin(items, false, parameters_);
  throw std::domain_error("items not fully contained in any cluster");'''))
b('ok-margin4', C, ('''  int clusterId = 0;
  for(auto& cluster : clusters_) {
    if(isSubset(items, cluster.getItems())) {
      marginalBelief = cluster.margin(items, false, parameters_);
      break;
    }
    ++clusterId;
    if(clusterId == nClusters())
      throw std::domain_error("items not fully contained in any cluster");
  }
  return marginalBelief;''', '''  bool found = false;
  for(std::size_t i = 0; i < clusters_.size() && !found; ++i) {
    if(isSubset(items, clusters_[i].getItems())) {
      marginalBelief = clusters_[i].margin(items, false, parameters_);
      found = true;
    }
  }
  if(!found && nClusters() > 0)
    throw std::domain_error("items not fully contained in any cluster");
  return marginalBelief;'''))
b('ok-quad', Q, ('''  double ret = 0;
  auto scale = sqrt(2.) * sigma;
  auto nodes = rule.getNodes();
  auto weights = rule.getWeights();
  for(auto i = 0; i < nodes.size(); ++i) {
    double node = nodes(i);
    double transformedNode = scale * node + location;
    ret += weights(i) * f(transformedNode) * exp(pow(node, 2));
  }
  return scale * ret;''', '''  const double scale = sqrt(2.) * sigma;
  const Eigen::ArrayXd points = location + scale * rule.getNodes();
  const Eigen::ArrayXd w = rule.getWeights() * (rule.getNodes() * rule.getNodes()).exp();
  double ret = 0;
  for(int i = 0; i < points.size(); ++i)
    ret += w(i) * f(points(i));
  return scale * ret;'''))
b('ok-connect', G, ('''   for (auto i = items.begin(); i != items.end(); ++i) {
    auto j = i;
    j++;
    for(; j != items.end(); ++j)
      addEdge(*i, *j);
  }''', '''  for(std::size_t i = 0; i < items.size(); ++i)
    for(std::size_t j = i + 1; j < items.size(); ++j)
      addEdge(items[i], items[j]);'''))
b('ok-complete', G, ('''  int possibleEdges = graph.numVertices() * (graph.numVertices() - 1) / 2;
  return (graph.numEdges() == possibleEdges);''', '''  const int n = graph.numVertices();
  return 2 * graph.numEdges() == n * (n - 1);'''))
b('ok-herm-rec', Q, ('''    double previous = 0;
    double current = 1 / sqrt(sqrtPi);
    double sumOfSquares = current * current;
    for(int k = 1; k < n; ++k) {
      double next = (nodes_(i) * current - sqrt((k - 1) / 2.0) * previous) / sqrt(k / 2.0);
      previous = current;
      current = next;
      sumOfSquares += current * current;
    }
    weights_(i) = 1 / sumOfSquares;''', '''    Eigen::ArrayXd p = Eigen::ArrayXd::Zero(n + 1);
    p(1) = 1 / sqrt(sqrtPi);
    for(int k = 1; k < n; ++k)
      p(k + 1) = (nodes_(i) * p(k) - sqrt((k - 1) / 2.0) * p(k - 1)) / sqrt(k / 2.0);
    weights_(i) = 1 / p.square().sum();'''))
b('ok-se-vec', SE, ('''  target.head(index) = source.head(index);
  target.tail(n - index) = source.tail(n - index);''', '''  for(int i = 0; i < n; ++i)
    target(i < index ? i : i + (target.size() - n)) = source(i < index ? i : i + (source.size() - n));'''))
b('ok-if-num', I, ('''  Matrix numerator =  integral * integralSecondDerivative -
    integralDerivative * integralDerivative.transpose();
  return numerator / pow(integral, 2);''', '''  const Vector ratio = integralDerivative / integral;
  return integralSecondDerivative / integral - ratio * ratio.transpose();'''))
b('ok-if-condvar', I, ('''     cross_ = variance22.inverse() * variance21;
    
     double varianceConditional = variance11 - 
       (variance21.transpose() * cross_)(0, 0);
     sigmaConditional_ = sqrt(varianceConditional);''', '''     cross_ = variance22.colPivHouseholderQr().solve(variance21);
     sigmaConditional_ = sqrt(variance11 - cross_.dot(variance21));'''))
b('ok-pt-second', P, ('''        if(r == t) {
	  if(s == t)
	    ret(r, s) *= basisSecondDerivative;
	  else
	    ret(r, s) *= basisDerivative;
	} 
	else {
	  if(s == t)
	    ret(r, s) *= basisDerivative;
	  else
	    ret(r, s) *= basisValue;
	}''', '''        const int order = (r == t) + (s == t);
        ret(r, s) *= order == 2 ? basisSecondDerivative : order == 1 ? basisDerivative : basisValue;'''))
b('ok-sg-max', SG, ('''  double maximumStoredValue;
  for(auto i = 0; i < size(); ++i) {
    Eigen::VectorXd gridPoint = point.getGridPoint(basis);
    coefficients_.at(i) = f(gridPoint);
    double value = coefficients_.at(i);
    if((i ==0) || (value > maximumStoredValue))
      maximumStoredValue = value;
    if(i < size() - 1)
      point.advance();
  }
  bound_ = maximumStoredValue;''', '''  for(auto i = 0; i < size(); ++i) {
    coefficients_[i] = f(point.getGridPoint(basis));
    if(i + 1 < size())
      point.advance();
  }
  bound_ = *std::max_element(coefficients_.begin(), coefficients_.end());'''))
b('ok-mb-eval', MB, ('''  for(auto i = beliefs_.begin(); i != beliefs_.end(); ++i) {
    int index = i - beliefs_.begin();
    auto relativeItems = relativeItems_.at(index);
    double beliefValue = i->evaluate(findSubset(x, relativeItems),
				     parameters);
    if(isInverted_.at(index))
      ret -= beliefValue;
    else
      ret += beliefValue;
  }
  return ret;''', '''  for(std::size_t i = 0; i < beliefs_.size(); ++i) {
    const double sign = isInverted_[i] ? -1 : 1;
    ret += sign * beliefs_[i].evaluate(findSubset(x, relativeItems_[i]), parameters);
  }
  return ret;'''))
b('ok-gb-lambda', GB, ('''  int index = 0;
  for (int j = 0; j < LambdatTheta.outerSize(); ++j)
    for (Eigen::SparseMatrix<double>::InnerIterator i(LambdatTheta, j); i; ++i) {
      i.valueRef() = theta(Lind_(index));
      index++;
    }''', '''  for (int k = 0; k < LambdatTheta.nonZeros(); ++k)
    LambdatTheta.valuePtr()[k] = theta(Lind_(k));'''))
b('ok-logit', 'LogitLink.cpp', ('''  return 1 / (1 + exp(-linearPredictor));''', '''  const Eigen::ArrayXd e = exp(-linearPredictor.abs());
  return (linearPredictor >= 0).select(1 / (1 + e), e / (1 + e));'''))
b('ok-bin-clamp', 'Binomial.cpp', ('''  const double epsilon = 1e-8;
  for(auto i = 0; i < mean.size(); ++i) {
    if(mean(i) < epsilon)
      mean(i) = epsilon;
    if(mean(i) > 1 - epsilon)
      mean(i) = 1 - epsilon;
  }''', '''  const double epsilon = 1e-8;
  mean = mean.max(epsilon).min(1 - epsilon);'''))
b('ok-mn-mean', M, ('''    meanSubset = newPrecisionSubset.inverse() * (precisionSubset * meanSubset + normalPrecision * normal.mean_) ;
''', '''    meanSubset += newPrecisionSubset.inverse() * (normalPrecision * (normal.mean_ - meanSubset));
'''))
b('ok-pass', C, ('''  int i, j;
  if(forward) {
    i = edge.firstClusterId_;
    j = edge.secondClusterId_;
  } else {
    i = edge.secondClusterId_;
    j = edge.firstClusterId_;
  }

  auto oldEdgeBelief = edge.belief_;
  
  projectClusterOntoEdge(clusters_.at(i), edge, normalApproxOnly);

  clusters_.at(j) *= edge.belief_;
  clusters_.at(j) /= oldEdgeBelief;
''', '''  int i = edge.firstClusterId_;
  int j = edge.secondClusterId_;
  if(!forward)
    std::swap(i, j);
  auto oldEdgeBelief = edge.belief_;
  edge.belief_ = clusters_.at(i).margin(edge.belief_.getItems(), normalApproxOnly, parameters_);
  auto& target = clusters_.at(j);
  target *= edge.belief_;
  target /= oldEdgeBelief;
'''))

b('ok2-elim', C, ('''    std::vector<int> candidates;
    candidates = remainingItems;
      
    // choose an item to eliminate
    int minSeparatorSize = remainingItems.size();
    int itemToEliminate = candidates.at(0);
    
    for(auto candidate : candidates) {
      auto candidateSeparator = dependenceGraph.findNeighbours(candidate);
      int separatorSize = candidateSeparator.size();

      if(separatorSize < minSeparatorSize) {
	itemToEliminate = candidate;
	minSeparatorSize = separatorSize;
      }
    }
''', '''    int itemToEliminate = remainingItems.front();
    int fewest = remainingItems.size();
    for(std::size_t k = 0; k < remainingItems.size(); ++k) {
      const int neighbours = dependenceGraph.findNeighbours(remainingItems[k]).size();
      if(neighbours >= fewest)
        continue;
      fewest = neighbours;
      itemToEliminate = remainingItems[k];
    }
'''))
b('ok2-hang', C, ('''    std::vector<int> newHangingEdgeIds;
    auto newEdgeId = edges_.size();
    edges_.push_back(Edge(newClusterId, -1, separator));

    for(auto edgeId : hangingEdgeIds) {
      if(isSubset(edges_.at(edgeId).belief_.getItems(), cluster)) {
	edges_.at(edgeId).secondClusterId_ = newClusterId;
      } else {
	newHangingEdgeIds.push_back(edgeId);
      }
    }
    newHangingEdgeIds.push_back(newEdgeId);
''', '''    std::vector<int> newHangingEdgeIds;
    for(auto edgeId : hangingEdgeIds) {
      Edge& edge = edges_.at(edgeId);
      if(!isSubset(edge.belief_.getItems(), cluster)) {
        newHangingEdgeIds.push_back(edgeId);
        continue;
      }
      edge.secondClusterId_ = newClusterId;
    }
    newHangingEdgeIds.push_back(edges_.size());
    edges_.push_back(Edge(newClusterId, -1, separator));
'''))
b('ok2-complete-if', C, ('''  if(isComplete(dependenceGraph)) {
    for(auto edgeId : hangingEdgeIds)
      edges_.at(edgeId).secondClusterId_ = clusters_.size();
    clusters_.push_back(dependenceGraph.getItems());
  }''', '''  if(isComplete(dependenceGraph)) {
    const int lastClusterId = nClusters();
    clusters_.push_back(dependenceGraph.getItems());
    for(auto edgeId : hangingEdgeIds)
      edges_.at(edgeId).secondClusterId_ = lastClusterId;
  }'''))
b('ok2-extract', C, ('''  auto beliefs = clusters_;
  for(auto& edge : edges_) {
    beliefs.at(edge.secondClusterId_) /= edge.belief_;
  }
  return beliefs;''', '''  std::vector<MixedContinuousBelief> beliefs(clusters_.begin(), clusters_.end());
  for(int e = 0; e < nEdges(); ++e) {
    const auto& edge = edges_[e];
    beliefs[edge.secondClusterId_] /= edge.belief_;
  }
  return beliefs;'''))
b('ok2-pop', C, ('''  std::vector<MixedContinuousBelief> containedBeliefs;

  auto isContained = [&cluster](MixedContinuousBelief& belief) {
    return isSubset(belief, cluster);
  };
  
  std::copy_if(beliefs.begin(), beliefs.end(),
	       back_inserter(containedBeliefs), isContained);
  auto newEnd = std::remove_if(beliefs.begin(), beliefs.end(), isContained);
  beliefs.resize(newEnd - beliefs.begin());

  
  for(const auto& belief : containedBeliefs) {
    if(multiply)
      cluster *= belief;
    else
      cluster /= belief;
  }
''', '''  std::vector<MixedContinuousBelief> containedBeliefs, otherBeliefs;
  for(auto& belief : beliefs) {
    if(isSubset(belief, cluster))
      containedBeliefs.push_back(belief);
    else
      otherBeliefs.push_back(belief);
  }
  beliefs = otherBeliefs;

  for(const auto& belief : containedBeliefs) {
    if(multiply)
      cluster *= belief;
    else
      cluster /= belief;
  }
'''))
b('ok2-pop2', C, ('''  std::vector<MixedContinuousBelief> containedBeliefs;

  auto isContained = [&cluster](MixedContinuousBelief& belief) {
    return isSubset(belief, cluster);
  };
  
  std::copy_if(beliefs.begin(), beliefs.end(),
	       back_inserter(containedBeliefs), isContained);
  auto newEnd = std::remove_if(beliefs.begin(), beliefs.end(), isContained);
  beliefs.resize(newEnd - beliefs.begin());

  
  for(const auto& belief : containedBeliefs) {
    if(multiply)
      cluster *= belief;
    else
      cluster /= belief;
  }
''', '''  for(auto it = beliefs.begin(); it != beliefs.end(); ) {
    if(!isSubset(*it, cluster)) {
      ++it;
      continue;
    }
    if(multiply)
      cluster *= *it;
    else
      cluster /= *it;
    it = beliefs.erase(it);
  }
'''))
b('ok2-normal', C, ('''  for(auto& cluster : clusters_) {
    auto clusterItems = cluster.getItems();
    auto meanCluster = getVectorSubset(mean, clusterItems);
    auto precisionCluster =  getSparseMatrixSubset(precision, clusterItems);
    cluster.setNormalApprox(meanCluster, precisionCluster);
  }
  for(auto& edge : edges_) {
    auto edgeItems = edge.belief_.getItems();
    auto meanEdge = getVectorSubset(mean, edgeItems);
    auto precisionEdge =  getSparseMatrixSubset(precision, edgeItems);
    edge.belief_.setNormalApprox(meanEdge, precisionEdge);
  }
''', '''  auto approximate = [&mean, &precision](MixedContinuousBelief& belief) {
    const auto items = belief.getItems();
    belief.setNormalApprox(getVectorSubset(mean, items),
                           getSparseMatrixSubset(precision, items));
  };
  for(auto& edge : edges_)
    approximate(edge.belief_);
  for(auto& cluster : clusters_)
    approximate(cluster);
'''))
b('ok2-removenode', G, ('''  auto ri = positions_.at(i);
  if(graph_[ri].active) {
    auto di = findDegree(i);
    graph_[ri].active = false;
    numVertices_--;
    numEdges_ -= di;
  }''', '''  auto& node = graph_[positions_.at(i)];
  if(!node.active)
    return;
  numEdges_ -= findDegree(i);
  --numVertices_;
  node.active = false;'''))
b('ok2-addedge', G, ('''  // make sure the vertices are active
  if(!graph_[ri].active) {
    graph_[ri].active = true;
    numVertices_++;
  }
  if(!graph_[rj].active) {
    graph_[rj].active = true;
    numVertices_++;
  }
''', '''  for(auto r : {ri, rj}) {
    if(!graph_[r].active) {
      graph_[r].active = true;
      ++numVertices_;
    }
  }
'''))
b('ok2-degree', G, ('''  int degree = 0;
  AdjIter wi, wi_end;
  auto ri = positions_.at(i);

  for(boost::tie(wi, wi_end) = adjacent_vertices(ri, graph_);
      wi != wi_end; ++wi) {
    if(graph_[*wi].active) {
      degree++;
    }
  }
  return degree;''', '''  return findNeighbours(i).size();'''))
b('ok2-degree2', G, ('''  int degree = 0;
  AdjIter wi, wi_end;
  auto ri = positions_.at(i);

  for(boost::tie(wi, wi_end) = adjacent_vertices(ri, graph_);
      wi != wi_end; ++wi) {
    if(graph_[*wi].active) {
      degree++;
    }
  }
  return degree;''', '''  const auto range = adjacent_vertices(positions_.at(i), graph_);
  return std::count_if(range.first, range.second,
                       [this](Graph_::vertex_descriptor w) { return graph_[w].active; });'''.replace('Graph_::vertex_descriptor', 'std::size_t')))
b('ok2-findrel', IH, ('''  auto relativeItem =  std::find(items.begin(), items.end(), item);
  if(relativeItem != items.end())
    return relativeItem - items.begin();
  else
    throw std::domain_error("item not contained in items");''', '''  for(std::size_t i = 0; i < items.size(); ++i)
    if(items[i] == item)
      return i;
  throw std::domain_error("item not contained in items");'''))
b('ok2-rels', IH, ('''  std::vector<int> relativeItems;
  for(auto i = subset.begin(); i != subset.end(); ++i) {
    relativeItems.push_back(findRelativeItem(*i, items));
  }
  return relativeItems;''', '''  std::vector<int> relativeItems(subset.size());
  std::transform(subset.begin(), subset.end(), relativeItems.begin(),
    [&items](int item) { return findRelativeItem(item, items); });
  return relativeItems;'''))
b('ok2-diff', IH, ('''  for(auto i = items.begin(); i != items.end(); ++i) {
    if(std::find(subset.begin(), subset.end(), *i) == subset.end())
      difference.push_back(*i);
  }''', '''  for(int item : items) {
    const bool inSubset = std::count(subset.begin(), subset.end(), item) > 0;
    if(!inSubset)
      difference.push_back(item);
  }'''))
b('ok2-jacobi', Q, ('''  Eigen::MatrixXd hermiteJacobi = Eigen::MatrixXd::Zero(n, n);
  for(int i = 1; i < n; ++i){
    double iOver2 = i / 2.0;
    hermiteJacobi(i, i - 1) =  sqrt(iOver2);
  }
  return hermiteJacobi;''', '''  Eigen::MatrixXd hermiteJacobi = Eigen::MatrixXd::Zero(n, n);
  for(int i = 0; i + 1 < n; ++i)
    hermiteJacobi(i + 1, i) = sqrt(0.5 * (i + 1));
  return hermiteJacobi;'''))
b('ok2-quadvec', Q, ('''  Eigen::ArrayXd ret = Eigen::ArrayXd::Zero(d);
  auto scale = sqrt(2.) * sigma;
  auto nodes = rule.getNodes();
  auto weights = rule.getWeights();
  for(auto i = 0; i < nodes.size(); ++i) {
    double node = nodes(i);
    double transformedNode = scale * node + location;
    ret += weights(i) * f(transformedNode) * exp(pow(node, 2));
  }
  return scale * ret;''', '''  const double scale = sigma * std::sqrt(2.0);
  const Eigen::ArrayXd nodes = rule.getNodes();
  const Eigen::ArrayXd multipliers = scale * rule.getWeights() * nodes.square().exp();
  Eigen::ArrayXd ret = Eigen::ArrayXd::Zero(d);
  for(int i = 0; i < nodes.size(); ++i)
    ret += multipliers(i) * f(location + scale * nodes(i));
  return ret;'''))
b('ok2-mnsub', M, ('''  auto precisionSubset = getMatrixSubset(precision_, subset);
  auto normalPrecision = normal.precision_;
  if(divide)
    normalPrecision *= -1;

  Eigen::MatrixXd newPrecisionSubset
    = precisionSubset + normalPrecision;
''', '''  const double sign = divide ? -1.0 : 1.0;
  const Eigen::MatrixXd precisionSubset = getMatrixSubset(precision_, subset);
  const Eigen::MatrixXd normalPrecision = sign * normal.precision_;
  const Eigen::MatrixXd newPrecisionSubset = precisionSubset + normalPrecision;
'''))
b('ok2-mneval', M, ('''  double ret = normalizer_;
  ret += -0.5 * xDiff.transpose() * precision_ * xDiff;
  return ret;''', '''  const double distance = xDiff.dot(precision_ * xDiff);
  return normalizer_ - distance / 2;'''))
b('ok2-mnmarg', M, ('''  auto varianceMarginal = getMatrixWithout(item, variance_);
  auto meanMarginal = getVectorWithout(item, mean_);
  MultiNormal marginal(meanMarginal.size());
  if(meanMarginal.size() > 0)
    marginal.setMean(meanMarginal);
    marginal.setVariance(varianceMarginal);
  return marginal;''', '''  const Eigen::VectorXd meanMarginal = getVectorWithout(item, mean_);
  MultiNormal marginal(meanMarginal.size());
  marginal.setMean(meanMarginal);
  marginal.setVariance(getMatrixWithout(item, variance_));
  return marginal;'''))
b('ok2-sewithout', SE, ('''  Matrix ret(matrix.rows() - 1, matrix.cols() - 1);
  setMatrixWithout(index, ret, matrix);
  return ret;''', '''  const int n = matrix.rows() - 1;
  Matrix ret(n, n);
  for(int i = 0; i < n; ++i)
    for(int j = 0; j < n; ++j)
      ret(i, j) = matrix(i < index ? i : i + 1, j < index ? j : j + 1);
  return ret;'''))
b('ok2-sesub', SE, ('''  Eigen::VectorXd ret(subset.size());
  for(auto i = subset.size() - subset.size(); i < subset.size(); ++i)
    ret(i) = vector(subset.at(i)); 
  return ret;''', '''  Eigen::VectorXd ret(subset.size());
  int i = 0;
  for(int item : subset)
    ret(i++) = vector(item);
  return ret;'''))
b('ok2-ifderiv', I, ('''    double value = exp(function_(xExt) - logValueAtMean_);
    Vector derivative =  derivativeFunction_(xExt) * value;
    Vector derivativeRem = getVectorWithout(integrateOver_,
					    derivative);
    Vector correction = cross_ * derivative(integrateOver_);
    Eigen::ArrayXd ret = (derivativeRem + correction).array();''', '''    const Vector gradient = derivativeFunction_(xExt);
    const double value = exp(function_(xExt) - logValueAtMean_);
    const Vector total = getVectorWithout(integrateOver_, gradient)
      + gradient(integrateOver_) * cross_;
    Eigen::ArrayXd ret = value * total.array();'''))
b('ok2-ifeval', I, ('''  auto conditionalMean = findConditionalMean(x);
  double integral = integrateNoLog(x, conditionalMean, rule);
  Vector integralDerivative = integrateDerivativeNoLog(x, conditionalMean,
						       rule);
  return integralDerivative / integral;''', '''  const double mu = findConditionalMean(x);
  return integrateDerivativeNoLog(x, mu, rule) / integrateNoLog(x, mu, rule);'''))
b('ok2-ptlevelsum', P, ('''  levelSum_ = 0;
  for(std::vector<int>::const_iterator i = levels_.begin();
      i != levels_.end(); ++i)
    levelSum_ += *i;''', '''  levelSum_ = std::accumulate(levels_.begin(), levels_.end(), 0);'''))
b('ok2-ptadvance', P, ('''  index_++;
  if(!advancePositions()) {
    // couldn't advance positions within grid with these levels
    // so move to the next levels
    if(!advanceLevels()) {
      // couldn't advance level within levels of current levelSum
      // so move to next levelSum
      levelSum_++;
      // and return levels to first value for the levelSum
      for(auto i = levels_.begin(); i != levels_.end(); ++i)
	*i = 0;
      levels_.at(0) = levelSum_;
    }
  }''', '''  ++index_;
  if(advancePositions() || advanceLevels())
    return;
  ++levelSum_;
  std::fill(levels_.begin(), levels_.end(), 0);
  levels_.front() = levelSum_;'''))
b('ok2-ptadvpos', P, ('''  bool success = false;
  int t = 0;
  int d = positions_.size();
  while(!success & (t < d)) {
    success = advancePositionInDirection(t);
    ++t;
  }
  return success;''', '''  for(std::size_t t = 0; t < positions_.size(); ++t)
    if(advancePositionInDirection(t))
      return true;
  return false;'''))
b('ok2-ptadvdir', P, ('''  bool success;
  if(positions_.at(direction) < ((1 << levels_.at(direction)) - 1)) {
    ++positions_.at(direction);
    success = true;
  } else {
    positions_.at(direction) = 0;
    success = false;
  }
  return success;''', '''  int& position = positions_.at(direction);
  const int count = 1 << levels_.at(direction);
  if(position + 1 >= count) {
    position = 0;
    return false;
  }
  position += 1;
  return true;'''))
b('ok2-ptderiv', P, ('''    for(auto s = d - d; s < d; ++s) {
      if(s == t)
	ret[s] *= basisDerivative;
      else
	ret[s] *= basisValue;
    }''', '''    for(std::size_t s = 0; s < d; ++s)
      ret[s] *= s == t ? basisDerivative : basisValue;'''))
b('ok2-ptderiv2', P, ('''  ret = Eigen::VectorXd::Ones(d);
  for(auto t = d - d; t < d; ++t) {
    double basisValue = 
      basis.evaluate(x[t], levels_[t], positions_[t]);
    double basisDerivative = 
      basis.evaluateDerivative(x[t], levels_[t], positions_[t]);
    for(auto s = d - d; s < d; ++s) {
      if(s == t)
	ret[s] *= basisDerivative;
      else
	ret[s] *= basisValue;
    }
  }
  return ret;''', '''  ret = Eigen::VectorXd::Ones(d);
  for(std::size_t s = 0; s < d; ++s) {
    for(std::size_t t = 0; t < d; ++t)
      ret[s] *= (s == t) ? basis.evaluateDerivative(x[t], levels_[t], positions_[t])
                         : basis.evaluate(x[t], levels_[t], positions_[t]);
  }
  return ret;'''))
b('ok2-blknots', L, ('''  int N = (1 << level_);
  double prob;
  double knot;
  int knotId;
  double knotToGrid;
  boost::math::normal standardNormal(0.0, 1.0);
  for(int i = 0; i < N; ++i) {
    prob = (2.0 * i + 1.0) / (2.0 * N);
    knot = scale_ * quantile(standardNormal, prob);
    knotId = knot / bandwidth_;
    knotToGrid = knotId * bandwidth_;
    knots_.push_back(knotToGrid);
  }''', '''  const int numKnots = 1 << level_;
  const boost::math::normal standardNormal;
  knots_.reserve(numKnots);
  for(int i = 0; i < numKnots; ++i) {
    const double prob = (i + 0.5) / numKnots;
    const int knotId = static_cast<int>(scale_ * quantile(standardNormal, prob) / bandwidth_);
    knots_.push_back(bandwidth_ * knotId);
  }'''))
b('ok2-blinterval', L, ('''  int ret = 0;
  if(x > knots_.at(0)) {
     unsigned int xToGrid = (x - knots_.at(0)) / bandwidth_;
     if(xToGrid < gridIds_.size())
       ret = gridIds_[xToGrid];
     else
       ret = (2 << level_) - 1;
  }
  return ret;''', '''  const double first = knots_.front();
  if(x <= first)
    return 0;
  const unsigned int xToGrid = (x - first) / bandwidth_;
  return xToGrid < gridIds_.size() ? gridIds_.at(xToGrid) : (1 << (level_ + 1)) - 1;'''))
b('ok2-sginterp', SG, ('''  double ret = 0;
  Point point(d_);
  for(auto i = 0; i < size(); ++i) {
    ret += coefficients_[i] * point.computeBasis(x, basis);
    if(i < size() - 1)
      point.advance();
  }
  return std::min(ret, bound_);''', '''  double total = 0;
  Point point(d_);
  for(double coefficient : coefficients_) {
    total += coefficient * point.computeBasis(x, basis);
    point.advance();
  }
  return total < bound_ ? total : bound_;'''))
b('ok2-sghier', SG, ('''      while(parent.getLevel(t) < point.getLevel(t)) {
	double contribution = coefficients_.at(parent.getIndex());
	contribution *= basis.evaluate(knot, parent.getLevel(t), parent.getPosition(t));
	coefficients_.at(i) -= contribution;
	parent.advanceInDirection(t);
      }''', '''      double total = 0;
      for(; parent.getLevel(t) < point.getLevel(t); parent.advanceInDirection(t))
        total += coefficients_.at(parent.getIndex())
          * basis.evaluate(knot, parent.getLevel(t), parent.getPosition(t));
      coefficients_.at(i) -= total;'''))
b('ok2-gbsetters', GB, ('''  if(theta.size() != theta_.size() || theta != theta_) {
    theta_ = theta;
    setLambdatThetaZt(theta);
  }''', '''  const bool unchanged = theta.size() == theta_.size() && theta == theta_;
  if(unchanged)
    return;
  theta_ = theta;
  setLambdatThetaZt(theta_);'''))
b('ok2-gbsecond', GB, ('''  return LambdatThetaZt_ * family.evaluateSecondDerivative(linearPredictor, response_, weights_).matrix().asDiagonal() * LambdatThetaZt_.transpose();''', '''  const Eigen::VectorXd curvature = family.evaluateSecondDerivative(linearPredictor, response_, weights_).matrix();
  const Eigen::MatrixXd weighted = LambdatThetaZt_ * curvature.asDiagonal();
  return weighted * LambdatThetaZt_.transpose();'''))
b('ok2-mbproper', MB, ('''  bool proper = true;
  auto normalMean = normalApprox_.getNormal().getMean();
  if(beliefs_.size() > 0) {
    auto evalAtMean = evaluate(normalMean, parameters);
    if(!std::isnormal(evalAtMean)) {
      proper = false;
    }
  }
  auto evalNormalAtMean = normalApprox_.evaluate(normalMean,
						 parameters);
  if(!std::isnormal(evalNormalAtMean)) {
    proper = false;
  }
  
  return proper;''', '''  const Eigen::VectorXd normalMean = normalApprox_.getNormal().getMean();
  if(!beliefs_.empty() && !std::isnormal(evaluate(normalMean, parameters)))
    return false;
  return std::isnormal(normalApprox_.evaluate(normalMean, parameters));'''))
b('ok2-mbderiv', MB, ('''    if(isInverted_.at(i - beliefs_.begin()))
      addVectorSubset(ret, relativeItems, -derivativeSubset);
    else
      addVectorSubset(ret, relativeItems, derivativeSubset);''', '''    const double sign = isInverted_.at(i - beliefs_.begin()) ? -1.0 : 1.0;
    addVectorSubset(ret, relativeItems, sign * derivativeSubset);'''))
b('ok2-famfourth', F, ('''  auto t4 = pow(meanD1, 4) * familyD4;
  auto t3 = 6 * pow(meanD1, 2) * meanD2 * familyD3;
  auto t2 = (4 * meanD1 * meanD3 + 3 * pow(meanD2, 2)) * familyD2;
  auto t1 = meanD4 * familyD1;
  
  return t4 + t3 + t2 + t1;''', '''  const Eigen::ArrayXd square = meanD1 * meanD1;
  Eigen::ArrayXd ret = meanD4 * familyD1;
  ret += (4 * meanD1 * meanD3 + 3 * meanD2.square()) * familyD2;
  ret += 6 * square * meanD2 * familyD3;
  ret += square.square() * familyD4;
  return ret;'''))
b('ok2-linkmap', 'ProbitLink.cpp', ('''  Eigen::ArrayXd mean(linearPredictor.size());
  for(auto i = 0; i < mean.size(); ++i)
    mean(i) = cdf(standardNormal_, linearPredictor(i));
  return mean;''', '''  return linearPredictor.unaryExpr([this](double eta) { return cdf(standardNormal_, eta); });'''))
b('ok2-probit3', 'ProbitLink.cpp', ('''    thirdDerivative(i) = (pow(linearPredictor(i), 2) - 1.) * pdf(standardNormal_, linearPredictor(i));
  return thirdDerivative;''', '''    thirdDerivative(i) = pdf(standardNormal_, linearPredictor(i));
  return (linearPredictor.square() - 1) * thirdDerivative;'''))
b('ok2-binsum', 'Binomial.cpp', ('''  return ( weights * ( response * log(mean) + (1 - response) * log(1 - mean) ) ).sum();''', '''  double total = 0;
  for(int i = 0; i < mean.size(); ++i) {
    const double m = mean(i);
    total += weights(i) * (response(i) * std::log(m) + (1 - response(i)) * std::log1p(-m));
  }
  return total;'''))

def main(names):
    with ThreadPoolExecutor(6) as ex:
        for name, out in ex.map(refc.one, names or list(B)):
            L = out.splitlines()
            dec = [l for l in L if 'FALSE ' in l]
            if 'NOT APPLIED' in out or 'Traceback' in out:
                print('ERROR', name, out[-300:])
            elif dec:
                print('CAUGHT', name, '|', dec[0].strip()[6:120])
            elif L:
                for l in L[:3]:
                    print('SOFT', name, '|', l.strip()[:600])
            else:
                print('EQUAL', name)


main(sys.argv[1:])
