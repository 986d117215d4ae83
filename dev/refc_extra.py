S = 'src/'
H = 'inst/include/'
R = {}
# ------------------------------------------------------------------ families and links
R['fam-mean'] = [(S + 'Family.cpp', '''  auto mean = link_.computeMean(linearPredictor);
  familyGivenMean_.checkMean(mean);
''', '''  auto mean = findMean(linearPredictor);
''', 5), (S + 'Family.cpp', '''double Family::evaluate(''', '''Eigen::ArrayXd Family::findMean(const Eigen::ArrayXd& linearPredictor) const
{
  Eigen::ArrayXd mean = link_.computeMean(linearPredictor);
  familyGivenMean_.checkMean(mean);
  return mean;
}

double Family::evaluate('''), (H + 'Family.h', ''' private:
''', ''' private:
  Eigen::ArrayXd findMean(const Eigen::ArrayXd&) const;
''')]
R['fam-pow'] = [(S + 'Family.cpp', '''  return pow(meanDerivative, 2) * familySecondDerivative  + meanSecondDerivative * familyDerivative;''',
                 '''  Eigen::ArrayXd result = meanDerivative.square() * familySecondDerivative;
  result += familyDerivative * meanSecondDerivative;
  return result;''')]
R['fam-third'] = [(S + 'Family.cpp', '''  return pow(meanD1, 3) * familyD3  + 3. * meanD1 * meanD2 * familyD2 + meanD3 * familyD1;''',
                   '''  const Eigen::ArrayXd outer = familyD3 * meanD1.cube();
  const Eigen::ArrayXd mixed = 3.0 * (meanD2 * familyD2) * meanD1;
  return outer + mixed + familyD1 * meanD3;''')]
R['fam-fourth'] = [(S + 'Family.cpp', '''  auto t4 = pow(meanD1, 4) * familyD4;
  auto t3 = 6 * pow(meanD1, 2) * meanD2 * familyD3;
  auto t2 = (4 * meanD1 * meanD3 + 3 * pow(meanD2, 2)) * familyD2;
  auto t1 = meanD4 * familyD1;
  
  return t4 + t3 + t2 + t1;''', '''  Eigen::ArrayXd meanD1Squared = meanD1 * meanD1;
  Eigen::ArrayXd sum = meanD4 * familyD1;
  sum += 3 * meanD2 * meanD2 * familyD2;
  sum += 4 * meanD1 * meanD3 * familyD2;
  sum += 6 * meanD1Squared * meanD2 * familyD3;
  sum += meanD1Squared * meanD1Squared * familyD4;
  return sum;''')]
R['fam-order'] = [(S + 'Family.cpp', '''  auto mean = link_.computeMean(linearPredictor);
  familyGivenMean_.checkMean(mean);
  auto meanDerivative = link_.computeMeanDerivative(linearPredictor);
  return meanDerivative''', '''  auto meanDerivative = link_.computeMeanDerivative(linearPredictor);
  auto mean = link_.computeMean(linearPredictor);
  familyGivenMean_.checkMean(mean);
  return meanDerivative''')]
R['bin-minmax'] = [(S + 'Binomial.cpp', '''  for(auto i = 0; i < mean.size(); ++i) {
    if(mean(i) < epsilon)
      mean(i) = epsilon;
    if(mean(i) > 1 - epsilon)
      mean(i) = 1 - epsilon;
  }''', '''  mean = mean.max(epsilon).min(1 - epsilon);''')]
R['bin-ternary'] = [(S + 'Binomial.cpp', '''    if(mean(i) < epsilon)
      mean(i) = epsilon;
    if(mean(i) > 1 - epsilon)
      mean(i) = 1 - epsilon;
''', '''    const double value = mean[i];
    mean[i] = value < epsilon ? epsilon : (value > 1 - epsilon ? 1 - epsilon : value);
''')]
R['bin-std'] = [(S + 'Binomial.cpp', '''    if(mean(i) < epsilon)
      mean(i) = epsilon;
    if(mean(i) > 1 - epsilon)
      mean(i) = 1 - epsilon;
''', '''    mean(i) = std::min(std::max(mean(i), epsilon), 1 - epsilon);
''')]
R['bin-elseif'] = [(S + 'Binomial.cpp', '''      mean(i) = epsilon;
    if(mean(i) > 1''', '''      mean(i) = epsilon;
    else if(mean(i) > 1''')]
R['bin-loop'] = [(S + 'Binomial.cpp', '''  return ( weights * ( response * log(mean) + (1 - response) * log(1 - mean) ) ).sum();''',
                  '''  double total = 0;
  for(int i = 0; i < mean.size(); ++i)
    total += weights(i) * (response(i) * std::log(mean(i)) + (1 - response(i)) * std::log(1 - mean(i)));
  return total;''')]
R['bin-tmp'] = [(S + 'Binomial.cpp', '''  return ( weights * ( response * log(mean) + (1 - response) * log(1 - mean) ) ).sum();''',
                 '''  const Eigen::ArrayXd success = response * mean.log();
  const Eigen::ArrayXd failure = (1.0 - response) * (1.0 - mean).log();
  return (weights * success).sum() + (weights * failure).sum();''')]
R['bin-d1'] = [(S + 'Binomial.cpp', '''  return weights * ( (response  / mean) - (1 - response) / (1 - mean) );''',
                '''  return weights * (response - mean) / (mean * (1 - mean));''')]
R['bin-d2'] = [(S + 'Binomial.cpp', '''  return -weights * ( response * pow(mean, -2) + (1 - response) * pow(1 - mean, -2) );''',
                '''  return -(weights * (response / mean.square() + (1 - response) / (1 - mean).square()));''')]
R['bin-d3'] = [(S + 'Binomial.cpp', '''  return 2 * weights * ( response * pow(mean, -3) - (1 - response) * pow(1 - mean, -3) );''',
                '''  const Eigen::ArrayXd q = 1 - mean;
  return weights * (2 * response / (mean * mean * mean) - 2 * (1 - response) / (q * q * q));''')]
R['logit-d1'] = [(S + 'LogitLink.cpp', '''  Eigen::ArrayXd p = computeMean(linearPredictor);
  Eigen::ArrayXd q = computeMean(-linearPredictor);
  return p * q;''', '''  return computeMean(linearPredictor) * computeMean(-linearPredictor);''')]
R['logit-mean'] = [(S + 'LogitLink.cpp', '''  return 1 / (1 + exp(-linearPredictor));''', '''  return (1.0 + (-linearPredictor).exp()).inverse();''')]
R['logit-helper'] = [(S + 'LogitLink.cpp', '''  Eigen::ArrayXd p = computeMean(linearPredictor);
  Eigen::ArrayXd q = computeMean(-linearPredictor);
  return p * q * (q - p);''', '''  Eigen::ArrayXd q = computeMean(-linearPredictor);
  return computeMeanDerivative(linearPredictor) * (q - computeMean(linearPredictor));''')]
R['logit-loop'] = [(S + 'LogitLink.cpp', '''  return 1 / (1 + exp(-linearPredictor));''', '''  Eigen::ArrayXd mean(linearPredictor.size());
  for(int i = 0; i < linearPredictor.size(); i++)
    mean(i) = 1 / (1 + std::exp(-linearPredictor(i)));
  return mean;''')]
R['probit-unary'] = [(S + 'ProbitLink.cpp', '''  Eigen::ArrayXd mean(linearPredictor.size());
  for(auto i = 0; i < mean.size(); ++i)
    mean(i) = cdf(standardNormal_, linearPredictor(i));
  return mean;''', '''  return linearPredictor.unaryExpr([this](double x) { return cdf(standardNormal_, x); });''')]
R['probit-reuse'] = [(S + 'ProbitLink.cpp', '''  Eigen::ArrayXd secondDerivative(linearPredictor.size());
  for(auto i = 0; i < secondDerivative.size(); ++i)
    secondDerivative(i) = -linearPredictor(i) * pdf(standardNormal_, linearPredictor(i));
  return secondDerivative;''', '''  return -linearPredictor * computeMeanDerivative(linearPredictor);''')]
R['probit-third'] = [(S + 'ProbitLink.cpp', '''    thirdDerivative(i) = (pow(linearPredictor(i), 2) - 1.) * pdf(standardNormal_, linearPredictor(i));''',
                      '''    {
      const double x = linearPredictor[i];
      thirdDerivative[i] = (x * x - 1) * pdf(standardNormal_, x);
    }''')]
R['link-make'] = [(S + 'Link.cpp', '''  if(type == "logit")
    link_ = std::shared_ptr<LinkBase>(new LogitLink);
  else if(type == "probit")
    link_ = std::shared_ptr<LinkBase>(new ProbitLink);
  else
    throw std::domain_error("constructing a family of unknown type");''', '''  if(type == "logit") {
    link_ = std::make_shared<LogitLink>();
    return;
  }
  if(type == "probit") {
    link_.reset(new ProbitLink());
    return;
  }
  throw std::domain_error("constructing a family of unknown type");''')]
R['family-neg'] = [(S + 'FamilyGivenMean.cpp', '''  if(type == "binomial")
    familyGivenMean_ = std::shared_ptr<FamilyBase>(new Binomial);
  else
    throw std::domain_error("constructing a family of unknown type");''', '''  if(type != "binomial")
    throw std::domain_error("unknown family: constructing a family of unknown type");
  familyGivenMean_ = std::shared_ptr<FamilyBase>(new Binomial());''')]

# ------------------------------------------------------------------ MultiNormal
R['mn-set'] = [(S + 'MultiNormal.cpp', '''  precision_.resize(precision.rows(), precision.cols());
  precision_ = precision;
  variance_.resize(precision.rows(), precision.cols());
  if(variance_.rows() > 0)
    variance_ = precision.inverse();
  initializeNormalizer();''', '''  precision_ = precision;
  variance_.resize(precision_.rows(), precision_.cols());
  if(precision_.rows() != 0)
    variance_ = precision_.inverse();
  initializeNormalizer();''')]
R['mn-eval'] = [(S + 'MultiNormal.cpp', '''  Eigen::VectorXd xDiff = x - mean_;
  double ret = normalizer_;
  ret += -0.5 * xDiff.transpose() * precision_ * xDiff;
  return ret;''', '''  const Eigen::VectorXd centred = x - mean_;
  const double quadraticForm = centred.dot(precision_ * centred);
  return normalizer_ - quadraticForm / 2;''')]
R['mn-marg'] = [(S + 'MultiNormal.cpp', '''  if(items.size() > 0)
    marginal.setMean(meanMarginal);
    marginal.setVariance(varianceMarginal);
  return marginal;''', '''  if(!items.empty())
    marginal.setMean(meanMarginal);
  marginal.setVariance(varianceMarginal);
  return marginal;''')]
R['mn-mult'] = [(S + 'MultiNormal.cpp', '''  auto precisionSubset = getMatrixSubset(precision_, subset);
  auto normalPrecision = normal.precision_;
  if(divide)
    normalPrecision *= -1;
  Eigen::MatrixXd newPrecisionSubset
    = precisionSubset + normalPrecision;
''', '''  const double sign = divide ? -1 : 1;
  const Eigen::MatrixXd precisionSubset = getMatrixSubset(precision_, subset);
  const Eigen::MatrixXd normalPrecision = sign * normal.precision_;
  const Eigen::MatrixXd newPrecisionSubset = normalPrecision + precisionSubset;
''')]
R['mn-order'] = [(S + 'MultiNormal.cpp', '''  setMatrixSubset(precision_, newPrecisionSubset, subset);
  setVectorSubset(mean_, meanSubset, subset);
''', '''  setVectorSubset(mean_, meanSubset, subset);
  setMatrixSubset(precision_, newPrecisionSubset, subset);
''')]
R['mn-norm'] = [(S + 'MultiNormal.cpp', '''  normalizer_ = -dimension() * logSqrtTwoPi + 0.5 * log(precision_.determinant());''',
                 '''  const double logDeterminant = std::log(precision_.determinant());
  normalizer_ = 0.5 * logDeterminant - mean_.size() * logSqrtTwoPi;''')]
R['mn-init'] = [(S + 'MultiNormal.cpp', '''  mean_(mean), precision_(precision), variance_(precision), normalizer_(0)
{
  setPrecision(precision);''', '''  mean_(mean), normalizer_(0)
{
  setPrecision(precision);''')]
R['mn-proper'] = [(S + 'MultiNormal.cpp', '''  return ((normalizer_ != 0) && (std::isfinite(normalizer_)));''', '''  if(normalizer_ == 0)
    return false;
  return std::isfinite(normalizer_);''')]
R['mn-params'] = [(S + 'MultiNormal.cpp', '''void MultiNormal::multiplySubset(const MultiNormal& normal,
				 const std::vector<int>& subset)
{
  multiplySubsetInternal(normal, subset, false);''', '''void MultiNormal::multiplySubset(const MultiNormal& other,
				 const std::vector<int>& positions)
{
  const bool divide = false;
  multiplySubsetInternal(other, positions, divide);''')]

# ------------------------------------------------------------------ quadrature
R['quad-pow'] = [(S + 'QuadratureRule.cpp', '''    ret += weights(i) * f(transformedNode) * exp(pow(node, 2));
  }
  return scale * ret;
}

// version for scalar input, vector''', '''    ret += exp(node * node) * weights[i] * f(transformedNode);
  }
  return ret * scale;
}

// version for scalar input, vector''')]
R['quad-const'] = [(S + 'QuadratureRule.cpp', '1.772453851', '1.77245385090551602730')]
R['quad-init'] = [(S + 'QuadratureRule.cpp', '''  Eigen::ArrayXd firstRow = es.eigenvectors().row(0).array();
  weights_ = sqrtPi * firstRow * firstRow;''', '''  weights_ = sqrtPi * es.eigenvectors().row(0).array().square();''')]
R['quad-jacobi'] = [(S + 'QuadratureRule.cpp', '''  for(int i = 1; i < n; ++i){
    double iOver2 = i / 2.0;
    hermiteJacobi(i, i - 1) =  sqrt(iOver2);
  }''', '''  for(int i = 0; i + 1 < n; ++i)
    hermiteJacobi(i + 1, i) = std::sqrt((i + 1) / 2.0);''')]
R['quad-tmpl'] = [(S + 'QuadratureRule.cpp', '''  Eigen::ArrayXd ret = Eigen::ArrayXd::Zero(d);
  auto scale = sqrt(2.) * sigma;
  auto nodes = rule.getNodes();
  auto weights = rule.getWeights();
  for(auto i = 0; i < nodes.size(); ++i) {
    double node = nodes(i);
    double transformedNode = scale * node + location;
    ret += weights(i) * f(transformedNode) * exp(pow(node, 2));
  }
  return scale * ret;''', '''  const double scale = std::sqrt(2.0) * sigma;
  const Eigen::ArrayXd points = location + scale * rule.getNodes();
  const Eigen::ArrayXd weights = scale * rule.getWeights() * rule.getNodes().square().exp();
  Eigen::ArrayXd ret = Eigen::ArrayXd::Zero(d);
  for(int i = 0; i < points.size(); ++i)
    ret += weights(i) * f(points(i));
  return ret;''')]

# ------------------------------------------------------------------ graphs
R['graph-degree'] = [(S + 'Graph.cpp', '''  int degree = 0;
  AdjIter wi, wi_end;
  auto ri = positions_.at(i);
  for(boost::tie(wi, wi_end) = adjacent_vertices(ri, graph_);
      wi != wi_end; ++wi) {
    if(graph_[*wi].active) {
      degree++;
    }
  }
  return degree;''', '''  return findNeighbours(i).size();''')]
R['graph-edge'] = [(S + 'Graph.cpp', '''  // make sure the vertices are active
  if(!graph_[ri].active) {
    graph_[ri].active = true;
    numVertices_++;
  }
  if(!graph_[rj].active) {
    graph_[rj].active = true;
    numVertices_++;
  }
  bool edgeExists = boost::edge(ri, rj, graph_).second;
  if(!edgeExists) {
    boost::add_edge(ri, rj, graph_);
    numEdges_++;
  }''', '''  for(auto r : {ri, rj}) {
    if(!graph_[r].active) {
      graph_[r].active = true;
      ++numVertices_;
    }
  }
  if(boost::edge(ri, rj, graph_).second)
    return;
  boost::add_edge(ri, rj, graph_);
  numEdges_ += 1;''')]
R['graph-activate'] = [(S + 'Graph.cpp', '''  if(!graph_[ri].active) {
    graph_[ri].active = true;
    numVertices_++;
  }
  if(!graph_[rj].active) {
    graph_[rj].active = true;
    numVertices_++;
  }
''', '''  auto activate = [this](Vertex v) {
    if(graph_[v].active)
      return;
    graph_[v].active = true;
    numVertices_++;
  };
  activate(ri);
  activate(rj);
''')]
R['graph-connect'] = [(S + 'Graph.cpp', '''   for (auto i = items.begin(); i != items.end(); ++i) {
    auto j = i;
    j++;
    for(; j != items.end(); ++j)
      addEdge(*i, *j);
  }''', '''  for(std::size_t i = 0; i < items.size(); ++i) {
    for(std::size_t j = i + 1; j < items.size(); ++j)
      addEdge(items[i], items[j]);
  }''')]
R['graph-remove'] = [(S + 'Graph.cpp', '''  if(graph_[ri].active) {
    auto di = findDegree(i);
    graph_[ri].active = false;
    numVertices_--;
    numEdges_ -= di;
  }''', '''  if(!graph_[ri].active)
    return;
  numEdges_ -= findDegree(i);
  numVertices_ -= 1;
  graph_[ri].active = false;''')]
R['graph-complete'] = [(S + 'Graph.cpp', '''  int possibleEdges = graph.numVertices() * (graph.numVertices() - 1) / 2;
  return (graph.numEdges() == possibleEdges);''', '''  const int n = graph.numVertices();
  return graph.numEdges() == (n * (n - 1)) / 2;''')]
R['graph-complete2'] = [(S + 'Graph.cpp', '''  int possibleEdges = graph.numVertices() * (graph.numVertices() - 1) / 2;
  return (graph.numEdges() == possibleEdges);''', '''  const int n = graph.numVertices();
  return 2 * graph.numEdges() == n * (n - 1);''')]
R['dep-graph'] = [(H + 'dependenceGraph.h', '''  std::vector<int> items;
  
  for(auto& belief : beliefs)
    items = findItemsUnion(items, belief.getItems());
  Graph dependenceGraph(items);
  
  for(auto& belief : beliefs) {
    dependenceGraph.connect(belief.getItems());  
  }
  return dependenceGraph;''', '''  std::vector<int> allItems;
  for(std::size_t i = 0; i < beliefs.size(); ++i) {
    const std::vector<int> items = beliefs[i].getItems();
    allItems = findItemsUnion(allItems, items);
  }
  Graph graph(allItems);
  for(auto belief = beliefs.begin(); belief != beliefs.end(); ++belief)
    graph.connect(belief->getItems());
  return graph;''')]
R['items-subset'] = [(H + 'itemsHelper.h', '''    std::sort(A.begin(), A.end());
    std::sort(B.begin(), B.end());
    return std::includes(B.begin(), B.end(), A.begin(), A.end());''', '''    std::sort(B.begin(), B.end());
    std::sort(A.begin(), A.end());
    const bool contained = std::includes(B.begin(), B.end(), A.begin(), A.end());
    return contained;''')]
R['covers'] = [(H + 'CoversBelief.h', '''   for(auto i = items.begin(); i != items.end(); ++i)
     if(std::find(otherItems.begin(), otherItems.end(), *i) == otherItems.end())
      return false;
  return true;''', '''  return std::all_of(items.begin(), items.end(), [&otherItems](int item) {
    return std::find(otherItems.begin(), otherItems.end(), item) != otherItems.end();
  });''')]

# ------------------------------------------------------------------ stores
R['sgt-helper'] = [(S + 'SparseGridTransform.cpp', '''  Eigen::VectorXd z = inverseScale_ * (x - shift_);
  return fTransformStored_.interpolate(z, basis) - 0.5 * z.squaredNorm();''', '''  const Eigen::VectorXd centred = x - shift_;
  const Eigen::VectorXd z = inverseScale_ * centred;
  const double interpolated = fTransformStored_.interpolate(z, basis);
  return interpolated - z.dot(z) / 2;''')]
R['sgt-second'] = [(S + 'SparseGridTransform.cpp', ''' Eigen::MatrixXd unscaledReturn = fTransformStored_.interpolateSecondDerivative(z, basis) - Eigen::MatrixXd::Identity(z.size(), z.size());
 return inverseScale_.transpose() * unscaledReturn * inverseScale_;''', ''' const auto d = z.size();
 Eigen::MatrixXd inner = fTransformStored_.interpolateSecondDerivative(z, basis);
 inner -= Eigen::MatrixXd::Identity(d, d);
 Eigen::MatrixXd half = inner * inverseScale_;
 return inverseScale_.transpose() * half;''')]
R['sgt-lambda'] = [(S + 'SparseGridTransform.cpp', '''  auto fTransform = [&f, this](const Eigen::VectorXd& z) {
    return f(shift_ + scale_ * z) + 0.5 * z.squaredNorm();
  };
  fTransformStored_.initialize(fTransform, basis);''', '''  fTransformStored_.initialize([&](const Eigen::VectorXd& point) {
    const Eigen::VectorXd x = scale_ * point + shift_;
    return 0.5 * point.squaredNorm() + f(x);
  }, basis);''')]
R['store-eval'] = [(S + 'SparseStore.cpp', '''  double ret = fPlusModifierStored_.interpolate(x, basis);
  ret -= modifier_(x);
  return ret;''', '''  return fPlusModifierStored_.interpolate(x, basis) - modifier_(x);''')]
R['store-init'] = [(S + 'SparseStore.cpp', '''  Eigen::VectorXd derivativeModifier
    = fDerivative(location) 
      - normal.evaluateDerivative(location);
  Eigen::MatrixXd secondDerivativeModifier
    = fSecondDerivative(location)
      - normal.evaluateSecondDerivative(location);
  modifier_.initializeFromDerivatives(location, 
				      derivativeModifier, 
				      secondDerivativeModifier);''', '''  Eigen::MatrixXd curvature = fSecondDerivative(location);
  curvature -= normal.evaluateSecondDerivative(location);
  Eigen::VectorXd slope = fDerivative(location);
  slope -= normal.evaluateDerivative(location);
  modifier_.initializeFromDerivatives(location, slope, curvature);''')]
R['quadratic'] = [(S + 'Quadratic.cpp', '''  return (x - b_).transpose() * A_ * (x - b_);''', '''  const Eigen::VectorXd centred = x - b_;
  return centred.dot(A_ * centred);''')]
R['quadratic-init'] = [(S + 'Quadratic.cpp', '''  if(location.size() > 0) {
    // there are multiple choices of A  which would give the
    // correct derivatives. We choose the symmetric one.
    A_ = -secondDerivativeAtLocation / 2;
    if(A_.norm() > 0)
       b_ = location + A_.colPivHouseholderQr().solve(derivativeAtLocation) / 2;
    else
      b_ = location;
  }''', '''  if(location.size() == 0)
    return;
  A_ = -0.5 * secondDerivativeAtLocation;
  b_ = location;
  if(A_.norm() > 0) {
    const Eigen::VectorXd step = A_.colPivHouseholderQr().solve(derivativeAtLocation);
    b_ += 0.5 * step;
  }''')]
R['quadratic-d1'] = [(S + 'Quadratic.cpp', '''  return (x - b_).transpose() * (A_ +  A_.transpose());''', '''  return secondDerivative(x).transpose() * (x - b_);''')]
R['access'] = [(S + 'accessParameters.cpp', '''  Family family = parameters.GLMMFamily;
  FamilyGivenMean familyGivenMean = family.getFamilyGivenMean();
  return familyGivenMean.getName();''', '''  return parameters.GLMMFamily.getFamilyName();'''),
 (S + 'accessParameters.cpp', '''  FamilyGivenMean newFamilyGivenMean(familyName);
  Family family = parameters.GLMMFamily;
  family.setFamilyGivenMean(newFamilyGivenMean);
  parameters.GLMMFamily = family;''', '''  parameters.GLMMFamily.setFamilyGivenMean(FamilyGivenMean(familyName));'''),
 (S + 'accessParameters.cpp', '''  Basis newBasis(nSparseLevels);
  parameters.sparseBasis = newBasis;''', '''  parameters.sparseBasis = Basis(nSparseLevels);''')]
R['access-make'] = [(S + 'accessParameters.cpp', '''  Eigen::VectorXd emptyVector = Eigen::VectorXd::Zero(0);
  parameters.GLMMTheta = emptyVector;
  parameters.GLMMBeta = emptyVector;
  setParametersFamily(parameters, "binomial");
  setParametersLink(parameters, "logit");
  setParametersNSparseLevels(parameters, 1);
  setParametersNQuadraturePoints(parameters, 1);
''', '''  setParametersNQuadraturePoints(parameters, 1);
  setParametersNSparseLevels(parameters, 1);
  setParametersLink(parameters, "logit");
  setParametersFamily(parameters, "binomial");
  parameters.GLMMTheta = Eigen::VectorXd::Zero(0);
  parameters.GLMMBeta = Eigen::VectorXd::Zero(0);
''')]
R['belief-width'] = [(S + 'BeliefBase.cpp', '''  return items_.size();''', '''  const auto n = items_.size();
  return static_cast<int>(n);''')]
R['append'] = [(S + 'MixedContinuousBeliefVector.cpp', '''  ContinuousBelief term(items, mean, precision);
  MixedContinuousBelief belief(term);
  beliefs.push_back(belief);''', '''  beliefs.push_back(MixedContinuousBelief(ContinuousBelief(items, mean, precision)));''')]
R['belief-new'] = [(S + 'ContinuousBelief.cpp', '''  continuousBelief_(new NormalBelief(items, mean, precision))''', '''  continuousBelief_(std::make_shared<NormalBelief>(items, mean, precision))''')]
